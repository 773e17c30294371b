// pub checks properties of the public API: pub PROPERTY quick|thorough RESULT.json, or pub replay FILE.
package main

import (
	"fmt"
	"os"
	"time"

	"github.com/apparentlymart/go-textseg/v17/textseg"
	"verif.local/harness/explore"
	"verif.local/harness/kit"
	"verif.local/harness/spec"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "replay" {
		os.Exit(explore.ReplayFile(os.Args[2], textseg.ScanGraphemeClusters))
	}
	prop, tier, out := os.Args[1], os.Args[2], os.Args[3]
	thorough := tier == "thorough"
	limit := 600 * time.Second
	if thorough {
		limit = 780 * time.Second
	}
	x := &explore.X{Run: kit.New(prop, thorough, out, limit), M: spec.NewModel(), Scan: textseg.ScanGraphemeClusters, Import: "github.com/apparentlymart/go-textseg/v17/textseg"}
	switch prop {
	case "C01":
		x.C01()
	case "C02":
		x.C02()
	case "C03":
		x.C03()
	case "C04":
		x.C04()
	case "C05":
		x.C05()
	case "C06":
		x.C06()
	case "C07":
		x.C07()
	case "C16":
		x.C16()
	case "C19":
		x.C19()
	case "C17":
		x.C17()
	default:
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	x.Finish()
}
