// buildconf enumerates build configurations and groups them by the files of some package directories that the go command
// would compile: every release from none to go1.40, every port, with and without cgo, with the race detector or a
// sanitizer, and with every combination of the build tags which the files themselves mention (at most 6 of them).
//
//	buildconf [-from N] [-files ports] DIR... <ports
//
// prints a JSON list of groups. The ports are those of 'go tool dist list'. -from gives the first minor release.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/build"
	"go/build/constraint"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type group struct {
	Files    []string
	Releases map[int]int    // how many configurations of each minor release
	Example  map[int]string // one of them
	Any      example
}

type example struct {
	Release      int
	GOOS, GOARCH string
	Cgo          bool
	Tags         []string
}

const last = 40

var known = map[string]bool{"cgo": true, "race": true, "msan": true, "asan": true, "gc": true, "gccgo": true, "unix": true, "ignore": true}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

// mentioned returns the tags in a file's constraints.
func mentioned(path string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	var ret []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "package ") {
			break
		}
		if !constraint.IsGoBuild(l) && !constraint.IsPlusBuild(l) {
			continue
		}
		e, err := constraint.Parse(l)
		if err != nil {
			continue
		}
		e.Eval(func(tag string) bool { ret = append(ret, tag); return false })
		e.Eval(func(tag string) bool { ret = append(ret, tag); return true })
	}
	return ret
}

func main() {
	from := flag.Int("from", 0, "first minor release")
	flag.Parse()
	type file struct{ dir, name string }
	var names []file
	for _, dir := range flag.Args() {
		entries, err := os.ReadDir(dir)
		if err != nil {
			fatal(err)
		}
		for _, e := range entries {
			n := e.Name()
			if ext := filepath.Ext(n); !e.IsDir() && (ext == ".go" || ext == ".s") && !strings.HasSuffix(n, "_test.go") {
				names = append(names, file{dir, n})
			}
		}
	}
	var ports [][2]string
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		if os, arch, ok := strings.Cut(strings.TrimSpace(sc.Text()), "/"); ok {
			ports = append(ports, [2]string{os, arch})
			known[os], known[arch] = true, true
		}
	}
	own := map[string]bool{}
	for _, f := range names {
		for _, t := range mentioned(filepath.Join(f.dir, f.name)) {
			if !known[t] && !strings.HasPrefix(t, "go1.") && !strings.HasPrefix(t, "goexperiment.") {
				own[t] = true
			}
		}
	}
	var tags []string
	for t := range own {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	left := 0
	if len(tags) > 6 {
		left, tags = len(tags)-6, tags[:6]
	}
	groups := map[string]*group{}
	total := 0
	try := func(p [2]string, cgo bool, ts []string, n int) {
		c := build.Default
		c.GOOS, c.GOARCH, c.CgoEnabled, c.Compiler = p[0], p[1], cgo, "gc"
		c.BuildTags, c.ToolTags, c.ReleaseTags = ts, nil, nil
		for i := 1; i <= n; i++ {
			c.ReleaseTags = append(c.ReleaseTags, fmt.Sprint("go1.", i))
		}
		var files []string
		for _, f := range names {
			ok, err := c.MatchFile(f.dir, f.name)
			if err != nil {
				fatal(f.name, err)
			}
			if ok {
				if len(flag.Args()) == 1 {
					files = append(files, f.name)
				} else {
					files = append(files, filepath.Join(f.dir, f.name))
				}
			}
		}
		sort.Strings(files)
		key := strings.Join(files, " ")
		g := groups[key]
		e := example{n, p[0], p[1], cgo, append([]string{}, ts...)}
		if g == nil {
			g = &group{Files: files, Releases: map[int]int{}, Example: map[int]string{}, Any: e}
			groups[key] = g
		}
		if p == [2]string{"linux", "amd64"} && g.Any.GOOS+g.Any.GOARCH != "linuxamd64" {
			g.Any = e
		}
		g.Releases[n]++
		if g.Example[n] == "" {
			g.Example[n] = fmt.Sprintf("go1.%d on %s/%s, cgo %v, tags %v", n, p[0], p[1], cgo, ts)
		}
		total++
	}
	for _, p := range ports {
		for _, cgo := range []bool{false, true} {
			for _, san := range []string{"", "race", "msan", "asan"} {
				if san != "" && !cgo {
					continue
				}
				for mask := 0; mask < 1<<len(tags); mask++ {
					var ts []string
					if san != "" {
						ts = append(ts, san)
					}
					for i, t := range tags {
						if mask>>i&1 == 1 {
							ts = append(ts, t)
						}
					}
					for n := *from; n <= last; n++ {
						try(p, cgo, ts, n)
					}
				}
			}
		}
	}
	var list []*group
	for _, g := range groups {
		list = append(list, g)
	}
	sort.Slice(list, func(i, j int) bool { return strings.Join(list[i].Files, " ") < strings.Join(list[j].Files, " ") })
	json.NewEncoder(os.Stdout).Encode(map[string]any{"groups": list, "configurations": total, "ports": len(ports), "files": len(names), "tags": tags, "tags_left_out": left})
}
