// tablerewrite IN OUT turns the variables of a generated property table into slices that a program can replace at run
// time: var x = [...]T{...} becomes var x = []T{...}, and VerifSetTable(file) sets them from another generated file.
// It exits with status 3 if the file holds anything else.
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	bad := func(n ast.Node, why string) {
		fmt.Fprintln(os.Stderr, fset.Position(n.Pos()), why)
		os.Exit(3)
	}
	var cases strings.Builder
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			bad(d, "not a var declaration")
		}
		for _, s := range g.Specs {
			v := s.(*ast.ValueSpec)
			if len(v.Names) != 1 || len(v.Values) != 1 {
				bad(v, "not a single variable")
			}
			lit, ok := v.Values[0].(*ast.CompositeLit)
			if !ok {
				bad(v, "not a composite literal")
			}
			at, ok := lit.Type.(*ast.ArrayType)
			if !ok {
				bad(v, "not an array or slice")
			}
			elem, ok := at.Elt.(*ast.Ident)
			if !ok {
				bad(v, "not a plain element type")
			}
			for _, e := range lit.Elts {
				if _, ok := e.(*ast.BasicLit); !ok {
					bad(e, "not a plain number")
				}
			}
			at.Len = nil
			v.Type = nil
			fmt.Fprintf(&cases, "\t\tcase %q:\n\t\t\tn := make([]%s, len(vs))\n\t\t\tfor i, v := range vs {\n\t\t\t\tn[i] = %s(v)\n\t\t\t\tif uint64(n[i]) != v {\n\t\t\t\t\treturn errors.New(\"the table does not fit its type\")\n\t\t\t\t}\n\t\t\t}\n\t\t\t%s = n\n\t\t\tset++\n", v.Names[0].Name, elem.Name, elem.Name, v.Names[0].Name)
		}
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	if err := format.Node(out, fset, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	nvars := strings.Count(cases.String(), "case ")
	// Imports must come first, so the setter is in a file of its own.
	out.Close()
	set, err := os.Create(os.Args[3])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Fprintf(set, `package %s

import "errors"

// VerifSetTable replaces the tables.
func VerifSetTable(tables map[string][]uint64) error {
	set := 0
	for name, vs := range tables {
		switch name {
%s		default:
			return errors.New("unknown table " + name)
		}
	}
	if set != %d {
		return errors.New("not all tables are there")
	}
	return nil
}
`, f.Name.Name, cases.String(), nvars)
	set.Close()
}
