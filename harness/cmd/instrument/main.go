// instrument writes a copy of Go packages in which every statement is preceded by a scheduling point.
//
//	instrument ZZSCHED VSYNC OUTDIR OVERLAY.json < list of lines "DIR FILE..."
//
// ZZSCHED and VSYNC are import paths. Adds to the overlay file the instrumented files, and for each package one that
// registers a function which gives its variables their initial values. Exits with 3 if a package uses what the scheduler
// does not control (goroutines, channels).
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	zz, vsync, out, overlay := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	var ov struct{ Replace map[string]string }
	raw, err := os.ReadFile(overlay)
	check(err)
	check(json.Unmarshal(raw, &ov))
	in := bufio.NewScanner(os.Stdin)
	points, npkg := 0, 0
	for in.Scan() {
		f := strings.Fields(in.Text())
		if len(f) < 2 {
			continue
		}
		points += instrument(f[0], f[1:], zz, vsync, filepath.Join(out, fmt.Sprint("p", npkg)), ov.Replace)
		npkg++
	}
	check(in.Err())
	b, err := json.Marshal(ov)
	check(err)
	check(os.WriteFile(overlay, b, 0o644))
	fmt.Println(points)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func unsupported(fset *token.FileSet, p token.Pos, what string) {
	fmt.Fprintf(os.Stderr, "%s: %s\n", fset.Position(p), what)
	os.Exit(3)
}

// embedded says that a variable has its value from a file.
func embedded(c *ast.CommentGroup) bool {
	if c != nil {
		for _, l := range c.List {
			if strings.HasPrefix(l.Text, "//go:embed ") {
				return true
			}
		}
	}
	return false
}

// standIn gives the package that takes the place of a quoted import path, and its usual name.
func standIn(path, vsync string) (string, string) {
	switch path {
	case `"sync"`:
		return vsync, "sync"
	case `"sync/atomic"`:
		return strings.TrimSuffix(vsync, "vsync") + "vatomic", "atomic"
	}
	return "", ""
}

func instrument(dir string, files []string, zz, vsync, out string, ov map[string]string) int {
	check(os.MkdirAll(out, 0o755))
	fset := token.NewFileSet()
	points := 0
	pkg := ""
	inits := 0
	var resets []string
	resetImports := map[string]string{}
	sort.Strings(files)
	for _, name := range files {
		path := filepath.Join(dir, name)
		src, err := os.ReadFile(path)
		check(err)
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		check(err)
		pkg = f.Name.Name
		base := fset.File(f.Pos())
		off := func(p token.Pos) int { return base.Offset(p) }
		type edit struct {
			at, end int
			text    string
		}
		var edits []edit
		used := false
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "zzsched.Point(); "})
				used = true
				points++
			}
		}
		for _, im := range f.Imports {
			if p, local := standIn(im.Path.Value, vsync); p != "" {
				if im.Name != nil {
					local = im.Name.Name
				}
				edits = append(edits, edit{off(im.Pos()), off(im.End()), fmt.Sprintf("%s %q", local, p)})
			} else if im.Path.Value == `"C"` {
				unsupported(fset, im.Pos(), "cgo")
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				// The clauses of switch statements are no places for statements.
				if len(n.List) > 0 {
					switch n.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.GoStmt:
				unsupported(fset, n.Pos(), "a goroutine")
			case *ast.SelectStmt:
				unsupported(fset, n.Pos(), "select")
			case *ast.SendStmt:
				unsupported(fset, n.Pos(), "a channel")
			case *ast.ChanType:
				unsupported(fset, n.Pos(), "a channel")
			}
			return true
		})
		srcOf := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					n := fmt.Sprintf("zzinit%d", inits)
					inits++
					edits = append(edits, edit{off(d.Name.Pos()), off(d.Name.End()), n})
					resets = append(resets, n+"()")
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					v := s.(*ast.ValueSpec)
					var names []string
					blank := true
					for _, id := range v.Names {
						names = append(names, id.Name)
						blank = blank && id.Name == "_"
					}
					if blank || embedded(v.Doc) || embedded(d.Doc) {
						continue
					}
					// Imports that the initial values need.
					uses := func(n ast.Node) {
						ast.Inspect(n, func(n ast.Node) bool {
							if se, ok := n.(*ast.SelectorExpr); ok {
								if id, ok := se.X.(*ast.Ident); ok {
									for _, im := range f.Imports {
										p := strings.Trim(im.Path.Value, `"`)
										local := p[strings.LastIndex(p, "/")+1:]
										if im.Name != nil {
											local = im.Name.Name
										}
										if local == id.Name {
											if si, _ := standIn(im.Path.Value, vsync); si != "" {
												p = si
											}
											resetImports[local] = p
										}
									}
								}
							}
							return true
						})
					}
					if len(v.Values) > 0 {
						var vals []string
						for _, x := range v.Values {
							uses(x)
							vals = append(vals, srcOf(x))
						}
						resets = append(resets, strings.Join(names, ", ")+" = "+strings.Join(vals, ", "))
					} else {
						uses(v.Type)
						for _, nm := range names {
							if nm != "_" {
								resets = append(resets, nm+" = *new("+srcOf(v.Type)+")")
							}
						}
					}
				}
			}
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
		var b strings.Builder
		at := 0
		if used {
			e := off(f.Name.End())
			edits = append([]edit{{e, e, fmt.Sprintf("; import zzsched %q", zz)}}, edits...)
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
		}
		for _, e := range edits {
			b.Write(src[at:e.at])
			b.WriteString(e.text)
			at = e.end
		}
		b.Write(src[at:])
		dst := filepath.Join(out, name)
		check(os.WriteFile(dst, []byte(b.String()), 0o644))
		ov[path] = dst
	}
	// Variables first, then init functions.
	sort.SliceStable(resets, func(i, j int) bool {
		return !strings.HasPrefix(resets[i], "zzinit") && strings.HasPrefix(resets[j], "zzinit")
	})
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport zzsched %q\n", pkg, zz)
	var ims []string
	for local, p := range resetImports {
		ims = append(ims, fmt.Sprintf("import %s %q\n", local, p))
	}
	sort.Strings(ims)
	b.WriteString(strings.Join(ims, ""))
	fmt.Fprintf(&b, "\nfunc init() {\n")
	for i := 0; i < inits; i++ {
		fmt.Fprintf(&b, "\tzzinit%d()\n", i)
	}
	fmt.Fprintf(&b, "\tzzsched.OnReset(zzreset)\n}\n\nfunc zzreset() {\n\t%s\n}\n", strings.Join(resets, "\n\t"))
	dst := filepath.Join(out, "zzreset.go")
	check(os.WriteFile(dst, []byte(b.String()), 0o644))
	ov[filepath.Join(dir, "zzverif_reset.go")] = dst
	return points
}
