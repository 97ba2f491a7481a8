// Command instr weaves simulation points into a copy of the repository's
// current source and writes a go build overlay that substitutes the copies.
// The repository itself is not touched.
//
//	instr -repo /repo -module github.com/qri-io/dataset -out DIR -level full|nomap|points
//
// DIR receives the rewritten files, overlay.json and points.json.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listed struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path string }
}

type edit struct {
	off  int
	end  int // replace [off,end)
	text string
	seq  int
}

func main() {
	repo := flag.String("repo", "/repo", "")
	module := flag.String("module", "github.com/qri-io/dataset", "")
	out := flag.String("out", "", "")
	level := flag.String("level", "full", "full, nomap or points")
	modfile := flag.String("modfile", "", "")
	simrtPath := flag.String("simrt", "verif/sim/simrt", "")
	flag.Parse()

	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,Standard,Module"}
	if *modfile != "" {
		args = append(args, "-modfile", *modfile)
	}
	args = append(args, *module+"/...")
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []listed
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p listed
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("decoding go list: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == *module {
			pkgs = append(pkgs, p)
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })

	overlay := map[string]string{}
	points := []string{}
	rewrites := 0
	for _, p := range pkgs {
		if p.Name == "main" || strings.HasSuffix(p.ImportPath, "/dstest") {
			continue
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		for _, name := range p.GoFiles {
			path := filepath.Join(p.Dir, name)
			src, err := os.ReadFile(path)
			if err != nil {
				fatal("%v", err)
			}
			f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				fatal("%v", err)
			}
			files = append(files, f)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{
			Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
				e := exports[path]
				if e == "" {
					return nil, fmt.Errorf("no export data for %s", path)
				}
				return os.Open(e)
			}),
			Error: func(error) {},
		}
		_, terr := conf.Check(p.ImportPath, fset, files, info)
		if terr != nil {
			fmt.Fprintf(os.Stderr, "instr: type check of %s: %v\n", p.ImportPath, terr)
		}
		for i, f := range files {
			w := &weaver{fset: fset, file: f, src: srcs[i], info: info, points: &points,
				rel: strings.TrimPrefix(fset.File(f.Pos()).Name(), *repo+"/"), level: *level}
			res := w.run(*simrtPath)
			rewrites += w.rewrites
			dst := filepath.Join(*out, strings.ReplaceAll(w.rel, "/", "__"))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				fatal("%v", err)
			}
			overlay[fset.File(f.Pos()).Name()] = dst
		}
	}
	if len(overlay) == 0 {
		fatal("nothing to instrument")
	}
	writeJSON(filepath.Join(*out, "overlay.json"), map[string]any{"Replace": overlay})
	writeJSON(filepath.Join(*out, "points.json"), points)
	fmt.Printf("instr: %d files, %d points, %d map loops\n", len(overlay), len(points), rewrites)
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

type weaver struct {
	fset     *token.FileSet
	file     *ast.File
	src      []byte
	info     *types.Info
	points   *[]string
	rel      string
	level    string
	edits    []edit
	rewrites int
	used     bool
	upgraded bool
	fn       string
}

func (w *weaver) off(p token.Pos) int { return w.fset.Position(p).Offset }

func (w *weaver) insert(p token.Pos, text string) {
	o := w.off(p)
	w.edits = append(w.edits, edit{o, o, text, len(w.edits)})
}

func (w *weaver) replace(from, to token.Pos, text string) {
	w.edits = append(w.edits, edit{w.off(from), w.off(to), text, len(w.edits)})
}

func (w *weaver) point(p token.Pos) string {
	id := len(*w.points)
	*w.points = append(*w.points, fmt.Sprintf("%s:%d:%s", w.rel, w.fset.Position(p).Line, w.fn))
	w.used = true
	return fmt.Sprintf("simrt.P(%d); ", id)
}

func (w *weaver) stmts(list []ast.Stmt) {
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		w.insert(s.Pos(), w.point(s.Pos()))
	}
}

func (w *weaver) run(simrtPath string) []byte {
	canUpgrade := w.level == "full" && !bytes.Contains(w.src[:w.off(w.file.Package)], []byte("//go:build")) &&
		!bytes.Contains(w.src[:w.off(w.file.Package)], []byte("// +build"))
	syncName := ""
	for _, imp := range w.file.Imports {
		if imp.Path.Value == `"sync"` {
			syncName = "sync"
			if imp.Name != nil {
				syncName = imp.Name.Name
			}
		}
	}
	syncReplaced := false
	for _, d := range w.file.Decls {
		w.fn = ""
		if fd, ok := d.(*ast.FuncDecl); ok {
			w.fn = fd.Name.Name
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				if x != nil && !skipped[x] {
					w.stmts(x.List)
				}
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				// the body of these is a list of clauses, not statements
				var body *ast.BlockStmt
				switch y := x.(type) {
				case *ast.SwitchStmt:
					body = y.Body
				case *ast.TypeSwitchStmt:
					body = y.Body
				case *ast.SelectStmt:
					body = y.Body
				}
				w.skip(body)
			case *ast.CaseClause:
				w.stmts(x.Body)
			case *ast.CommClause:
				w.stmts(x.Body)
			case *ast.ForStmt:
				if len(x.Body.List) == 0 {
					w.insert(x.Body.Lbrace+1, w.point(x.Pos()))
				}
			case *ast.RangeStmt:
				if len(x.Body.List) == 0 {
					w.insert(x.Body.Lbrace+1, w.point(x.Pos()))
				}
				if canUpgrade {
					w.mapRange(x)
				}
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && syncName != "" && id.Name == syncName {
					if _, isPkg := w.info.Uses[id].(*types.PkgName); isPkg {
						switch x.Sel.Name {
						case "Mutex", "RWMutex", "Once":
							w.replace(id.Pos(), id.End(), "simrt")
							syncReplaced = true
							w.used = true
						}
					}
				}
			}
			return true
		})
	}
	if w.used {
		w.insert(w.file.Name.End(), fmt.Sprintf("; import simrt %q", simrtPath))
	}
	if syncReplaced {
		w.edits = append(w.edits, edit{len(w.src), len(w.src), "\nvar _ " + syncName + ".Locker\n", len(w.edits)})
	}
	if w.upgraded {
		w.edits = append(w.edits, edit{0, 0, "//go:build go1.21\n\n", -1})
	}
	sort.SliceStable(w.edits, func(i, j int) bool {
		if w.edits[i].off != w.edits[j].off {
			return w.edits[i].off < w.edits[j].off
		}
		return w.edits[i].seq < w.edits[j].seq
	})
	var out bytes.Buffer
	last := 0
	for _, e := range w.edits {
		if e.off < last {
			continue // overlapping edit: keep the earlier one
		}
		out.Write(w.src[last:e.off])
		out.WriteString(e.text)
		last = e.end
	}
	out.Write(w.src[last:])
	return out.Bytes()
}

var skipped = map[*ast.BlockStmt]bool{}

func (w *weaver) skip(b *ast.BlockStmt) { skipped[b] = true }

func (w *weaver) mapRange(x *ast.RangeStmt) {
	tv, ok := w.info.Types[x.X]
	if !ok || tv.Type == nil {
		return
	}
	if _, isMap := tv.Type.Underlying().(*types.Map); !isMap {
		return
	}
	name := func(e ast.Expr) (string, bool) {
		if e == nil {
			return "", true
		}
		id, ok := e.(*ast.Ident)
		if !ok {
			return "", false
		}
		if id.Name == "_" {
			return "", true
		}
		return id.Name, true
	}
	k, ok1 := name(x.Key)
	v, ok2 := name(x.Value)
	if !ok1 || !ok2 {
		return
	}
	m := string(w.src[w.off(x.X.Pos()):w.off(x.X.End())])
	if strings.Contains(m, "\n") || strings.Contains(m, "func") {
		return
	}
	def := x.Tok == token.DEFINE
	var head string
	switch {
	case k != "" && v != "":
		if def {
			head = fmt.Sprintf("for simIt, %s, %s := simrt.RangeKV(%s); simIt.Next(&%s, &%s); ", k, v, m, k, v)
		} else {
			head = fmt.Sprintf("for simIt := simrt.Range(%s); simIt.Next(&%s, &%s); ", m, k, v)
		}
	case k != "":
		if def {
			head = fmt.Sprintf("for simIt, %s := simrt.RangeK(%s); simIt.NextK(&%s); ", k, m, k)
		} else {
			head = fmt.Sprintf("for simIt := simrt.Range(%s); simIt.NextK(&%s); ", m, k)
		}
	case v != "":
		if def {
			head = fmt.Sprintf("for simIt, %s := simrt.RangeV(%s); simIt.NextV(&%s); ", v, m, v)
		} else {
			head = fmt.Sprintf("for simIt := simrt.Range(%s); simIt.NextV(&%s); ", m, v)
		}
	default:
		head = fmt.Sprintf("for simIt := simrt.Range(%s); simIt.Next0(); ", m)
	}
	w.replace(x.For, x.Body.Lbrace, head)
	w.used = true
	w.upgraded = true
	w.rewrites++
}
