// instr copies the non-test Go files of a repository into a scratch module,
// rewriting every synchronisation construct so that it goes through the
// controlled scheduler and every import with effects outside the process so
// that it goes through a stand-in. It looks at types, not at how the code is
// written, so that it applies unchanged to any refactoring of the repository.
//
// usage: instr -repo DIR -out DIR -verif DIR [-race] [-harness a,b]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/browles/drip"
const rt = mod + "/zzv/rt/"

var shims = map[string]string{
	"sync":                       "vsync",
	"sync/atomic":                "vatomic",
	"time":                       "vtime",
	"context":                    "vcontext",
	"os":                         "vos",
	"path/filepath":              "vfilepath",
	"net":                        "vnet",
	"net/http":                   "vhttp",
	"math/rand":                  "vrand",
	"math/rand/v2":               "vrand2",
	"maps":                       "vmaps",
	"io/ioutil":                  "vioutil",
	"golang.org/x/sync/errgroup": "verrgroup",
}

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	Standard   bool
	GoFiles    []string
	Module     *struct {
		Path, Version, Dir string
		Main               bool
	}
	ImportMap map[string]string
	Imports   []string
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	verif := flag.String("verif", "/verif", "")
	race := flag.Bool("race", false, "")
	flag.Parse()
	*out, _ = filepath.Abs(*out)

	// every module of the repository joins one workspace, outside of it
	ws := filepath.Join(*out, "ws")
	must(os.MkdirAll(ws, 0o755))
	work := "go 1.23\n"
	var mods []string
	filepath.WalkDir(*repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && (d.Name() == ".git" || d.Name() == "testdata" || d.Name() == "vendor") {
			return filepath.SkipDir
		}
		if !d.IsDir() && d.Name() == "go.mod" {
			mods = append(mods, filepath.Dir(p))
		}
		return nil
	})
	for _, m := range mods {
		work += "use " + m + "\n"
	}
	must(os.WriteFile(filepath.Join(ws, "go.work"), []byte(work), 0o644))
	// the sums the workspace needs are those of the modules
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,Standard,GoFiles,Module,ImportMap,Imports,Error"}
	for _, m := range mods {
		args = append(args, m+"/...")
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Env = append(os.Environ(), "GOWORK="+filepath.Join(ws, "go.work"), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=readonly")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	o, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, stderr.String())
	}
	pkgs := map[string]*pkgInfo{}
	var mine []*pkgInfo
	depMods := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		pkgs[p.ImportPath] = p
		if p.Module != nil && p.Module.Main {
			mine = append(mine, p)
		} else if p.Module != nil {
			depMods[p.Module.Path] = p.Module.Dir
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	for _, p := range mine {
		if len(p.GoFiles) == 0 || !strings.HasPrefix(p.ImportPath+"/", mod+"/") {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, mod), "/")
		instrument(fset, imp, p, filepath.Join(*out, rel))
	}

	// stand-ins and harnesses
	for _, sub := range []string{"rt", "h"} {
		src := filepath.Join(*verif, sub)
		filepath.WalkDir(src, func(p string, d os.DirEntry, err error) error {
			if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(*verif, p)
			b, err := os.ReadFile(p)
			must(err)
			if *race {
				b = noRace(p, b)
			}
			dst := filepath.Join(*out, "zzv", rel)
			must(os.MkdirAll(filepath.Dir(dst), 0o755))
			must(os.WriteFile(dst, b, 0o644))
			return nil
		})
	}
	must(os.WriteFile(filepath.Join(*out, "zzv/rt/vs/x.s"), nil, 0o644))
	gm := "module " + mod + "\n\ngo 1.23\n\ngodebug default=go1.22\n"
	var ms []string
	for m := range depMods {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		gm += fmt.Sprintf("require %s v0.0.0\nreplace %s => %s\n", m, m, depMods[m])
	}
	must(os.WriteFile(filepath.Join(*out, "go.mod"), []byte(gm), 0o644))
	os.RemoveAll(ws)
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

// noRace marks every function as invisible to the race detector.
func noRace(name string, src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		fatal("%v", err)
	}
	var at []int
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			at = append(at, fset.Position(fd.Pos()).Offset)
		}
	}
	var b bytes.Buffer
	last := 0
	for _, o := range at {
		b.Write(src[last:o])
		b.WriteString("//go:norace\n")
		last = o
	}
	b.Write(src[last:])
	return b.Bytes()
}

// edit replaces [lo,hi) by what gen returns; gen renders parts of the range.
type edit struct {
	lo, hi int
	gen    func(r func(lo, hi int) string) string
}

type rewriter struct {
	src   []byte
	fset  *token.FileSet
	info  *types.Info
	edits []edit
	seq   int
	used  bool
	skip  map[ast.Node]bool
}

func (w *rewriter) off(p token.Pos) int { return w.fset.Position(p).Offset }

func (w *rewriter) add(lo, hi token.Pos, gen func(r func(lo, hi token.Pos) string) string) {
	a, b := w.off(lo), w.off(hi)
	w.edits = append(w.edits, edit{a, b, func(r func(lo, hi int) string) string {
		return gen(func(x, y token.Pos) string { return r(w.off(x), w.off(y)) })
	}})
	w.used = true
}

func (w *rewriter) render(lo, hi int, outer *edit) string {
	var sb strings.Builder
	p := lo
	for i := range w.edits {
		e := &w.edits[i]
		if e == outer || e.lo < p || e.hi > hi || e.lo < lo {
			continue
		}
		if outer != nil && e.lo <= outer.lo && e.hi >= outer.hi {
			continue
		}
		sb.Write(w.src[p:e.lo])
		sb.WriteString(e.gen(func(x, y int) string { return w.render(x, y, e) }))
		p = e.hi
	}
	sb.Write(w.src[p:hi])
	return sb.String()
}

func instrument(fset *token.FileSet, imp types.Importer, p *pkgInfo, dst string) {
	var files []*ast.File
	var srcs [][]byte
	for _, g := range p.GoFiles {
		fn := filepath.Join(p.Dir, g)
		b, err := os.ReadFile(fn)
		must(err)
		f, err := parser.ParseFile(fset, fn, b, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, f)
		srcs = append(srcs, b)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	var terrs []error
	conf := types.Config{Importer: imp, Error: func(err error) { terrs = append(terrs, err) }}
	conf.Check(p.ImportPath, fset, files, info)
	if len(terrs) > 0 {
		fatal("type errors in %s: %v", p.ImportPath, terrs[0])
	}
	must(os.MkdirAll(dst, 0o755))
	for i, f := range files {
		w := &rewriter{src: srcs[i], fset: fset, info: info, skip: map[ast.Node]bool{}}
		w.file(f)
		sort.SliceStable(w.edits, func(a, b int) bool {
			if w.edits[a].lo != w.edits[b].lo {
				return w.edits[a].lo < w.edits[b].lo
			}
			return w.edits[a].hi > w.edits[b].hi
		})
		text := w.render(0, len(w.src), nil)
		must(os.WriteFile(filepath.Join(dst, p.GoFiles[i]), []byte(text), 0o644))
	}
}

func (w *rewriter) id(p string) string { w.seq++; return fmt.Sprintf("_z%s%d", p, w.seq) }

func (w *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = w.info.Uses[id].(*types.Builtin)
	return ok
}

func (w *rewriter) under(e ast.Expr) types.Type {
	t := w.info.Types[e].Type
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if i, ok := u.(*types.Interface); ok && i.NumEmbeddeds() > 0 {
		// type parameter with a core type
		if tp, ok := t.(*types.TypeParam); ok {
			_ = tp
			for j := 0; j < i.NumEmbeddeds(); j++ {
				if un, ok := i.EmbeddedType(j).(*types.Union); ok && un.Len() == 1 {
					return un.Term(0).Type().Underlying()
				}
			}
		}
	}
	return u
}

func (w *rewriter) file(f *ast.File) {
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		sh, ok := shims[path]
		if !ok {
			continue
		}
		name := ""
		if s.Name == nil {
			if pn, ok := w.info.Implicits[s].(*types.PkgName); ok {
				name = pn.Imported().Name() + " "
			}
		}
		w.add(s.Path.Pos(), s.Path.End(), func(r func(lo, hi token.Pos) string) string {
			return name + strconv.Quote(rt+sh)
		})
		w.used = false
	}
	ast.Inspect(f, w.visit)
	if w.used {
		w.add(f.Name.End(), f.Name.End(), func(r func(lo, hi token.Pos) string) string {
			return "; import zzvs " + strconv.Quote(rt+"vs")
		})
	}
}

func (w *rewriter) visit(n ast.Node) bool {
	if n == nil || w.skip[n] {
		return true
	}
	switch n := n.(type) {
	case *ast.GoStmt:
		w.goStmt(n)
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			w.add(n.Pos(), n.End(), func(r func(lo, hi token.Pos) string) string {
				return "zzvs.Recv(" + r(n.X.Pos(), n.X.End()) + ")"
			})
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			w.recv2(n.Rhs[0])
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			w.recv2(n.Values[0])
		}
	case *ast.SendStmt:
		w.add(n.Pos(), n.End(), func(r func(lo, hi token.Pos) string) string {
			return "zzvs.SendTo(" + r(n.Chan.Pos(), n.Chan.End()) + ").Send(" + r(n.Value.Pos(), n.Value.End()) + ")"
		})
	case *ast.CallExpr:
		if w.isBuiltin(n.Fun, "close") {
			w.add(n.Fun.Pos(), n.Fun.End(), func(r func(lo, hi token.Pos) string) string { return "zzvs.Close" })
		}
		if se, ok := n.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "MapKeys" && len(n.Args) == 0 {
			if t := w.info.Types[se.X].Type; t != nil && t.String() == "reflect.Value" {
				w.add(n.Pos(), n.End(), func(r func(lo, hi token.Pos) string) string {
					return "zzvs.OrderValues(" + r(n.Fun.Pos(), n.Fun.End()) + "())"
				})
			}
		}
		if se, ok := n.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Gosched" {
			if o, ok := w.info.Uses[se.Sel].(*types.Func); ok && o.FullName() == "runtime.Gosched" {
				w.add(n.Pos(), n.End(), func(r func(lo, hi token.Pos) string) string {
					return "func() { runtime.Gosched(); zzvs.Point(\"gosched\") }()"
				})
			}
		}
	case *ast.RangeStmt:
		switch w.under(n.X).(type) {
		case *types.Chan:
			w.add(n.X.Pos(), n.X.End(), func(r func(lo, hi token.Pos) string) string {
				return "zzvs.Chan(" + r(n.X.Pos(), n.X.End()) + ")"
			})
		case *types.Map:
			w.add(n.X.Pos(), n.X.End(), func(r func(lo, hi token.Pos) string) string {
				return "zzvs.Map(" + r(n.X.Pos(), n.X.End()) + ")"
			})
		}
	case *ast.SelectStmt:
		w.selectStmt(n)
	}
	return true
}

func (w *rewriter) recv2(e ast.Expr) {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW {
		return
	}
	w.skip[u] = true
	w.add(e.Pos(), e.End(), func(r func(lo, hi token.Pos) string) string {
		return "zzvs.Recv2(" + r(u.X.Pos(), u.X.End()) + ")"
	})
}

func (w *rewriter) goStmt(n *ast.GoStmt) {
	c := n.Call
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		w.add(n.Pos(), n.End(), func(r func(lo, hi token.Pos) string) string {
			return "zzvs.Go(" + r(fl.Pos(), fl.End()) + ")"
		})
		return
	}
	if w.isBuiltin(c.Fun, "close") || w.isBuiltin(c.Fun, "panic") || w.isBuiltin(c.Fun, "print") || w.isBuiltin(c.Fun, "println") || w.isBuiltin(c.Fun, "delete") {
		w.add(n.Pos(), n.End(), func(r func(lo, hi token.Pos) string) string {
			return "zzvs.Go(func() { " + r(c.Pos(), c.End()) + " })"
		})
		return
	}
	// evaluate the function and its arguments now
	id := w.id("g")
	w.add(n.Pos(), n.End(), func(r func(lo, hi token.Pos) string) string {
		var lhs, rhs, args []string
		if _, ok := ast.Unparen(c.Fun).(*ast.FuncLit); !ok {
			lhs = append(lhs, id+"f")
			rhs = append(rhs, r(c.Fun.Pos(), c.Fun.End()))
		}
		for i, a := range c.Args {
			t := r(a.Pos(), a.End())
			tv := w.info.Types[a]
			if tv.Value != nil || tv.IsNil() {
				args = append(args, t)
				continue
			}
			v := fmt.Sprintf("%sa%d", id, i)
			lhs = append(lhs, v)
			rhs = append(rhs, t)
			args = append(args, v)
		}
		fn := id + "f"
		if len(lhs) == 0 || lhs[0] != fn {
			fn = "(" + r(c.Fun.Pos(), c.Fun.End()) + ")"
		}
		call := fn + "(" + strings.Join(args, ", ")
		if c.Ellipsis.IsValid() {
			call += "..."
		}
		call += ")"
		s := "{ "
		if len(lhs) > 0 {
			s += strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; "
		}
		return s + "zzvs.Go(func() { " + call + " }) }"
	})
}

func (w *rewriter) selectStmt(n *ast.SelectStmt) {
	type cs struct {
		cc       *ast.CommClause
		id       string
		recv     *ast.UnaryExpr
		send     *ast.SendStmt
		lhs      []ast.Expr
		tok      token.Token
	}
	var cases []*cs
	hasDefault := false
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		c := &cs{cc: cc}
		switch comm := cc.Comm.(type) {
		case nil:
			hasDefault = true
			cases = append(cases, c)
			continue
		case *ast.SendStmt:
			c.send = comm
			w.skip[comm] = true
		case *ast.ExprStmt:
			c.recv = ast.Unparen(comm.X).(*ast.UnaryExpr)
		case *ast.AssignStmt:
			c.recv = ast.Unparen(comm.Rhs[0]).(*ast.UnaryExpr)
			c.lhs = comm.Lhs
			c.tok = comm.Tok
			w.skip[comm] = true
		}
		if c.recv != nil {
			w.skip[c.recv] = true
		}
		c.id = w.id("s")
		cases = append(cases, c)
	}
	w.add(n.Pos(), n.End(), func(r func(lo, hi token.Pos) string) string {
		var lhs, rhs []string
		for _, c := range cases {
			if c.send != nil {
				lhs = append(lhs, c.id)
				rhs = append(rhs, "zzvs.SendTo("+r(c.send.Chan.Pos(), c.send.Chan.End())+").With("+r(c.send.Value.Pos(), c.send.Value.End())+")")
			} else if c.recv != nil {
				lhs = append(lhs, c.id)
				rhs = append(rhs, "zzvs.NewRecv("+r(c.recv.X.Pos(), c.recv.X.End())+")")
			}
		}
		var sb strings.Builder
		sb.WriteString("switch ")
		if len(lhs) > 0 {
			sb.WriteString(strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; ")
		}
		sb.WriteString("zzvs.Select(" + strconv.FormatBool(hasDefault))
		for _, l := range lhs {
			sb.WriteString(", " + l)
		}
		sb.WriteString(") {\n")
		k := 0
		for _, c := range cases {
			if c.send == nil && c.recv == nil {
				sb.WriteString("default: ")
			} else {
				fmt.Fprintf(&sb, "case %d: ", k)
				k++
				if len(c.lhs) > 0 {
					var l []string
					for _, x := range c.lhs {
						l = append(l, r(x.Pos(), x.End()))
					}
					v := c.id + ".Val"
					if len(l) == 2 {
						v += ", " + c.id + ".OK"
					}
					sb.WriteString(strings.Join(l, ", ") + " " + c.tok.String() + " " + v + "; ")
				}
			}
			end := n.Body.Rbrace
			for j, s := range n.Body.List {
				if s == ast.Stmt(c.cc) && j+1 < len(n.Body.List) {
					end = n.Body.List[j+1].Pos()
				}
			}
			sb.WriteString(r(c.cc.Colon+1, end))
			sb.WriteString("\n")
		}
		if !hasDefault {
			sb.WriteString("default: panic(\"select\")\n")
		}
		sb.WriteString("}")
		return sb.String()
	})
}
