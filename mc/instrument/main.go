// Command instrument rewrites the concurrency of Go packages for the scheduler
// of package vs. It copies the source files of the given packages with
//
//	go f(x)              to  vs.GoN(f)(x)
//	channel operations   to  vs.Send, vs.Recv, vs.Select, ...
//	range over a map     to  range vs.RangeMap(site, m)
//	import "sync"        to  the stand-in package, likewise sync/atomic
//	os.F (with -os)      to  the stand-in package
//
// into an output directory and writes an overlay file for go build that puts
// the copies in place of the originals.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const base = "ecksbee.com/telefacts/verifvs"

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
}

type multi []string

func (m *multi) String() string     { return strings.Join(*m, " ") }
func (m *multi) Set(s string) error { *m = append(*m, s); return nil }

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	tags := flag.String("tags", "", "build tags")
	withOS := flag.Bool("os", false, "replace file operations")
	var dirs, libs multi
	flag.Var(&dirs, "dir", "virtual=real directory to overlay")
	flag.Var(&libs, "lib", "import path of a library to rewrite")
	flag.Parse()
	overlay := map[string]string{}
	for _, d := range dirs {
		virtual, real, _ := strings.Cut(d, "=")
		names, err := filepath.Glob(filepath.Join(real, "*.go"))
		check(err)
		for _, n := range names {
			overlay[filepath.Join(*repo, virtual, filepath.Base(n))] = n
		}
	}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard,Module"}
	if *tags != "" {
		args = append(args, "-tags", *tags)
	}
	args = append(args, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	check(err)
	var pkgs []*pkgInfo
	exports := map[string]string{}
	for d := json.NewDecoder(bytes.NewReader(data)); ; {
		var p pkgInfo
		if err := d.Decode(&p); err == io.EOF {
			break
		} else {
			check(err)
		}
		exports[p.ImportPath] = p.Export
		pkgs = append(pkgs, &p)
	}
	check(os.MkdirAll(*out, 0o755))
	for _, p := range pkgs {
		wanted := p.Module != nil && p.Module.Path == "ecksbee.com/telefacts" && !strings.HasPrefix(p.ImportPath, base)
		for _, l := range libs {
			wanted = wanted || p.ImportPath == l
		}
		if !wanted {
			continue
		}
		r := &rewriter{fset: token.NewFileSet(), withOS: *withOS && p.Module.Path == "ecksbee.com/telefacts"}
		r.pkg(p, exports)
		for i, f := range r.files {
			name := filepath.Join(p.Dir, p.GoFiles[i])
			dst := filepath.Join(*out, strings.NewReplacer("/", "_", "@", "_").Replace(p.ImportPath)+"_"+p.GoFiles[i])
			check(os.WriteFile(dst, r.rewrite(f, name), 0o644))
			overlay[name] = dst
		}
	}
	b, err := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}

type edit struct {
	from, to int
	text     string
	seq      int
}

type rewriter struct {
	fset   *token.FileSet
	info   *types.Info
	files  []*ast.File
	withOS bool
	src    []byte
	edits  []edit
	file   *token.File
	name   string
	used   map[string]bool
}

func (r *rewriter) pkg(p *pkgInfo, exports map[string]string) {
	for _, n := range p.GoFiles {
		f, err := parser.ParseFile(r.fset, filepath.Join(p.Dir, n), nil, parser.ParseComments|parser.SkipObjectResolution)
		check(err)
		r.files = append(r.files, f)
	}
	r.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(r.fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})}
	_, err := conf.Check(p.ImportPath, r.fset, r.files, r.info)
	check(err)
}

func (r *rewriter) off(p token.Pos) int { return r.file.Offset(p) }

func (r *rewriter) replace(from, to token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(from), r.off(to), text, len(r.edits)})
}

func (r *rewriter) insert(at token.Pos, text string) { r.replace(at, at, text) }

func (r *rewriter) text(n ast.Node) string {
	return string(r.src[r.off(n.Pos()):r.off(n.End())])
}

func (r *rewriter) site(p token.Pos) string {
	pos := r.file.Position(p)
	return strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line))
}

// builtin tells whether the expression names the builtin function.
func (r *rewriter) builtin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

// pkgFunc is the package path and name of a qualified identifier.
func (r *rewriter) qualified(e ast.Expr) (string, string, *ast.SelectorExpr) {
	sel, ok := e.(*ast.SelectorExpr)
	if !ok {
		return "", "", nil
	}
	id, ok := sel.X.(*ast.Ident)
	if !ok {
		return "", "", nil
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return "", "", nil
	}
	return pn.Imported().Path(), sel.Sel.Name, sel
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		iface, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		for i := 0; i < iface.NumEmbeddeds(); i++ {
			switch e := iface.EmbeddedType(i).(type) {
			case *types.Union:
				if e.Len() > 0 {
					return e.Term(0).Type().Underlying()
				}
			default:
				return e.Underlying()
			}
		}
		return nil
	}
	return t.Underlying()
}

func (r *rewriter) isChan(e ast.Expr) bool {
	_, ok := core(r.info.Types[e].Type).(*types.Chan)
	return ok
}

var osNames = map[string]bool{
	"Stat": true, "Lstat": true, "Mkdir": true, "MkdirAll": true, "MkdirTemp": true, "OpenFile": true, "Open": true, "Create": true,
	"CreateTemp": true, "ReadFile": true, "WriteFile": true, "Rename": true, "Remove": true, "RemoveAll": true, "Link": true,
	"ReadDir": true, "Chmod": true, "File": true,
}

func (r *rewriter) rewrite(f *ast.File, name string) []byte {
	var err error
	r.src, err = os.ReadFile(name)
	check(err)
	r.edits = nil
	r.file = r.fset.File(f.Pos())
	r.name = name
	r.used = map[string]bool{}
	keep := map[string]string{}
	hasOS := false
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		local := ""
		if im.Name != nil {
			local = im.Name.Name
		}
		switch path {
		case "sync", "sync/atomic":
			to, def := base+"/vsync", "sync"
			if path == "sync/atomic" {
				to, def = base+"/vatomic", "atomic"
			}
			if local == "" {
				local = def
			} else {
				r.replace(im.Name.Pos(), im.Name.End(), "")
			}
			r.replace(im.Path.Pos(), im.Path.End(), local+" "+strconv.Quote(to))
		case "maps":
			if local == "" {
				local = "maps"
			}
			keep[local] = local + ".Keys[map[int]int]"
		case "os":
			if local == "" {
				local = "os"
			}
			hasOS = true
			keep[local] = local + ".Getpid"
		}
	}
	commaOk := map[ast.Expr]bool{}
	inSelect := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				commaOk[ast.Unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				commaOk[ast.Unparen(x.Values[0])] = true
			}
		case *ast.SelectStmt:
			r.selectStmt(x, inSelect)
		case *ast.GoStmt:
			r.goStmt(x)
		case *ast.SendStmt:
			if !inSelect[x] {
				r.insert(x.Chan.Pos(), "vsched.Send(")
				r.replace(x.Arrow, x.Arrow+2, ")(")
				r.insert(x.Value.End(), ")")
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !inSelect[x] {
				fn := "vsched.Recv("
				if commaOk[x] {
					fn = "vsched.Recv2("
				}
				r.replace(x.OpPos, x.OpPos+2, fn)
				r.insert(x.X.End(), ")")
			}
		case *ast.RangeStmt:
			switch core(r.info.Types[x.X].Type).(type) {
			case *types.Map:
				r.insert(x.X.Pos(), "vsched.RangeMap("+r.site(x.For)+", ")
				r.insert(x.X.End(), ")")
			case *types.Chan:
				r.insert(x.X.Pos(), "vsched.RangeChan(")
				r.insert(x.X.End(), ")")
			}
		case *ast.CallExpr:
			switch {
			case r.builtin(x.Fun, "close"):
				r.replace(x.Fun.Pos(), x.Fun.End(), "vsched.Close")
			case r.builtin(x.Fun, "len") && r.isChan(x.Args[0]):
				r.replace(x.Fun.Pos(), x.Fun.End(), "vsched.Len")
			case r.builtin(x.Fun, "make"):
				if _, ok := core(r.info.Types[x].Type).(*types.Chan); ok {
					r.insert(x.Pos(), "vsched.Made(")
					r.insert(x.End(), ")")
				}
			default:
				if path, fn, _ := r.qualified(x.Fun); path == "maps" && (fn == "Keys" || fn == "Values" || fn == "All") {
					to := map[string]string{"Keys": "MapKeys", "Values": "MapValues", "All": "RangeMap"}[fn]
					r.replace(x.Fun.Pos(), x.Fun.End(), "vsched."+to)
					r.insert(x.Lparen+1, r.site(x.Pos())+", ")
				}
			}
		case *ast.SelectorExpr:
			if r.withOS && hasOS {
				if path, fn, sel := r.qualified(x); path == "os" && osNames[fn] {
					r.replace(sel.X.Pos(), sel.X.End(), "vfiles")
					r.used["vfiles"] = true
				}
			}
		}
		return true
	})
	head := "; import vsched " + strconv.Quote(base)
	if r.used["vfiles"] {
		head += "; import vfiles " + strconv.Quote(base+"/vos")
	}
	r.insert(f.Name.End(), head)
	body := r.apply()
	body = append(body, []byte("\nvar _ = vsched.Yield\n")...)
	for _, k := range keep {
		body = append(body, []byte("\nvar _ = "+k+"\n")...)
	}
	return withVersion(body, f)
}

// withVersion lets the file use iterators whatever the module's version.
func withVersion(body []byte, f *ast.File) []byte {
	lines := strings.SplitAfter(string(body), "\n")
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "package ") {
			break
		}
		if strings.HasPrefix(t, "//go:build ") {
			lines[i] = "//go:build (" + strings.TrimPrefix(t, "//go:build ") + ") && go1.23\n"
			return []byte(strings.Join(lines, ""))
		}
	}
	return append([]byte("//go:build go1.23\n\n"), body...)
}

func (r *rewriter) apply() []byte {
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].from != r.edits[j].from {
			return r.edits[i].from < r.edits[j].from
		}
		// closing insertions of inner expressions come first; replacements last
		a, b := r.edits[i], r.edits[j]
		if (a.to == a.from) != (b.to == b.from) {
			return a.to == a.from
		}
		ac, bc := a.text == ")", b.text == ")"
		if ac != bc {
			return ac
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	at := 0
	for _, e := range r.edits {
		if e.from < at {
			check(fmt.Errorf("%s: overlapping rewrites at offset %d", r.name, e.from))
		}
		out.Write(r.src[at:e.from])
		out.WriteString(e.text)
		at = e.to
	}
	out.Write(r.src[at:])
	return out.Bytes()
}

func (r *rewriter) goStmt(x *ast.GoStmt) {
	call := x.Call
	sig, ok := core(r.info.Types[call.Fun].Type).(*types.Signature)
	conversion := r.info.Types[call.Fun].IsType() || r.info.Types[call.Fun].IsBuiltin()
	spread := false
	if ok && len(call.Args) == 1 && sig.Params().Len() > 1 {
		spread = true // f(g()) with several results
	}
	if !ok || conversion || sig.Variadic() || spread || sig.Params().Len() > 6 || sig.Results().Len() > 3 {
		r.replace(x.Go, x.Go+2, "vsched.Go(func() {")
		r.insert(call.End(), "})")
		return
	}
	r.replace(x.Go, x.Go+2, fmt.Sprintf("vsched.Go%dR%d(", sig.Params().Len(), sig.Results().Len()))
	r.insert(call.Fun.End(), ")")
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, skip map[ast.Node]bool) {
	fallback := false
	cases := ""
	name := fmt.Sprintf("vsel%d", r.off(x.Select))
	n := 0
	for _, s := range x.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			fallback = true
			r.replace(c.Case, c.Colon, "case -1")
			continue
		}
		var recv *ast.UnaryExpr
		assign := ""
		two := ""
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			skip[m] = true
			cases += ", vsched.CaseSend(" + r.text(m.Chan) + ")(" + r.text(m.Value) + ")"
		case *ast.ExprStmt:
			recv = ast.Unparen(m.X).(*ast.UnaryExpr)
		case *ast.AssignStmt:
			recv = ast.Unparen(m.Rhs[0]).(*ast.UnaryExpr)
			var lhs []string
			for _, l := range m.Lhs {
				lhs = append(lhs, r.text(l))
			}
			if len(lhs) == 2 {
				two = "2"
			}
			assign = strings.Join(lhs, ", ") + " " + m.Tok.String() + " "
		}
		body := ""
		if recv != nil {
			skip[recv] = true
			cases += ", vsched.CaseRecv(" + r.text(recv.X) + ")"
			if assign != "" {
				body = " " + assign + "vsched.Got" + two + "(" + name + ", " + r.text(recv.X) + ");"
			}
		}
		r.replace(c.Case, c.Colon+1, fmt.Sprintf("case %d:%s", n, body))
		n++
	}
	r.replace(x.Select, x.Body.Lbrace+1, fmt.Sprintf("switch %s := vsched.Select(%v%s); %s.Index {", name, fallback, cases, name))
}
