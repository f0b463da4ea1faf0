// Command rewrite produces an instrumented copy of packages: goroutines,
// channels, locks, timers and map iteration are redirected to the controlled
// scheduler packages in ../vsched, ../vsync, ../vtime, ../vctx and ../vrand.
// It works on the current source of the packages and writes an overlay file.
//
// usage: rewrite -dir REPO -out DIR -overlay FILE [-extra FROM=TO]... pkg...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

const base = "github.com/Vivino/rankdb/zz_verif/"

type multi []string

func (m *multi) String() string     { return strings.Join(*m, ",") }
func (m *multi) Set(s string) error { *m = append(*m, s); return nil }

type pkgInfo struct {
	Dir        string
	ImportPath string
	Export     string
	GoFiles    []string
	ImportMap  map[string]string
	DepOnly    bool
	Error      *struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	dir := flag.String("dir", "/repo", "module directory")
	out := flag.String("out", "", "output directory")
	overlay := flag.String("overlay", "", "overlay file to write")
	stmt := flag.Bool("stmt", true, "insert statement level points")
	var extra, vendored multi
	flag.Var(&vendored, "vendor", "package of another module to instrument as well: PATH=NAME")
	flag.Var(&extra, "extra", "additional overlay directory: REAL=VIRTUAL")
	flag.Parse()
	pkgArgs := append([]string{}, flag.Args()...)
	if *out == "" || *overlay == "" {
		die("missing flags")
	}
	for _, v := range vendored {
		path, name, _ := strings.Cut(v, "=")
		vendor[path] = name
		pkgArgs = append(pkgArgs, path)
	}
	args := append([]string{"list", "-e", "-export", "-deps", "-json=Dir,ImportPath,Export,GoFiles,ImportMap,DepOnly,Error"}, pkgArgs...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *dir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	exports := map[string]string{}
	var pkgs []*pkgInfo
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("decode: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly {
			if p.Error != nil {
				die("%s: %s", p.ImportPath, p.Error.Err)
			}
			pkgs = append(pkgs, &p)
		}
	}
	rep := map[string]string{}
	for _, p := range pkgs {
		fset := token.NewFileSet()
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[path]; ok {
				path = m
			}
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %q", path)
			}
			return os.Open(e)
		}), Error: func(err error) { fmt.Fprintln(os.Stderr, "rewrite: type error:", err) }}
		_, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type checking %s: %v", p.ImportPath, err)
		}
		odir := filepath.Join(*out, strings.ReplaceAll(p.ImportPath, "/", "_"))
		if err := os.MkdirAll(odir, 0o755); err != nil {
			die("%v", err)
		}
		for i, af := range files {
			r := &rewriter{info: info, fset: fset, stmt: *stmt}
			src := r.file(af)
			of := filepath.Join(odir, p.GoFiles[i])
			if err := os.WriteFile(of, src, 0o644); err != nil {
				die("%v", err)
			}
			to := p.Dir
			if n := vendor[p.ImportPath]; n != "" {
				to = filepath.Join(*dir, "zz_verif", n)
			}
			rep[filepath.Join(to, p.GoFiles[i])] = of
		}
	}
	for _, e := range extra {
		from, to, ok := strings.Cut(e, "=")
		if !ok {
			die("bad -extra")
		}
		ents, err := os.ReadDir(from)
		if err != nil {
			die("%v", err)
		}
		for _, en := range ents {
			if strings.HasSuffix(en.Name(), ".go") {
				rep[filepath.Join(to, en.Name())] = filepath.Join(from, en.Name())
			}
		}
	}
	ob, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	if err := os.WriteFile(*overlay, ob, 0o644); err != nil {
		die("%v", err)
	}
}

type rewriter struct {
	info    *types.Info
	fset    *token.FileSet
	stmt    bool
	used    map[string]bool
	keep    map[string]string // import path -> keep declaration
	n       int
	kind    map[ast.Node]string
	skip    map[ast.Node]bool
	label   map[*ast.SelectStmt]*ast.Ident
	wrapped map[*ast.BlockStmt]bool
}

// vendor are instrumented packages of other modules.
var vendor = map[string]string{}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *rewriter) sel(pkg, name string) ast.Expr {
	r.used[pkg] = true
	return &ast.SelectorExpr{X: id("zz" + pkg), Sel: id(name)}
}

func (r *rewriter) call(pkg, name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sel(pkg, name), Args: args}
}

func (r *rewriter) tmp(p string) *ast.Ident {
	r.n++
	return id(fmt.Sprintf("zz%s%d", p, r.n))
}

var redirect = map[string]map[string]string{
	"sync": {"Mutex": "vsync", "RWMutex": "vsync", "WaitGroup": "vsync", "Once": "vsync", "Cond": "vsync", "NewCond": "vsync",
		"Pool": "vsync", "Map": "vsync", "OnceFunc": "vsync", "OnceValue": "vsync", "OnceValues": "vsync"},
	"time": {"Now": "vtime", "Since": "vtime", "Until": "vtime", "Sleep": "vtime", "Timer": "vtime", "NewTimer": "vtime",
		"AfterFunc": "vtime", "After": "vtime", "Ticker": "vtime", "NewTicker": "vtime", "Tick": "vtime"},
	"context":     {"WithTimeout": "vctx", "WithDeadline": "vctx"},
	"crypto/rand": {"Read": "vrand", "Reader": "vrand"},
	"net":         {"Listen": "vnet"},
	"io":          {"Pipe": "vpipe", "PipeReader": "vpipe", "PipeWriter": "vpipe"},

	"github.com/Vivino/rankdb/blobstore/memstore":    {"NewMemStore": "vmem"},
	"github.com/Vivino/rankdb/blobstore/badgerstore": {"New": "vmem"},

	"github.com/klauspost/compress/zstd": {"NewWriter": "vzstd", "NewReader": "vzstd", "Encoder": "vzstd", "Decoder": "vzstd"},
}

var keepDecl = map[string]string{
	"sync": "var _ %s.Locker", "time": "var _ %s.Duration", "context": "var _ %s.Context", "crypto/rand": "var _ = %s.Int", "net": "var _ %s.Addr", "io": "var _ %s.Reader",

	"github.com/Vivino/rankdb/blobstore/memstore":    "var _ %s.MemBlobStore",
	"github.com/Vivino/rankdb/blobstore/badgerstore": "var _ %s.BadgerStore",

	"github.com/klauspost/compress/zstd": "var _ = %s.ErrDecoderClosed",
}

func (r *rewriter) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) builtin(e ast.Expr) string {
	if i, ok := unparen(e).(*ast.Ident); ok {
		if b, ok := r.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func recvOf(e ast.Expr) (ast.Expr, bool) {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u.X, true
	}
	return nil, false
}

func (r *rewriter) file(f *ast.File) []byte {
	r.used = map[string]bool{}
	r.keep = map[string]string{}
	r.kind = map[ast.Node]string{}
	r.skip = map[ast.Node]bool{}
	r.label = map[*ast.SelectStmt]*ast.Ident{}
	r.wrapped = map[*ast.BlockStmt]bool{}
	names := map[string]string{} // path -> local name
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		names[p] = n
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if v := vendor[p]; v != "" {
			if im.Name == nil {
				n := names[p]
				if pn, ok := r.info.Implicits[im].(*types.PkgName); ok {
					n = pn.Name()
				}
				im.Name = id(n)
			}
			im.Path.Value = strconv.Quote(base + v)
		}
	}
	f.Comments = nil
	f.Doc = nil
	clearDocs(f)

	// Types of all expressions were recorded on original nodes; children keep identity
	// while parents are replaced, so post-order replacement is safe.
	Apply(f, func(c *Cursor) bool {
		// Pre-order: handle two-value receives and selects where context matters.
		switch n := c.Node().(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 && !r.skip[n] {
				if ch, ok := recvOf(n.Rhs[0]); ok {
					n.Rhs[0] = r.call("vsched", "Recv2", ch)
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if ch, ok := recvOf(n.Values[0]); ok {
					n.Values[0] = r.call("vsched", "Recv2", ch)
				}
			}
		case *ast.RangeStmt:
			t := r.typ(n.X)
			if isChan(t) {
				r.kind[n] = "chan"
			} else if isMap(t) {
				r.kind[n] = "map"
			}
		case *ast.CallExpr:
			if len(n.Args) > 0 && isChan(r.typ(n.Args[0])) {
				r.kind[n] = "chan"
			}
		case *ast.CommClause:
			switch cm := n.Comm.(type) {
			case *ast.SendStmt:
				r.skip[cm] = true
			case *ast.ExprStmt:
				r.skip[unparen(cm.X)] = true
			case *ast.AssignStmt:
				r.skip[cm] = true
				r.skip[unparen(cm.Rhs[0])] = true
			}
		case *ast.LabeledStmt:
			if s, ok := n.Stmt.(*ast.SelectStmt); ok {
				r.label[s] = n.Label
			}
		}
		return true
	}, func(c *Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !r.skip[n] {
				c.Replace(r.call("vsched", "Recv", n.X))
			}
		case *ast.SelectStmt:
			c.Replace(r.selectStmt(n, r.label[n]))
		case *ast.LabeledStmt:
			if b, ok := n.Stmt.(*ast.BlockStmt); ok && r.wrapped[b] {
				c.Replace(b)
			}
		case *ast.SendStmt:
			if r.skip[n] {
				break
			}
			c.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("vsched", "Send", n.Chan), Args: []ast.Expr{n.Value}}})
		case *ast.CallExpr:
			if f, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 1 {
				if o, ok := r.info.Uses[f.Sel].(*types.Func); ok && o.FullName() == "(*net/http.Server).Serve" {
					c.Replace(r.call("vnet", "Serve", f.X, n.Args[0]))
					break
				}
			}
			switch r.builtin(n.Fun) {
			case "close":
				n.Fun = r.sel("vsched", "Close")
			case "len":
				if r.kind[n] == "chan" {
					n.Fun = r.sel("vsched", "Len")
				}
			case "make":
				if r.kind[n] == "chan" {
					c.Replace(r.call("vsched", "Reg", n))
				}
			}
		case *ast.SelectorExpr:
			if o := r.info.Uses[n.Sel]; o != nil && o.Pkg() != nil {
				x, ok := n.X.(*ast.Ident)
				if !ok {
					break
				}
				if _, ok := r.info.Uses[x].(*types.PkgName); !ok {
					break
				}
				path := o.Pkg().Path()
				if to := redirect[path][n.Sel.Name]; to != "" {
					r.keep[path] = x.Name
					c.Replace(r.sel(to, n.Sel.Name))
				}
			}
		case *ast.GoStmt:
			c.Replace(r.goStmt(n))
		case *ast.RangeStmt:
			switch r.kind[n] {
			case "chan":
				c.Replace(r.rangeChan(n))
			case "map":
				c.Replace(r.rangeMap(n))
			}
		case *ast.BlockStmt:
			n.List = r.points(n.List)
		case *ast.CaseClause:
			n.Body = r.points(n.Body)
		}
		return true
	})
	// Imports and keep declarations.
	var decls []ast.Decl
	for i, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, f.Decls[i:]...)
			break
		}
		decls = append(decls, d)
	}
	var buf bytes.Buffer
	buf.WriteString("//go:build go1.21\n\n")
	f.Decls = decls
	var body bytes.Buffer
	if err := format.Node(&body, r.fset, f); err != nil {
		die("format: %v", err)
	}
	src := body.String()
	// Insert imports right after the package clause.
	var imp strings.Builder
	for _, k := range []string{"vsched", "vsync", "vtime", "vctx", "vrand", "vzstd", "vnet", "vpipe", "vmem"} {
		if r.used[k] {
			fmt.Fprintf(&imp, "import zz%s %q\n", k, base+k)
		}
	}
	nl := strings.Index(src, "\n")
	src = src[:nl+1] + imp.String() + src[nl+1:]
	for path, name := range r.keep {
		src += fmt.Sprintf("\n"+keepDecl[path]+"\n", name)
	}
	buf.WriteString(src)
	res, err := format.Source(buf.Bytes())
	if err != nil {
		die("format result: %v\n%s", err, buf.String())
	}
	return res
}

func clearDocs(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

func (r *rewriter) points(l []ast.Stmt) []ast.Stmt {
	if !r.stmt || len(l) == 0 {
		return l
	}
	out := make([]ast.Stmt, 0, 2*len(l))
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.DeclStmt, *ast.CaseClause, *ast.CommClause:
			out = append(out, s)
			continue
		}
		out = append(out, &ast.ExprStmt{X: r.call("vsched", "P")}, s)
	}
	return out
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	blk := &ast.BlockStmt{}
	hasDef := "false"
	vi, vv, vok := r.tmp("I"), r.tmp("V"), r.tmp("OK")
	selCall := r.call("vsched", "Select", id("false"))
	sw := &ast.SwitchStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{vi, vv, vok}, Tok: token.DEFINE, Rhs: []ast.Expr{selCall}},
		Tag:  id(vi.Name),
		Body: &ast.BlockStmt{},
	}
	use := func() ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{id("_"), id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(vv.Name), id(vok.Name)}}
	}
	idx := 0
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: append([]ast.Stmt{use()}, cc.Body...)})
			continue
		}
		chTmp := r.tmp("C")
		body := []ast.Stmt{use()}
		var chExpr ast.Expr
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			chExpr = cm.Chan
			selCall.Args = append(selCall.Args, &ast.CallExpr{Fun: r.call("vsched", "SendCase", id(chTmp.Name)), Args: []ast.Expr{cm.Value}})
		case *ast.ExprStmt:
			chExpr, _ = recvOf(cm.X)
			selCall.Args = append(selCall.Args, r.call("vsched", "RecvCase", id(chTmp.Name)))
		case *ast.AssignStmt:
			chExpr, _ = recvOf(cm.Rhs[0])
			selCall.Args = append(selCall.Args, r.call("vsched", "RecvCase", id(chTmp.Name)))
			rhs := []ast.Expr{r.call("vsched", "AsCh", id(chTmp.Name), id(vv.Name))}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, id(vok.Name))
			}
			body = append(body, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: rhs})
		}
		if chExpr == nil {
			die("unsupported select case at %v", r.fset.Position(cc.Pos()))
		}
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{chTmp}, Tok: token.DEFINE, Rhs: []ast.Expr{chExpr}})
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}},
			Body: append(body, cc.Body...),
		})
		idx++
	}
	selCall.Args[0] = id(hasDef)
	if hasDef == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{use(),
			&ast.ExprStmt{X: &ast.CallExpr{Fun: id("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	}
	var st ast.Stmt = sw
	if label != nil {
		st = &ast.LabeledStmt{Label: label, Stmt: sw}
		r.wrapped[blk] = true
	}
	blk.List = append(blk.List, st)
	return blk
}

func (r *rewriter) goStmt(g *ast.GoStmt) ast.Stmt {
	call := g.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		return &ast.ExprStmt{X: r.call("vsched", "Go", fl)}
	}
	wrap := func(c *ast.CallExpr) ast.Stmt {
		return &ast.ExprStmt{X: r.call("vsched", "Go", &ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}},
		})}
	}
	if r.builtin(call.Fun) != "" {
		return wrap(call)
	}
	blk := &ast.BlockStmt{}
	fn := r.tmp("F")
	blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{fn}, Tok: token.DEFINE, Rhs: []ast.Expr{call.Fun}})
	nc := &ast.CallExpr{Fun: id(fn.Name), Ellipsis: call.Ellipsis}
	multiCall := false
	if len(call.Args) == 1 {
		if t, ok := r.typ(call.Args[0]).(*types.Tuple); ok && t.Len() > 1 {
			multiCall = true
		}
	}
	for _, a := range call.Args {
		tv, ok := r.info.Types[a]
		if multiCall || ok && (tv.Value != nil || tv.IsNil()) {
			nc.Args = append(nc.Args, a)
			continue
		}
		t := r.tmp("A")
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		nc.Args = append(nc.Args, id(t.Name))
	}
	blk.List = append(blk.List, wrap(nc))
	return blk
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (r *rewriter) rangeChan(n *ast.RangeStmt) ast.Stmt {
	rc, ok := r.tmp("R"), r.tmp("OK")
	brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
	f := &ast.ForStmt{Body: n.Body}
	var key ast.Expr = id("_")
	if !isBlank(n.Key) {
		key = n.Key
	}
	recv := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{r.call("vsched", "Recv2", id(rc.Name))}, Lhs: []ast.Expr{key, id(ok.Name)}}
	initKey := ast.Expr(id("_"))
	if n.Tok == token.DEFINE && !isBlank(n.Key) {
		initKey = id(n.Key.(*ast.Ident).Name)
	}
	f.Init = &ast.AssignStmt{Lhs: []ast.Expr{rc, initKey, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("vsched", "RangeChan", n.X)}}
	f.Body.List = append([]ast.Stmt{recv, brk}, f.Body.List...)
	return f
}

func (r *rewriter) rangeMap(n *ast.RangeStmt) ast.Stmt {
	it := r.tmp("It")
	ptr := func(e ast.Expr) ast.Expr {
		if isBlank(e) {
			return id("nil")
		}
		return &ast.UnaryExpr{Op: token.AND, X: e}
	}
	init := func(e ast.Expr) ast.Expr {
		if isBlank(e) || n.Tok != token.DEFINE {
			return id("_")
		}
		return id(e.(*ast.Ident).Name)
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{it, init(n.Key), init(n.Value)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("vsched", "RangeMap", n.X)}},
		Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(it.Name), Sel: id("Next")}, Args: []ast.Expr{ptr(n.Key), ptr(n.Value)}},
		Body: n.Body,
	}
}
