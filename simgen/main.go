// simgen generates the simulation build of /repo: it type-checks the packages
// of the repository and of the dependencies that do concurrency or I/O and
// rewrites them, by language construct and import path only, so that every
// source of nondeterminism goes through the simulator (module simrt).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const simrt = "verif.local/simrt/"

// replaced maps standard packages to their simulated counterparts.
var replaced = map[string]string{
	"sync":          simrt + "xsync",
	"sync/atomic":   simrt + "xatomic",
	"time":          simrt + "xtime",
	"context":       simrt + "xcontext",
	"net":           simrt + "xnet",
	"os":            simrt + "xos",
	"os/signal":     simrt + "xsignal",
	"path/filepath": simrt + "xfilepath",
	"io/ioutil":     simrt + "xioutil",
	"fmt":           simrt + "xfmt",
	"crypto/tls":    simrt + "xtls",
}

// deps are the dependencies that are instrumented, with the files of theirs
// that are replaced because they talk to the operating system.
var deps = map[string]map[string]string{
	"go.etcd.io/bbolt": {
		"bolt_unix.go":  bboltUnix,
		"bolt_linux.go": "",
		"mlock_unix.go": "",
	},
	"github.com/orcaman/concurrent-map": {},
}

const bboltUnix = `package bbolt

import (
	"fmt"
	"syscall"
	"time"
	"unsafe"

	"go.etcd.io/bbolt/errors"
)

func flock(db *DB, exclusive bool, timeout time.Duration) error {
	var t time.Time
	if timeout != 0 {
		t = time.Now()
	}
	for {
		err := db.file.SimFlock(exclusive)
		if err == nil {
			return nil
		} else if err != syscall.EWOULDBLOCK {
			return err
		}
		if timeout != 0 && time.Since(t) > timeout-flockRetryTimeout {
			return errors.ErrTimeout
		}
		time.Sleep(flockRetryTimeout)
	}
}

func funlock(db *DB) error { return db.file.SimFunlock() }

func mmap(db *DB, sz int) error {
	b, err := db.file.SimMmap(sz)
	if err != nil {
		return err
	}
	db.dataref = b
	db.data = (*[maxMapSize]byte)(unsafe.Pointer(&b[0]))
	db.datasz = sz
	return nil
}

func munmap(db *DB) error {
	if db.dataref == nil {
		return nil
	}
	err := db.file.SimMunmap(db.dataref)
	db.dataref = nil
	db.data = nil
	db.datasz = 0
	return err
}

func madvise(b []byte, advice int) error { return nil }

func mlock(db *DB, fileSize int) error   { return nil }
func munlock(db *DB, fileSize int) error { return nil }

func fdatasync(db *DB) error { return db.file.Sync() }

var _ = fmt.Errorf
`

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	EmbedFiles []string
	Export     string
	Standard   bool
	Module     *struct {
		Path, Dir, Version, GoVersion string
		Main                          bool
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	simrtDir := flag.String("simrt", "/verif/simrt", "simulator runtime")
	harness := flag.String("harness", "/verif/harness", "harness sources")
	gocmd := flag.String("go", "go", "go command")
	flag.Parse()

	cmd := exec.Command(*gocmd, "list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,CgoFiles,EmbedFiles,Export,Standard,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly -buildvcs=false")
	js, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	var pkgs []*listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(js))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list: %v", err)
		}
		pkgs = append(pkgs, p)
		exports[p.ImportPath] = p.Export
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if e := exports[path]; e != "" {
			return os.Open(e)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	})

	mainPath, mainDir := "", ""
	modDirs := map[string]string{}
	for _, p := range pkgs {
		if p.Standard || p.Module == nil {
			continue
		}
		isMain := p.Module.Main
		files, isDep := deps[p.Module.Path]
		if !isMain && !isDep {
			continue
		}
		sub := "dep/" + filepath.Base(p.Module.Path)
		if isMain {
			mainPath, mainDir = p.Module.Path, p.Module.Dir
			sub = "idm"
		}
		modDirs[p.Module.Path] = sub
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		if err != nil {
			fatal("%v", err)
		}
		od := filepath.Join(*out, sub, rel)
		if err := os.MkdirAll(od, 0o755); err != nil {
			fatal("%v", err)
		}
		for _, e := range p.EmbedFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, e))
			if err != nil {
				fatal("%v", err)
			}
			os.MkdirAll(filepath.Dir(filepath.Join(od, e)), 0o755)
			os.WriteFile(filepath.Join(od, e), b, 0o644)
		}
		if rel != "." {
			files = nil
		}
		genPkg(fset, imp, p, od, isMain, files)
		gm := "module " + p.Module.Path + "\n\ngo 1.23.0\n"
		if b, err := os.ReadFile(filepath.Join(p.Module.Dir, "go.mod")); err == nil && p.Module.GoVersion != "" && p.Module.GoVersion >= "1.22" {
			gm = string(b)
		}
		os.WriteFile(filepath.Join(*out, sub, "go.mod"), []byte(gm), 0o644)
	}
	if mainPath == "" {
		fatal("no main module")
	}
	writeHarness(*out, *harness, *simrtDir, mainPath, mainDir, modDirs)
}

func writeHarness(out, harness, simrtDir, mainPath, mainDir string, modDirs map[string]string) {
	hd := filepath.Join(out, "harness")
	if err := os.MkdirAll(hd, 0o755); err != nil {
		fatal("%v", err)
	}
	fs, _ := filepath.Glob(filepath.Join(harness, "*.go"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		os.WriteFile(filepath.Join(hd, filepath.Base(f)), b, 0o644)
	}
	gm, err := os.ReadFile(filepath.Join(mainDir, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	var b strings.Builder
	for _, l := range strings.Split(string(gm), "\n") {
		switch {
		case strings.HasPrefix(l, "module "):
			b.WriteString("module verif.local/harness\n")
		case strings.HasPrefix(l, "toolchain "):
		default:
			b.WriteString(l + "\n")
		}
	}
	fmt.Fprintf(&b, "\nrequire verif.local/simrt v0.0.0\nrequire %s v0.0.0\n", mainPath)
	fmt.Fprintf(&b, "replace verif.local/simrt => %s\n", simrtDir)
	var paths []string
	for p := range modDirs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		fmt.Fprintf(&b, "replace %s => ../%s\n", p, modDirs[p])
	}
	os.WriteFile(filepath.Join(hd, "go.mod"), []byte(b.String()), 0o644)
	if gs, err := os.ReadFile(filepath.Join(mainDir, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(hd, "go.sum"), gs, 0o644)
	}
}

type rw struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	stmtY bool // statement level yield points
	sites int
	maps  bool // map access marks
	two   map[*ast.UnaryExpr]bool
	lval  map[ast.Expr]bool
}

func genPkg(fset *token.FileSet, imp types.Importer, p *listPkg, od string, isMain bool, repl map[string]string) {
	if len(p.CgoFiles) > 0 {
		fatal("cgo in %s", p.ImportPath)
	}
	var files []*ast.File
	var names []string
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, af)
		names = append(names, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, FakeImportC: true, Sizes: types.SizesFor("gc", "amd64")}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal("%v", err)
	}
	r := &rw{fset: fset, info: info, pkg: tp, stmtY: isMain, maps: isMain || strings.Contains(p.ImportPath, "concurrent-map"), two: map[*ast.UnaryExpr]bool{}, lval: map[ast.Expr]bool{}}

	inits := 0
	var calls []string
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return i
			}
		}
		return 0
	}
	extra := make([][]ast.Decl, len(files))
	// rewrite
	for i, f := range files {
		if rp, ok := repl[names[i]]; ok {
			if rp == "" {
				continue
			}
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if isMain && d.Recv == nil && d.Name.Name == "init" {
					inits++
					d.Name = ast.NewIdent(fmt.Sprintf("simUserInit%d", inits))
					calls = append(calls, d.Name.Name)
				}
				if d.Body != nil {
					r.block(d.Body)
				}
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						r.valueSpec(s.(*ast.ValueSpec))
					}
				}
			}
		}
	}
	if isMain {
		var order []string
		seen := map[types.Object]bool{}
		// variables without initialiser first
		for i, f := range files {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) > 0 {
						continue
					}
					for _, n := range vs.Names {
						if n.Name == "_" {
							continue
						}
						fn := fmt.Sprintf("simReset%d", len(order))
						order = append(order, fn)
						extra[i] = append(extra[i], funcDecl(fn, &ast.ExprStmt{X: call(simSel("Zero"), &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(n.Name)})}))
					}
				}
			}
		}
		specs := map[types.Object]*ast.ValueSpec{}
		for _, f := range files {
			for _, d := range f.Decls {
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
					for _, s := range gd.Specs {
						vs := s.(*ast.ValueSpec)
						for _, n := range vs.Names {
							if o := info.Defs[n]; o != nil {
								specs[o] = vs
							}
						}
					}
				}
			}
		}
		for _, in := range info.InitOrder {
			blank := true
			var lhs []ast.Expr
			for _, v := range in.Lhs {
				if v.Name() != "_" {
					blank = false
				}
				seen[v] = true
				lhs = append(lhs, ast.NewIdent(v.Name()))
			}
			if blank {
				continue
			}
			fi := fileOf(in.Rhs.Pos())
			// the (rewritten) initialiser as it stands in its declaration
			rhs := in.Rhs
			if vs := specs[in.Lhs[0]]; vs != nil {
				if len(vs.Values) == 1 && len(vs.Names) > 1 {
					rhs = vs.Values[0]
				} else {
					for k, n := range vs.Names {
						if info.Defs[n] == types.Object(in.Lhs[0]) {
							rhs = vs.Values[k]
						}
					}
				}
			}
			fn := fmt.Sprintf("simReset%d", len(order))
			order = append(order, fn)
			extra[fi] = append(extra[fi], funcDecl(fn, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}))
		}
		var body []ast.Stmt
		for _, o := range append(order, calls...) {
			body = append(body, &ast.ExprStmt{X: call(ast.NewIdent(o))})
		}
		extra[0] = append(extra[0], funcDecl("simResetAll", body...))
		ib := []ast.Stmt{&ast.ExprStmt{X: call(simSel("RegisterReset"), strLit(p.ImportPath), ast.NewIdent("simResetAll"))}}
		var vars []ast.Expr
		for _, f := range files {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							vars = append(vars, &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(n.Name)})
						}
					}
				}
			}
		}
		ib = append(ib, &ast.ExprStmt{X: call(simSel("RegisterGlobals"), vars...)})
		for _, c := range calls {
			ib = append(ib, &ast.ExprStmt{X: call(ast.NewIdent(c))})
		}
		extra[0] = append(extra[0], funcDecl("init", ib...))
	}
	for i, f := range files {
		on := filepath.Join(od, names[i])
		if rp, ok := repl[names[i]]; ok {
			if rp == "" {
				continue
			}
			af, err := parser.ParseFile(fset, names[i], rp, parser.SkipObjectResolution)
			if err != nil {
				fatal("%v", err)
			}
			f = af
		}
		f.Decls = append(f.Decls, extra[i]...)
		writeFile(fset, f, on)
	}
}

func writeFile(fset *token.FileSet, f *ast.File, on string) {
	f.Comments = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = directives(n.Doc)
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = directives(n.Doc), nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
	f.Doc = nil
	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		if rp, ok := replaced[path]; ok {
			is.Path.Value = strconv.Quote(rp)
			if is.Name == nil {
				base := path[strings.LastIndex(path, "/")+1:]
				is.Name = ast.NewIdent(base)
			}
		}
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("sim_"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simrt + "sim")}}}}
	use := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{simSel("Y")}}}}
	f.Decls = append([]ast.Decl{imp}, append(f.Decls, use)...)
	var b bytes.Buffer
	// print without positions: the inserted nodes have none
	if err := format.Node(&b, token.NewFileSet(), f); err != nil {
		fatal("%s: %v", on, err)
	}
	src := b.Bytes()
	if s, err := format.Source(src); err == nil {
		src = s
	} else {
		os.WriteFile(on, src, 0o644)
		fatal("%s: %v", on, err)
	}
	if err := os.WriteFile(on, src, 0o644); err != nil {
		fatal("%v", err)
	}
}

// directives keeps go:embed comments only.
func directives(c *ast.CommentGroup) *ast.CommentGroup {
	if c == nil {
		return nil
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:embed") {
			return &ast.CommentGroup{List: []*ast.Comment{l}}
		}
	}
	return nil
}

func funcDecl(name string, body ...ast.Stmt) *ast.FuncDecl {
	return &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func simSel(n string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("sim_"), Sel: ast.NewIdent(n)}
}

func strLit(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }

func intLit(n int) ast.Expr {
	if n < 0 {
		return &ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(-n)}}
	}
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}
}
