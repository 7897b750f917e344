// aliasgen writes zz_alias.go into a replacement package: every exported name
// of the standard package that the replacement does not define itself.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

// skip lists names that would reach the real system.
var skip = map[string]bool{
	"os.CopyFS": true, "os.OpenRoot": true, "os.StartProcess": true, "os.FindProcess": true, "os.Lchown": true, "os.Root": true,
	"net.DialTCP": true, "net.DialUDP": true, "net.DialIP": true, "net.DialUnix": true, "net.ListenTCP": true, "net.ListenUDP": true,
	"net.ListenIP": true, "net.ListenUnix": true, "net.ListenUnixgram": true, "net.ListenMulticastUDP": true, "net.ListenPacket": true,
	"crypto/tls.Dial": true, "crypto/tls.DialWithDialer": true, "crypto/tls.Dialer": true,
	"net.FileConn": true, "net.FileListener": true, "net.FilePacketConn": true,
}

func main() {
	for _, a := range os.Args[1:] {
		dir, std, _ := strings.Cut(a, "=")
		gen(dir, std)
	}
}

func gen(dir, std string) {
	fset := token.NewFileSet()
	have := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	pkgName := ""
	for _, f := range files {
		if strings.HasSuffix(f, "zz_alias.go") {
			continue
		}
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		pkgName = af.Name.Name
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	p, err := importer.ForCompiler(fset, "source", nil).Import(std)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by aliasgen. DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", pkgName, std)
	n := 0
	for _, name := range p.Scope().Names() {
		o := p.Scope().Lookup(name)
		if !o.Exported() || have[name] || skip[std+"."+name] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", name, name)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				panic("generic type " + std + "." + name)
			}
			fmt.Fprintf(&b, "type %s = std.%s\n", name, name)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", name, name)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				panic("generic func " + std + "." + name)
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", name, name)
		}
		n++
	}
	out := filepath.Join(dir, "zz_alias.go")
	if n == 0 {
		os.Remove(out)
		return
	}
	src, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(out, src, 0o644); err != nil {
		panic(err)
	}
}
