// alias writes zz_alias.go for a shim package: everything exported by the real
// package that the shim does not define itself and that is safe to pass through.
// usage: alias <real import path> <shim dir>
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// functions that must not be passed through
var deny = map[string]*regexp.Regexp{
	"os":            regexp.MustCompile(`.*`),
	"net":           regexp.MustCompile(`^(Dial|Listen|Lookup|File|Interface|Resolve)`),
	"net/http":      regexp.MustCompile(`^(Get|Head|Post|PostForm|ListenAndServe|ListenAndServeTLS|Serve|ServeTLS|Handle|HandleFunc|NewFileTransport)$`),
	"time":          regexp.MustCompile(`^$`),
	"context":       regexp.MustCompile(`^$`),
	"path/filepath": regexp.MustCompile(`^$`),
	"maps":          regexp.MustCompile(`^$`),
	"math/rand":     regexp.MustCompile(`^$`),
	"math/rand/v2":  regexp.MustCompile(`^$`),
	"sync":          regexp.MustCompile(`.*`),
}

func main() {
	real, dir := os.Args[1], os.Args[2]
	fset := token.NewFileSet()
	have := map[string]bool{}
	name := ""
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasPrefix(filepath.Base(f), "zz_") {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		name = a.Name.Name
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	pkg, err := importer.ForCompiler(fset, "source", nil).Import(real)
	if err != nil {
		panic(err)
	}
	q := "real"
	var out []string
	for _, n := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			out = append(out, fmt.Sprintf("type %s = %s.%s", n, q, n))
		case *types.Const:
			out = append(out, fmt.Sprintf("const %s = %s.%s", n, q, n))
		case *types.Var:
			out = append(out, fmt.Sprintf("var %s = %s.%s", n, q, n))
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 || deny[real].MatchString(n) {
				continue
			}
			out = append(out, fmt.Sprintf("var %s = %s.%s", n, q, n))
		}
	}
	sort.Strings(out)
	s := "// Code generated by /verif/tool/alias; DO NOT EDIT.\n\npackage " + name + "\n\n"
	if len(out) > 0 {
		s += fmt.Sprintf("import real %q\n\n", real) + strings.Join(out, "\n") + "\n"
	}
	if err := os.WriteFile(filepath.Join(dir, "zz_alias.go"), []byte(s), 0o644); err != nil {
		panic(err)
	}
}
