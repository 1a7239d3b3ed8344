package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"io/ioutil"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The "cmd" instrumentation turns the command cmd/mapdebugger into an importable package whose
// Main is the command's main. What reaches outside the process (listening, flags, the log) and
// the handlers the command wires up, which T05 decides, are replaced by stand-ins that record.
func init() {
	instrumenters["cmd"] = func(v *Variant, dir string, mod *string) error {
		pkgDir := filepath.Join(repoDir(), "cmd", "mapdebugger")
		files, err := filepath.Glob(filepath.Join(pkgDir, "*.go"))
		if err != nil {
			return err
		}
		n := 0
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(pkgDir, filepath.Base(f)); err != nil || !ok {
				continue
			}
			src, err := ioutil.ReadFile(f)
			if err != nil {
				return err
			}
			out, err := cmdFile(f, src)
			if err != nil {
				return err
			}
			v.Overlay[f] = out
			n++
		}
		if n == 0 {
			return fmt.Errorf("no sources in %s", pkgDir)
		}
		return nil
	}
}

var cmdPkgs = map[string]string{"log": "oureaverif/cmdshim/log", "flag": "oureaverif/cmdshim/flag"}

var cmdSels = map[string]map[string]bool{
	"net/http": {"Handle": true, "HandleFunc": true, "ListenAndServe": true, "ListenAndServeTLS": true, "Serve": true, "DefaultServeMux": true, "Server": true, "ServeMux": true, "NewServeMux": true},
	"github.com/akhenakh/oureadb/s2tools": {"S2CellQueryHandler": true, "GeoJSONToCellHandler": true},
}

func cmdFile(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	a, err := parser.ParseFile(fset, name, src, 0)
	if err != nil {
		return nil, err
	}
	a.Name.Name = "mapdebugger"
	imports := map[string]string{} // local name -> path
	for _, im := range a.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		local := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			local = im.Name.Name
		}
		if s, ok := cmdPkgs[p]; ok {
			im.Path.Value = strconv.Quote(s)
			im.Name = ast.NewIdent(local)
			continue
		}
		if cmdSels[p] != nil {
			imports[local] = p
		}
	}
	keep := map[string]string{}
	ast.Inspect(a, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		x, ok := se.X.(*ast.Ident)
		if !ok || x.Obj != nil || !cmdSels[imports[x.Name]][se.Sel.Name] {
			return true
		}
		keep[x.Name] = "type"
		if strings.HasSuffix(imports[x.Name], "s2tools") {
			keep[x.Name] = se.Sel.Name
		}
		x.Name = "verifcmd"
		return true
	})
	for _, d := range a.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
			fd.Name.Name = "Main"
		}
	}
	ast.Inspect(a, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "main" {
				id.Name = "Main"
			}
		}
		return true
	})
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("verifcmd"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"oureaverif/cmdshim"`}}}}
	a.Decls = append([]ast.Decl{imp}, a.Decls...)
	var b bytes.Buffer
	if err := format.Node(&b, token.NewFileSet(), a); err != nil {
		return nil, err
	}
	b.WriteString("\nvar _ = verifcmd.Handle\n")
	var names []string
	for n := range keep {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if keep[n] == "type" {
			fmt.Fprintf(&b, "\nvar _ %s.Handler\n", n)
		} else {
			fmt.Fprintf(&b, "\nvar _ = %s.%s\n", n, keep[n])
		}
	}
	return b.Bytes(), nil
}
