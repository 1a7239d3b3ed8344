package main

import (
	"bytes"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"io/ioutil"
	"path/filepath"
	"strconv"
	"strings"
)

func init() {
	instrumenters["gtreap"] = func(v *Variant, dir string, mod *string) error {
		return yieldInstrument(v, filepath.Join(repoDir(), "store", "gtreap"))
	}
}

// yieldInstrument makes every statement of a package a scheduling point and its mutexes cooperative,
// so that the symbolic executor and the compiled replay take the same schedules. Functions that
// use channels or start goroutines keep their statements whole.
func yieldInstrument(v *Variant, pkgDir string) error {
	files, err := filepath.Glob(filepath.Join(pkgDir, "*.go"))
	if err != nil {
		return err
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(pkgDir, filepath.Base(f)); err != nil || !ok {
			continue
		}
		src, err := ioutil.ReadFile(f)
		if err != nil {
			return err
		}
		out, err := yieldFile(f, src)
		if err != nil {
			return err
		}
		if out != nil {
			v.Overlay[f] = out
		}
	}
	return nil
}

func yieldFile(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	a, err := parser.ParseFile(fset, name, src, 0)
	if err != nil {
		return nil, err
	}
	used, syncLeft := false, false
	syncName := ""
	for _, im := range a.Imports {
		if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
			syncName = "sync"
			if im.Name != nil {
				syncName = im.Name.Name
			}
		}
	}
	ast.Inspect(a, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		if x, ok := se.X.(*ast.Ident); ok && syncName != "" && x.Name == syncName && x.Obj == nil {
			if se.Sel.Name == "Mutex" || se.Sel.Name == "RWMutex" {
				x.Name = "verifsym"
				used = true
			} else {
				syncLeft = true
			}
		}
		return true
	})
	for _, d := range a.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || usesChannels(fd.Body) || fd.Name.Name == "init" {
			continue
		}
		yieldBlock(&fd.Body.List)
		used = true
	}
	if !used {
		return nil, nil
	}
	// imports: drop sync when nothing refers to it any more
	for _, d := range a.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		var specs []ast.Spec
		for _, s := range gd.Specs {
			if p, _ := strconv.Unquote(s.(*ast.ImportSpec).Path.Value); p == "sync" && !syncLeft {
				continue
			}
			specs = append(specs, s)
		}
		gd.Specs = specs
		if len(specs) > 1 {
			gd.Lparen = 1
		}
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("verifsym"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"oureaverif/sym"`}}}}
	var decls []ast.Decl
	decls = append(decls, imp)
	for _, d := range a.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT && len(gd.Specs) == 0 {
			continue
		}
		decls = append(decls, d)
	}
	a.Decls = decls
	var b bytes.Buffer
	if err := format.Node(&b, token.NewFileSet(), a); err != nil {
		return nil, err
	}
	return append(b.Bytes(), []byte("\nvar _ = verifsym.Yield\n")...), nil
}

func usesChannels(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt, *ast.ChanType:
			r = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				r = true
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
				r = true
			}
		}
		return !r
	})
	return r
}

func yieldStmt() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifsym"), Sel: ast.NewIdent("Yield")}}}
}

func yieldBlock(list *[]ast.Stmt) {
	var out []ast.Stmt
	for _, s := range *list {
		yieldInside(s)
		out = append(out, yieldStmt(), s)
	}
	*list = out
}

func yieldInside(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.BlockStmt:
		yieldBlock(&s.List)
	case *ast.IfStmt:
		yieldBlock(&s.Body.List)
		if s.Else != nil {
			yieldInside(s.Else)
		}
	case *ast.ForStmt:
		yieldBlock(&s.Body.List)
	case *ast.RangeStmt:
		yieldBlock(&s.Body.List)
	case *ast.SwitchStmt:
		for _, c := range s.Body.List {
			yieldBlock(&c.(*ast.CaseClause).Body)
		}
	case *ast.TypeSwitchStmt:
		for _, c := range s.Body.List {
			yieldBlock(&c.(*ast.CaseClause).Body)
		}
	case *ast.LabeledStmt:
		yieldInside(s.Stmt)
	case *ast.DeferStmt:
		if f, ok := s.Call.Fun.(*ast.FuncLit); ok {
			yieldBlock(&f.Body.List)
		}
	}
}
