package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// hookPkg is a package of a dependency whose named functions consult a hook variable first.
// Methods are written Type.Name; the hook takes the receiver as its first argument.
type hookPkg struct {
	mod, sub, name string
	funcs          []string
}

var s2Hooks = []hookPkg{
	{"github.com/golang/geo", "s2", "geo", []string{
		"CellIDFromLatLng", "cellIDFromPoint", "PointFromLatLng", "LatLngFromPoint", "LatLngFromDegrees", "CellFromCellID", "Cell.Vertex",
		"CapFromCenterArea", "CapFromCenterAngle", "CapFromCenterChordAngle", "CapFromCenterHeight", "Cap.ContainsPoint",
		"RectFromLatLng", "Rect.AddPoint", "Rect.Union", "Rect.ContainsPoint", "Rect.ContainsLatLng", "CellID.Point", "CellID.LatLng", "CellID.String", "CellID.ToToken",
		"RegionCoverer.Covering", "RegionCoverer.InteriorCovering", "RegionCoverer.CellUnion", "RegionCoverer.InteriorCellUnion", "RegionCoverer.FastCovering",
		"LoopFromPoints", "RobustSign", "Sign", "OrderedCCW", "Loop.ContainsOrigin", "Loop.IsEmpty", "Loop.IsFull", "Loop.RectBound", "Loop.Normalize", "Loop.IsNormalized", "Loop.Invert", "Loop.Area", "Loop.TurningAngle", "Loop.ContainsPoint", "Loop.CapBound",
		"Polyline.RectBound",
	}},
	{"github.com/twpayne/go-geom", "encoding/geojson", "geom", []string{"FeatureCollection.MarshalJSON", "Feature.MarshalJSON", "FeatureCollection.UnmarshalJSON", "Feature.UnmarshalJSON"}},
}

func init() {
	instrumenters["s2"] = func(v *Variant, dir string, mod *string) error {
		for _, h := range s2Hooks {
			to := filepath.Join(dir, "mods", h.name)
			if err := h.write(to); err != nil {
				return err
			}
			*mod += fmt.Sprintf("\nreplace %s => %s\n", h.mod, to)
		}
		return nil
	}
}

func (h hookPkg) write(to string) error {
	d, err := modDir(h.mod)
	if err != nil {
		return err
	}
	want := map[string]bool{}
	for _, f := range h.funcs {
		want[f] = true
	}
	err = filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(d, p)
		if fi.IsDir() {
			if b := filepath.Base(p); strings.HasPrefix(b, ".") && b != "." || b == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if rel != "go.mod" && rel != "go.sum" && (!strings.HasSuffix(rel, ".go") || strings.HasSuffix(rel, "_test.go")) {
			return nil
		}
		if filepath.Dir(rel) != h.sub || !strings.HasSuffix(rel, ".go") {
			return copyFile(p, filepath.Join(to, rel))
		}
		src, err := ioutil.ReadFile(p)
		if err != nil {
			return err
		}
		out, err := hookFile(p, src, want)
		if err != nil {
			return err
		}
		if err := os.MkdirAll(filepath.Dir(filepath.Join(to, rel)), 0o777); err != nil {
			return err
		}
		return ioutil.WriteFile(filepath.Join(to, rel), out, 0o666)
	})
	if err != nil {
		return err
	}
	if _, err := os.Stat(filepath.Join(to, "go.mod")); err != nil {
		if err := ioutil.WriteFile(filepath.Join(to, "go.mod"), []byte("module "+h.mod+"\n"), 0o666); err != nil {
			return err
		}
	}
	var left []string
	for f, missing := range want {
		if missing {
			left = append(left, f)
		}
	}
	sort.Strings(left)
	if len(left) > 0 {
		return fmt.Errorf("%s/%s has no %s", h.mod, h.sub, strings.Join(left, ", "))
	}
	return ioutil.WriteFile(filepath.Join(to, h.sub, "verif_hooks.go"), []byte(hookExtra[h.name]), 0o666)
}

var hookExtra = map[string]string{
	"geo": `package s2

import "github.com/golang/geo/r3"

// VerifCap makes a cap that is nothing but a number, VerifCapID gives it back.
func VerifCap(i int) Cap { return Cap{center: Point{r3.Vector{X: float64(i), Z: 3.25}}} }

func VerifCapID(c Cap) int {
	if c.center.Z != 3.25 {
		return -1
	}
	return int(c.center.X)
}

// VerifLoop makes a loop of the vertices and nothing else.
func VerifLoop(pts []Point) *Loop { return &Loop{vertices: pts} }

// VerifVertices returns the vertices of a loop.
func VerifVertices(l *Loop) []Point { return l.vertices }

// VerifSetVertices replaces them.
func VerifSetVertices(l *Loop, pts []Point) { l.vertices = pts }

// VerifCell makes a cell that is nothing but its id.
func VerifCell(id CellID) Cell { return Cell{id: id} }
`,
	"geom": `package geojson

import geom "github.com/twpayne/go-geom"

// VerifEncode unpacks the coordinates of a geometry the way its encoding does.
func VerifEncode(g geom.T) (n int, err error) {
	switch g := g.(type) {
	case *geom.Point:
		if !g.Empty() {
			n = len(g.Coords())
		}
	case *geom.LineString:
		n = len(g.Coords())
	case *geom.Polygon:
		n = len(g.Coords())
	case *geom.MultiPolygon:
		n = len(g.Coords())
	}
	return n, nil
}
`,
}

func hookFile(name string, src []byte, want map[string]bool) ([]byte, error) {
	fset := token.NewFileSet()
	a, err := parser.ParseFile(fset, name, src, 0)
	if err != nil {
		return nil, err
	}
	text := func(n ast.Node) string {
		return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	var add bytes.Buffer
	type edit struct {
		at int
		s  string
	}
	var edits []edit
	for _, d := range a.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		key, id := fd.Name.Name, fd.Name.Name
		var params, types, args []string
		recv := ""
		if fd.Recv != nil {
			t := fd.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			key, id = text(t)+"."+key, text(t)+"_"+id
			recv = text(fd.Recv.List[0].Type)
		}
		if !want[key] {
			continue
		}
		want[key] = false
		edits = append(edits, edit{fset.Position(fd.Name.End()).Offset, "__orig"})
		if recv != "" {
			types = append(types, recv)
		}
		for _, f := range fd.Type.Params.List {
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				p := fmt.Sprintf("p%d", len(params))
				params = append(params, p+" "+text(f.Type))
				types = append(types, text(f.Type))
				if _, ok := f.Type.(*ast.Ellipsis); ok {
					p += "..."
				}
				args = append(args, p)
			}
		}
		res, ret := "", ""
		if fd.Type.Results != nil {
			var rt []string
			for _, f := range fd.Type.Results.List {
				n := len(f.Names)
				if n == 0 {
					n = 1
				}
				for i := 0; i < n; i++ {
					rt = append(rt, text(f.Type))
				}
			}
			res, ret = "("+strings.Join(rt, ", ")+")", "return "
		}
		fmt.Fprintf(&add, "\n// VerifHook_%s replaces %s.\nvar VerifHook_%s func(%s) %s\n", id, key, id, strings.Join(types, ", "), res)
		if recv != "" {
			fmt.Fprintf(&add, "func (p %s) %s(%s) %s {\nif VerifHook_%s != nil {\n%sVerifHook_%s(%s)\n", recv, fd.Name.Name, strings.Join(params, ", "), res, id, ret, id, strings.Join(append([]string{"p"}, args...), ", "))
			if ret == "" {
				add.WriteString("return\n")
			}
			fmt.Fprintf(&add, "}\n%sp.%s__orig(%s)\n}\n", ret, fd.Name.Name, strings.Join(args, ", "))
		} else {
			fmt.Fprintf(&add, "func %s(%s) %s {\nif VerifHook_%s != nil {\n%sVerifHook_%s(%s)\n", fd.Name.Name, strings.Join(params, ", "), res, id, ret, id, strings.Join(args, ", "))
			if ret == "" {
				add.WriteString("return\n")
			}
			fmt.Fprintf(&add, "}\n%s%s__orig(%s)\n}\n", ret, fd.Name.Name, strings.Join(args, ", "))
		}
	}
	var out bytes.Buffer
	last := 0
	for _, e := range edits {
		out.Write(src[last:e.at])
		out.WriteString(e.s)
		last = e.at
	}
	out.Write(src[last:])
	out.Write(add.Bytes())
	b, err := format.Source(out.Bytes())
	if err != nil {
		return nil, fmt.Errorf("%s: %v", name, err)
	}
	return b, nil
}
