package hs2t

import (
	"bytes"
	"errors"
	"io"
	"math"
	"net/http"
	"net/url"

	"github.com/akhenakh/oureadb/s2tools"
	"github.com/golang/geo/s1"
	"github.com/golang/geo/s2"
	"github.com/gorilla/mux"
	"github.com/twpayne/go-geom"
	"github.com/twpayne/go-geom/encoding/geojson"

	"oureaverif/geow"
	"oureaverif/sym"
)

// level chooses a level of cells.
func level(name string) int {
	if sym.Tier() > 0 {
		return sym.Choice(name, 31)
	}
	return []int{0, 3, 12, 30}[sym.Choice(name, 4)]
}

// someCell is a cell of the level with few symbolic bits: the face if there are more than 3, and the
// last steps of its path.
func someCell(name string, level, bits int) s2.CellID {
	if bits > 2*level {
		bits = 2 * level
	}
	f := byte(4)
	if bits > 3 {
		f = sym.Byte(name+".face") & 7
		sym.Assume(f < 6)
	}
	path := uint64(0x1b6d8e4f72c5a93) & (1<<uint(2*level) - 1)
	path = path>>uint(bits)<<uint(bits) | sym.Uint64(name)&(1<<uint(bits)-1)
	return s2.CellID((((uint64(f)<<uint(2*level))|path)<<1 | 1) << uint(60-2*level))
}

func hex(d uint64) byte { return byte(sym.Ite(d < 10, '0'+d, 'a'+d-10)) }

// token tells whether s is the token of c: its hexadecimal digits up to the last that is not 0.
func token(s string, c s2.CellID) bool {
	if len(s) == 0 || len(s) > 16 {
		return false
	}
	ok := s[len(s)-1] != '0'
	for i := 0; i < 16; i++ {
		d := hex(uint64(c) >> uint(60-4*i) & 15)
		if i < len(s) {
			ok = sym.And(ok, s[i] == d)
		} else {
			ok = sym.And(ok, d == '0')
		}
	}
	return ok
}

// number tells whether s is the decimal of c.
func number(s string, c s2.CellID) bool {
	if len(s) == 0 || len(s) > 20 || s[0] == '0' && len(s) > 1 {
		return false
	}
	ok, v := true, uint64(0)
	for i := range s {
		ok = sym.And(ok, digit(s[i]))
		v = v*10 + uint64(s[i]-'0')
	}
	return sym.And(ok, v == uint64(c))
}

// path tells whether s is the path of c, a cell of the level.
func path(s string, c s2.CellID, level int) bool {
	if len(s) != 2+level {
		return false
	}
	ok := sym.And(s[0] == '0'+byte(uint64(c)>>61), s[1] == '/')
	for i := 0; i < level; i++ {
		ok = sym.And(ok, s[2+i] == '0'+byte(uint64(c)>>uint(59-2*i)&3))
	}
	return ok
}

// corner is the k-th corner of the i-th cell, in radians.
func corner(i, k int) s2.LatLng {
	lat, lng := 0.125*float64(i+1)+0.015625*float64(k), -0.25*float64(i+1)+0.03125*float64(k*k)
	return s2.LatLng{Lat: s1.Angle(lat), Lng: s1.Angle(lng)}
}

// install makes the corners of the cells those of corner, and returns what is written as GeoJSON.
func install(cells *[]s2.CellID) *[][]*geojson.Feature {
	start()
	s2.VerifHook_CellFromCellID = s2.VerifCell
	s2.VerifHook_Cell_Vertex = func(c s2.Cell, k int) s2.Point {
		for i, x := range *cells {
			if x == c.ID() {
				return s2.PointFromLatLng(corner(i, k))
			}
		}
		sym.Assert(false, "no other cells are displayed")
		return s2.Point{}
	}
	var got [][]*geojson.Feature
	geojson.VerifHook_FeatureCollection_MarshalJSON = func(fc *geojson.FeatureCollection) ([]byte, error) {
		got = append(got, fc.Features)
		return []byte("text"), nil
	}
	geojson.VerifHook_Feature_MarshalJSON = nil
	geojson.VerifHook_FeatureCollection_UnmarshalJSON = nil
	geojson.VerifHook_Feature_UnmarshalJSON = nil
	return &got
}

func near(a, b float64) bool { return math.Abs(a-b) < 1e-9 }

// ring tells whether the flat coordinates are the closed outline of the i-th cell.
func ring(c []float64, i int) bool {
	if len(c) != 10 {
		return false
	}
	for at := 0; at < 4; at++ {
		ok := true
		for k := 0; k < 5; k++ {
			ll := corner(i, (at+k)%4)
			if !near(c[2*k], float64(ll.Lng)*180/math.Pi) || !near(c[2*k+1], float64(ll.Lat)*180/math.Pi) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// displayed asserts that the features display the cells.
func displayed(fs []*geojson.Feature, cells []s2.CellID, level func(i int) int) {
	sym.Assert(len(fs) == len(cells), "every cell becomes one feature")
	for i, c := range cells {
		f := fs[i]
		p, ok := f.Geometry.(*geom.Polygon)
		sym.Assert(ok && p.Layout() == geom.XY && len(p.Ends()) == 1, "a cell is displayed as a polygon of one ring")
		first := i
		for j := i; j >= 0; j-- {
			if cells[j] == c {
				first = j
			}
		}
		sym.Assert(ring(p.FlatCoords(), first), "the polygon of a cell is the closed ring of its corners")
		id, ok := f.Properties["id"].(string)
		sym.Assert(ok && token(id, c), "id is the token of the cell")
		str, ok := f.Properties["str"].(string)
		sym.Assert(ok && path(str, c, level(i)), "str is the path of the cell")
		l, ok := f.Properties["level"].(int)
		sym.Assert(ok && l == level(i), "level is the level of the cell")
	}
	// last, because it is the hardest to solve
	for i, c := range cells {
		uid, ok := fs[i].Properties["uid"].(string)
		sym.Assert(ok && number(uid, c), "uid is the number of the cell")
	}
}

// Display: the GeoJSON of a cell union displays its cells.
func Display() {
	var cells []s2.CellID
	got := install(&cells)
	var levels []int
	n := sym.Choice("n", 3)
	bits := 4
	for i := 0; i < n; i++ {
		l := level("level")
		levels = append(levels, l)
		cells = append(cells, someCell("cell", l, bits-2*i))
	}
	keep := append([]s2.CellID(nil), cells...)
	b := s2tools.CellUnionToGeoJSON(s2.CellUnion(cells))
	sym.Assert(len(*got) == 1 && string(b) == "text", "cells are displayed as one collection")
	sym.Assert(equal(cells, keep), "displaying cells leaves them as they are")
	displayed((*got)[0], keep, func(i int) int { return levels[i] })
	sym.Reach("end")
}

// Tokens: the tokens of a cell union are those of its cells.
func Tokens() {
	start()
	var cu s2.CellUnion
	n := sym.Choice("n", 3)
	for i := 0; i < n; i++ {
		cu = append(cu, someCell("cell", level("level"), quick(8, 14)))
	}
	keep := clone(cu)
	got := s2tools.CellUnionToTokens(cu)
	sym.Assert(len(got) == n, "every cell has a token")
	for i, t := range got {
		sym.Assert(token(t, keep[i]), "a token is the one of its cell")
		back := s2.CellIDFromToken(t)
		sym.Assert(back == keep[i], "the token of a cell is read back as that cell")
	}
	sym.Assert(equal(cu, keep), "the cell union is left as it is")
	sym.Reach("end")
}

// writer is a client that waits for an answer.
type writer struct {
	h      http.Header
	status int
	body   []byte
	at     string
}

func (w *writer) Header() http.Header { return w.h }
func (w *writer) WriteHeader(s int) {
	if w.status == 0 {
		w.status = s
		w.at = w.h.Get("Content-Type")
	}
}
func (w *writer) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	w.body = append(w.body, b...)
	return len(b), nil
}

// QueryCells: a query for cells is answered with these cells, or refused.
func QueryCells() {
	var cells []s2.CellID
	got := install(&cells)
	q := "cells="
	n := 1 + sym.Choice("n", 2)
	valid := true
	for i := 0; i < n; i++ {
		if i > 0 {
			q += ","
		}
		l := sym.Choice("len", quick(4-n, 3))
		var v uint64
		hexa := l > 0
		for j := 0; j < l; j++ {
			b := sym.Byte("char")
			low := sym.And(b >= 'a', b <= 'z')
			sym.Assume(sym.Or(low, digit(b)))
			hexa = sym.And(hexa, b <= 'f')
			v = v<<4 | sym.Ite(low, uint64(b-'a'+10), uint64(b-'0'))&15
			q += string([]byte{b})
		}
		c := s2.CellID(v << uint(64-4*l))
		valid = sym.And(valid, hexa, geow.Valid(c))
		cells = append(cells, c)
	}
	if sym.Choice("absent", 2) == 1 {
		q, valid = "", false
	}
	w := &writer{h: http.Header{}}
	s2tools.S2CellQueryHandler(w, &http.Request{Method: "GET", URL: &url.URL{Path: "/", RawQuery: q}})
	if w.status == 200 {
		sym.Assert(valid, "what is no cell is refused")
		sym.Assert(string(w.body) == "text" && len(*got) == 1, "the answer is the GeoJSON of cells")
		sym.Assert(w.at == "application/json", "the answer is JSON")
		displayed((*got)[0], cells, func(i int) int { return cells[i].Level() })
		sym.Reach("answered")
		return
	}
	sym.Assert(!valid, "cells are answered")
	sym.Assert(w.status == 400, "what is no cell is a bad request")
	sym.Reach("refused")
}

type body struct{ io.Reader }

func (body) Close() error { return nil }

var errBody = errors.New("no GeoJSON")

// position is an arbitrary position, in a leaf cell with few symbolic bits.
func position(name string) geow.Pos {
	p := geow.Pos{Lat: sym.Float64(name + ".lat"), Lng: sym.Float64(name + ".lng"), Leaf: someCell(name+".leaf", 30, quick(2, 4))}
	sym.Assume(math.Abs(p.Lat) <= 90)
	sym.Assume(math.Abs(p.Lng) <= 180)
	for _, k := range geow.Known {
		sym.Assume(!k.Is(s2.LatLng{Lat: s1.Angle(p.Lat), Lng: s1.Angle(p.Lng)}))
	}
	geow.Known = append(geow.Known, p)
	return p
}

// CoverBody: a geometry is answered with its covering.
func CoverBody() {
	var cells []s2.CellID
	got := install(&cells)
	vars := map[string]string{}
	want := map[string]int{}
	ok, signed := true, false
	// what is odd about the request: one of the parameters is arbitrary, or absent, the body no
	// GeoJSON, or another feature
	odd, absent := sym.Choice("odd", 6), -1
	if odd == 3 {
		absent = sym.Choice("absent", 3)
	}
	for i, name := range []string{"min_level", "max_level", "max_cells"} {
		b := []byte{'1' + byte(i)}
		if i == odd {
			b = sym.BytesUpTo(name, 2)
		}
		good, v := len(b) > 0, 0
		for j, x := range b {
			sign := j == 0 && len(b) > 1 && sym.Or(x == '+', x == '-')
			good = sym.And(good, sym.Or(digit(x), sign))
			v = v*10 + int(sym.Ite(sign, 0, uint64(x-'0')))
			if len(b) > 1 && j == 0 {
				signed = sign
			}
		}
		// whether numbers with a sign are numbers is left open, but -5 is none
		if len(b) > 1 {
			good = sym.And(good, sym.Implies(b[0] == '-', v == 0))
		}
		ok = sym.And(ok, good)
		want[name] = v
		vars[name] = string(b)
		if i == absent {
			delete(vars, name)
			ok = false
		}
	}
	failBody := odd == 4
	var fs []*geojson.Feature
	p := position("p")
	q := position("q")
	n, k := 1, sym.Choice("kind", 2)
	if odd == 5 {
		n, k = sym.Choice("features", 4), sym.Choice("features", 4)
	}
	if n > 0 {
		f := &geojson.Feature{Properties: map[string]interface{}{"a": 1.5}}
		switch k {
		case 0:
			f.Geometry = geom.NewPointFlat(geom.XY, []float64{p.Lng, p.Lat})
		case 1:
			f.Geometry = geom.NewLineStringFlat(geom.XY, []float64{p.Lng, p.Lat, q.Lng, q.Lat})
		case 2:
			f.Geometry, ok = geom.NewMultiPointFlat(geom.XY, []float64{p.Lng, p.Lat}), false
		case 3:
			f.Geometry, ok = nil, false
		}
		fs = append(fs, f)
		switch n {
		case 2:
			fs, ok = append(fs, f), false
		case 3:
			fs, ok = []*geojson.Feature{nil}, false
		}
	} else {
		ok = false
	}
	decoded := 0
	geojson.VerifHook_FeatureCollection_UnmarshalJSON = func(fc *geojson.FeatureCollection, data []byte) error {
		decoded++
		if failBody {
			return errBody
		}
		fc.Features = fs
		return nil
	}
	ok = sym.And(ok, !failBody)
	covers := 0
	geow.Cover = func(rc *s2.RegionCoverer, r *geow.Region, interior, norm bool) s2.CellUnion {
		covers++
		sym.Assert(!interior, "a geometry is covered from the outside")
		sym.Assert(sym.And(rc.MinLevel == want["min_level"], rc.MaxLevel == want["max_level"], rc.MaxCells == want["max_cells"]), "the covering has the levels and the number of cells asked for")
		sym.Assert(r.Kind == geow.Line && len(r.LL) == 2 && sym.And(p.Is(r.LL[0]), q.Is(r.LL[1])), "the geometry sent is covered")
		for i := sym.Choice("cells", 3); i > 0; i-- {
			cells = append(cells, someCell("cell", 3*i, 2))
		}
		return append(s2.CellUnion(nil), cells...)
	}
	r := &http.Request{Method: "POST", URL: &url.URL{Path: "/"}, Body: body{bytes.NewReader([]byte("{}"))}}
	r = mux.SetURLVars(r, vars)
	w := &writer{h: http.Header{}}
	point := len(fs) == 1 && fs[0] != nil
	if point {
		_, point = fs[0].Geometry.(*geom.Point)
	}
	if point {
		if l := want["min_level"]; odd == 0 {
			sym.Assume(sym.Or(l == 0, l == 3, l == 12, l == 30, sym.And(sym.Tier() > 0, l < 30)))
		}
		s2.VerifHook_Cell_Vertex = func(c s2.Cell, k int) s2.Point {
			cells = []s2.CellID{c.ID()}
			return s2.PointFromLatLng(corner(0, k))
		}
	}
	panicked, _ := sym.Catch(func() { s2tools.GeoJSONToCellHandler(w, r) })
	sym.Assert(!panicked, "no request makes the handler panic")
	if w.status != 200 {
		sym.Assert(sym.Or(!ok, signed), "a geometry is answered with its covering")
		sym.Assert(w.status == 400, "what can't be covered is a bad request")
		sym.Assert(len(*got) == 0, "a request that is refused is not answered")
		sym.Reach("refused")
		return
	}
	sym.Assert(ok, "what can't be covered is refused")
	sym.Assert(string(w.body) == "text" && len(*got) == 1 && w.at == "application/json", "the answer is the GeoJSON of cells")
	if point {
		sym.Assert(covers == 0 && len(cells) == 1, "a point is covered by one cell")
		c, l := cells[0], want["min_level"]
		sym.Assert(sym.And(geow.Valid(c), geow.Contains(c, p.Leaf)), "a point is covered by a cell that contains it")
		sym.Assert(uint64(c)&-uint64(c) == uint64(1)<<uint(2*(30-l)), "a point is covered by a cell of the lowest level asked for")
		displayed((*got)[0], cells, func(i int) int { return l })
		sym.Reach("point")
		return
	}
	sym.Assert(covers == 1, "a line is covered")
	displayed((*got)[0], cells, func(i int) int { return cells[i].Level() })
	sym.Reach("covered")
}

// CoverShape: a polygon is answered with the covering of its inside, and one that is none is refused.
func CoverShape() {
	var cells []s2.CellID
	got := install(&cells)
	var c []float64
	var ends []int
	var ring *geow.Ring
	switch k := sym.Choice("outline", 4); k {
	case 0, 1, 2:
		// closed outlines of one to three positions: only the last one has an inside
		ring = geow.NewRing("v", 3)
		for _, v := range ring.V[:k+1] {
			c = append(c, v.Lng, v.Lat)
		}
		c = append(c, c[0], c[1])
		ends = []int{len(c)}
		if k == 2 && sym.Choice("hole", 2) == 1 {
			c = append(c, c...)
			ends = append(ends, len(c))
		}
		if k != 2 {
			ring = nil
		}
	}
	f := &geojson.Feature{Geometry: geom.NewPolygonFlat(geom.XY, c, ends)}
	geojson.VerifHook_FeatureCollection_UnmarshalJSON = func(fc *geojson.FeatureCollection, data []byte) error {
		fc.Features = []*geojson.Feature{f}
		return nil
	}
	covers := 0
	geow.Cover = func(rc *s2.RegionCoverer, r *geow.Region, interior, norm bool) s2.CellUnion {
		covers++
		sym.Assert(!interior, "a geometry is covered from the outside")
		sym.Assert(rc.MinLevel == 1 && rc.MaxLevel == 12 && rc.MaxCells == 3, "the covering has the levels and the number of cells asked for")
		sym.Assert(ring != nil && r.Kind == geow.Loop, "the polygon sent is covered")
		at, _ := geow.Find(r.Loop)
		sym.Assert(at == ring, "the polygon sent is covered")
		sym.Assert(geow.IsSmall(r.Loop), "the inside of a polygon is covered, not its outside")
		for i := sym.Choice("cells", 3); i > 0; i-- {
			cells = append(cells, someCell("cell", 3*i, 2))
		}
		return append(s2.CellUnion(nil), cells...)
	}
	r := &http.Request{Method: "POST", URL: &url.URL{Path: "/"}, Body: body{bytes.NewReader([]byte("{}"))}}
	r = mux.SetURLVars(r, map[string]string{"min_level": "1", "max_level": "12", "max_cells": "3"})
	w := &writer{h: http.Header{}}
	panicked, _ := sym.Catch(func() { s2tools.GeoJSONToCellHandler(w, r) })
	sym.Assert(!panicked, "no request makes the handler panic")
	if ring == nil {
		sym.Assert(covers == 0 && len(*got) == 0, "a request that is refused is not answered")
		sym.Assert(w.status == 400, "what can't be covered is a bad request")
		sym.Reach("refused")
		return
	}
	sym.Assert(w.status == 200 && covers == 1, "a polygon is answered with its covering")
	sym.Assert(string(w.body) == "text" && len(*got) == 1 && w.at == "application/json", "the answer is the GeoJSON of cells")
	displayed((*got)[0], cells, func(i int) int { return cells[i].Level() })
	sym.Reach("covered")
}
