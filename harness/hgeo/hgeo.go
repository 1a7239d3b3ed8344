// Package hgeo holds the properties of geometries and their covers.
package hgeo

import (
	"errors"
	"math"
	"strings"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"
	spb "github.com/golang/protobuf/ptypes/struct"
	geom "github.com/twpayne/go-geom"
	"github.com/twpayne/go-geom/encoding/geojson"

	"oureaverif/env"
	"oureaverif/geow"
	"oureaverif/sym"
)

func quick(q, t int) int {
	if sym.Tier() > 0 {
		return t
	}
	return q
}

func bitsEq(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

func same(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, bitsEq(a[i], b[i]))
	}
	return ok
}

func clone(c []float64) []float64 { return append([]float64{}, c...) }

func flatten(ps []geow.Pos) (c []float64) {
	for _, p := range ps {
		c = append(c, p.Lng, p.Lat)
	}
	return
}

// outline is the coordinates of the ring, closed or not.
func outline(r *geow.Ring, closed bool) []float64 {
	c := flatten(r.V)
	if closed {
		c = append(c, c[0], c[1])
	}
	return c
}

func data(t geodata.Geometry_Type, c []float64) *geodata.GeoData {
	return &geodata.GeoData{Geometry: &geodata.Geometry{Type: t, Coordinates: c}}
}

func start() {
	env.Reset()
	geow.Install()
	geojson.VerifHook_FeatureCollection_MarshalJSON = nil
	geojson.VerifHook_Feature_MarshalJSON = nil
}

// answer is an arbitrary covering of up to max cells within the levels of the coverer; unless it is
// normalised, which forgets about the least level.
func answer(rc *s2.RegionCoverer, norm bool, max int) s2.CellUnion {
	lo, hi := rc.MinLevel, rc.MaxLevel
	if norm {
		lo = 0
	}
	var cu s2.CellUnion
	for n := sym.Choice("cells", max+1); n > 0; n-- {
		c := geow.WildCell("cell")
		l := uint64(c) & -uint64(c)
		sym.Assume(sym.And(l >= geow.Lsb(hi), l <= geow.Lsb(lo)))
		if len(cu) > 0 {
			sym.Assume(uint64(cu[len(cu)-1]) < uint64(c))
		}
		cu = append(cu, c)
	}
	return cu
}

// call is a covering that was asked for and what was answered.
type call struct {
	rc       s2.RegionCoverer
	r        *geow.Region
	interior bool
	small    bool // of loops
	answer   s2.CellUnion
}

// record answers every covering and remembers it.
func record(calls *[]call, max int) {
	geow.Cover = func(rc *s2.RegionCoverer, r *geow.Region, interior, norm bool) s2.CellUnion {
		sym.Assert(rc.MinLevel >= 0 && rc.MaxLevel <= 30, "the levels are the ones asked for")
		c := call{*rc, r, interior, false, answer(rc, norm, max)}
		if r.Kind == geow.Loop {
			c.small = geow.IsSmall(r.Loop)
		}
		*calls = append(*calls, c)
		return append(s2.CellUnion{}, c.answer...)
	}
}

func cover(gd *geodata.GeoData, rc *s2.RegionCoverer, interior bool) (s2.CellUnion, error) {
	if interior {
		return gd.InteriorCover(rc)
	}
	if sym.Choice("deprecated", 2) == 1 {
		return geodata.GeoDataToCoverCellUnion(gd, rc)
	}
	return gd.Cover(rc)
}

func coverer() *s2.RegionCoverer {
	return []*s2.RegionCoverer{
		{MinLevel: 5, MaxLevel: 13, MaxCells: 8},
		{MinLevel: 16, MaxLevel: 16, LevelMod: 1, MaxCells: 0},
		{MinLevel: 0, MaxLevel: 30, LevelMod: 3, MaxCells: 20},
	}[sym.Choice("coverer", 3)]
}

// set asserts that the two unions have the same cells.
func set(what string, a, b s2.CellUnion) {
	sub := func(a, b s2.CellUnion) bool {
		ok := true
		for _, x := range a {
			in := false
			for _, y := range b {
				in = sym.Or(in, x == y)
			}
			ok = sym.And(ok, in)
		}
		return ok
	}
	sym.Assert(sub(a, b), what+": every cell of the covering is in the cover")
	sym.Assert(sub(b, a), what+": nothing but the covering is in the cover")
}

func inLevels(cu s2.CellUnion, rc *s2.RegionCoverer) {
	ok := true
	for _, c := range cu {
		l := uint64(c) & -uint64(c)
		ok = sym.And(ok, geow.Valid(c), l >= geow.Lsb(rc.MaxLevel), l <= geow.Lsb(rc.MinLevel))
	}
	sym.Assert(ok, "the cells of a cover are within the levels asked for")
}

// CoverPoint: a point is covered by the cell of the least level it lies in.
func CoverPoint() {
	start()
	p := geow.NewPos("p")
	min := []int{0, 13, 30, 31, 100, -1}[sym.Choice("min", 6)]
	lev := min
	if lev > 30 {
		lev = 30
	}
	if lev < 0 {
		lev = 0
	}
	c := flatten([]geow.Pos{p})
	for n := sym.Choice("more", 2); n > 0; n-- {
		c = append(c, sym.Float64("altitude"))
	}
	cu, err := cover(data(geodata.Geometry_POINT, c), &s2.RegionCoverer{MinLevel: min, MaxLevel: 30, MaxCells: 8}, sym.Choice("interior", 2) == 1)
	sym.Assert(err == nil && len(cu) == 1, "a point is covered by one cell")
	sym.Assert(cu[0] == geow.Parent(p.Leaf, lev), "a point is covered by the cell it lies in")
	sym.Reach("end")
}

// CoverLine: a line is covered by the coverer's covering of its positions in order.
func CoverLine() {
	start()
	var ps []geow.Pos
	for n := []int{1, 2, 3, 20, 4, 5}[sym.Choice("n", quick(4, 6))]; n > 0; n-- {
		ps = append(ps, geow.NewPos("p"))
	}
	var calls []call
	record(&calls, 2)
	rc := coverer()
	want := *rc
	interior := sym.Choice("interior", 2) == 1
	cu, err := cover(data(geodata.Geometry_LINESTRING, flatten(ps)), rc, interior)
	sym.Assert(err == nil, "a line is covered")
	sym.Assert(len(calls) == 1 && calls[0].r.Kind == geow.Line && len(calls[0].r.LL) == len(ps), "the line that is covered is the one given")
	ok, rev := true, true
	for i, p := range ps {
		ok = sym.And(ok, p.Is(calls[0].r.LL[i]))
		rev = sym.And(rev, p.Is(calls[0].r.LL[len(ps)-1-i]))
	}
	sym.Assert(sym.Or(ok, rev), "the line that is covered is the one given")
	sym.Assert(calls[0].rc == want && *rc == want, "the levels are the ones asked for")
	sym.Assert(calls[0].interior == interior, "the kind of covering is the one asked for")
	set("line", calls[0].answer, cu)
	inLevels(cu, rc)
	sym.Reach("end")
}

// CoverPolygon: a polygon is covered by the coverer's covering of the smaller side of its outline.
func CoverPolygon() {
	start()
	r := geow.NewRing("v", []int{3, 4, 16, 5}[sym.Choice("n", quick(3, 4))])
	var calls []call
	record(&calls, 2)
	rc := coverer()
	want := *rc
	interior := sym.Choice("interior", 2) == 1
	c := outline(r, sym.Choice("closed", 2) == 1)
	keep := clone(c)
	cu, err := cover(data(geodata.Geometry_POLYGON, c), rc, interior)
	sym.Assert(err == nil, "a polygon is covered")
	sym.Assert(len(calls) == 1 && calls[0].r.Kind == geow.Loop, "the polygon that is covered is the one given")
	sym.Assert(calls[0].small, "the inside of a polygon is covered, not its outside")
	sym.Assert(calls[0].rc == want && *rc == want, "the levels are the ones asked for")
	sym.Assert(calls[0].interior == interior, "the kind of covering is the one asked for")
	sym.Assert(same(c, keep), "covering leaves the geometry as it is")
	set("polygon", calls[0].answer, cu)
	inLevels(cu, rc)
	sym.Reach("end")
}

// CoverMulti: a multipolygon is covered by the coverings of all its polygons.
func CoverMulti() {
	start()
	gd := data(geodata.Geometry_MULTIPOLYGON, nil)
	n := sym.Choice("n", 3)
	var rings []*geow.Ring
	for i := 0; i < n; i++ {
		r := geow.NewRing("v", 3+i)
		rings = append(rings, r)
		gd.Geometry.Geometries = append(gd.Geometry.Geometries, &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: outline(r, i == 0)})
	}
	var calls []call
	record(&calls, 1)
	rc := &s2.RegionCoverer{MinLevel: 5, MaxLevel: 13, MaxCells: 8}
	want := *rc
	interior := sym.Choice("interior", 2) == 1
	var cu s2.CellUnion
	var err error
	if interior {
		cu, err = gd.InteriorCover(rc)
	} else {
		cu, err = gd.Cover(rc)
	}
	sym.Assert(err == nil, "a multipolygon is covered")
	sym.Assert(len(calls) == n, "every polygon of a multipolygon is covered once")
	var all s2.CellUnion
	for _, c := range calls {
		sym.Assert(c.r.Kind == geow.Loop && c.small, "the inside of a polygon is covered, not its outside")
		sym.Assert(c.rc == want && *rc == want, "the levels are the ones asked for")
		sym.Assert(c.interior == interior, "the kind of covering is the one asked for")
		all = append(all, c.answer...)
	}
	for _, r := range rings {
		in := 0
		for _, c := range calls {
			if x, _ := geow.Find(c.r.Loop); x == r {
				in++
			}
		}
		sym.Assert(in == 1, "every polygon of a multipolygon is covered once")
	}
	set("multipolygon", all, cu)
	inLevels(cu, rc)
	sym.Reach("end")
}

// anyGeometry is a geometry of any kind with any number of coordinates.
func anyGeometry() (*geodata.GeoData, bool) {
	k := sym.Choice("kind", 8)
	if k == 0 {
		return nil, false
	}
	if k == 1 {
		return &geodata.GeoData{}, false
	}
	coords := func(max int) []float64 {
		var c []float64
		for n := sym.Choice("coordinates", max+1); n > 0; n-- {
			c = append(c, sym.Float64("c"))
		}
		return c
	}
	switch k {
	case 2:
		c := coords(3)
		return data(geodata.Geometry_POINT, c), len(c) >= 2
	case 3:
		c := coords(5)
		return data(geodata.Geometry_LINESTRING, c), len(c)%2 == 0
	case 4, 5:
		// an outline with some coordinates missing
		r := geow.NewRing("v", 3+sym.Choice("n", 2))
		r.Bad = sym.Choice("bad", 3)
		c := outline(r, sym.Choice("closed", 2) == 1)
		cut := []int{0, 1, 3, 5, len(c)}[sym.Choice("cut", 5)]
		if cut > len(c) {
			cut = len(c)
		}
		c = c[:len(c)-cut]
		// what is left of the outline
		if cut > 0 && len(c) >= 6 && len(c)%2 == 0 {
			sym.Assume(false)
		}
		ok := cut == 0 && r.Bad == 0
		if k == 4 {
			return data(geodata.Geometry_POLYGON, c), ok
		}
		gd := data(geodata.Geometry_MULTIPOLYGON, nil)
		gd.Geometry.Geometries = []*geodata.Geometry{{Type: geodata.Geometry_POLYGON, Coordinates: c}}
		if other := sym.Choice("other", 1+2*(4-len(r.V))); other > 0 {
			// a good one before or after it
			good := &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: outline(goodRing(), true)}
			gd.Geometry.Geometries = append(gd.Geometry.Geometries, good)
			if other == 1 {
				gd.Geometry.Geometries[0], gd.Geometry.Geometries[1] = good, gd.Geometry.Geometries[0]
			}
		}
		return gd, ok
	case 6:
		gd := data(geodata.Geometry_MULTIPOLYGON, coords(1))
		gd.Geometry.Geometries = []*geodata.Geometry{nil}
		if sym.Choice("other", 2) == 1 {
			good := &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: outline(goodRing(), true)}
			gd.Geometry.Geometries = []*geodata.Geometry{good, nil}
		}
		return gd, false
	}
	return data(geodata.Geometry_Type(4+sym.Choice("type", 2)), coords(2)), false
}

// goodRing is an outline of five vertices around the smaller side.
func goodRing() *geow.Ring {
	r := geow.NewRing("w", 5)
	r.Small, r.Origin = true, false
	return r
}

// Malformed: what is done with a malformed geometry fails with an error instead of a panic.
func Malformed() {
	start()
	gd, ok := anyGeometry()
	geow.Cover = func(rc *s2.RegionCoverer, r *geow.Region, interior, norm bool) s2.CellUnion {
		if gd.Geometry.Type != geodata.Geometry_MULTIPOLYGON || len(r.Loop.Vertices()) != 5 {
			return nil
		}
		return s2.CellUnion{geow.Cell("cell", rc.MaxLevel)}
	}
	hook := func(fs ...*geojson.Feature) ([]byte, error) {
		for _, f := range fs {
			if f.Geometry != nil {
				if _, err := geojson.VerifEncode(f.Geometry); err != nil {
					return nil, err
				}
			}
		}
		return nil, nil
	}
	geojson.VerifHook_FeatureCollection_MarshalJSON = func(fc *geojson.FeatureCollection) ([]byte, error) { return hook(fc.Features...) }
	geojson.VerifHook_Feature_MarshalJSON = func(f *geojson.Feature) ([]byte, error) { return hook(f) }
	f := sym.Choice("function", 6)
	var err error
	panicked, _ := sym.Catch(func() {
		switch f {
		case 0:
			_, err = gd.Cover(&s2.RegionCoverer{MinLevel: 5, MaxLevel: 13})
		case 1:
			_, err = gd.InteriorCover(&s2.RegionCoverer{MinLevel: 5, MaxLevel: 13})
		case 2:
			_, err = geodata.GeoDataToRect(gd)
		case 3:
			_, err = geodata.GeoDataToGeom(gd)
		case 4:
			_, err = geodata.ToGeoJSONFeatureCollection([]*geodata.GeoData{gd})
		case 5:
			_, err = geodata.PointsToGeoJSONPolyLines([]*geodata.GeoData{gd})
		}
	})
	sym.Assert(!panicked, "a malformed geometry does not panic")
	if f < 2 {
		sym.Assert(ok == (err == nil), "a geometry is covered if and only if it is well formed")
	}
	if !ok && f == 2 {
		sym.Assert(err != nil, "a malformed geometry has no bounds")
	}
	if gd.GetGeometry() == nil {
		sym.Assert(err != nil, "what has no geometry is refused")
	}
	sym.Reach("end")
}

// Bounds: the bounds of a geometry are the ones of its line or outline.
func Bounds() {
	start()
	switch sym.Choice("kind", 4) {
	case 0:
		var ps []geow.Pos
		for n := []int{1, 2, 3, 20, 4}[sym.Choice("n", quick(4, 5))]; n > 0; n-- {
			ps = append(ps, geow.NewPos("p"))
		}
		r, err := geodata.GeoDataToRect(data(geodata.Geometry_LINESTRING, flatten(ps)))
		sym.Assert(err == nil, "a line has bounds")
		// bounds of parts of the line, positions of it and unions of such may make them up: together
		// they have every segment, and nothing else
		segs, pos := geow.RegionOfRect(r).Parts()
		for _, ll := range pos {
			known := false
			for _, p := range ps {
				known = sym.Or(known, p.Is(ll))
			}
			sym.Assert(known, "the bounds are the ones of the line")
		}
		for i, p := range ps {
			in := false
			for _, ll := range pos {
				in = sym.Or(in, p.Is(ll))
			}
			if i > 0 {
				q := ps[i-1]
				in = sym.And(in, q.Is(p.LL()))
				for _, x := range segs {
					in = sym.Or(in, sym.And(q.Is(x[0]), p.Is(x[1])), sym.And(q.Is(x[1]), p.Is(x[0])))
				}
			}
			sym.Assert(in, "the bounds are the ones of the line")
		}
	case 1:
		ring := geow.NewRing("v", []int{3, 4, 16, 5}[sym.Choice("n", quick(3, 4))])
		c := outline(ring, sym.Choice("closed", 2) == 1)
		keep := clone(c)
		r, err := geodata.GeoDataToRect(data(geodata.Geometry_POLYGON, c))
		sym.Assert(same(c, keep), "bounding leaves the geometry as it is")
		if ring.Small && !ring.Origin {
			sym.Assert(err == nil, "a polygon has bounds")
		}
		if err == nil {
			g := geow.RegionOfRect(r)
			sym.Assert(g.Kind == geow.Loop, "the bounds are the ones of the polygon")
			geow.Find(g.Loop)
			if ring.Small {
				sym.Assert(geow.IsSmall(g.Loop), "the bounds are the ones of the inside")
			}
		}
	case 2:
		p := geow.NewPos("p")
		_, err := geodata.GeoDataToRect(data(geodata.Geometry_POINT, flatten([]geow.Pos{p})))
		sym.Assert(err != nil, "a point has no bounds")
	case 3:
		r := geow.NewRing("v", 3)
		gd := data(geodata.Geometry_MULTIPOLYGON, nil)
		gd.Geometry.Geometries = []*geodata.Geometry{{Type: geodata.Geometry_POLYGON, Coordinates: outline(r, true)}}
		_, err := geodata.GeoDataToRect(gd)
		sym.Assert(err != nil, "a multipolygon has no bounds")
	}
	sym.Reach("end")
}

func floats(name string, n int) (c []float64) {
	for ; n > 0; n-- {
		c = append(c, sym.Float64(name))
	}
	return
}

// array hands out parts of one array, each followed by the next one.
type array struct{ all, keep []float64 }

func (a *array) floats(name string, n int) []float64 {
	if a.all == nil {
		a.all = make([]float64, 0, 256)
	}
	i := len(a.all)
	a.all = append(a.all, floats(name, n)...)
	a.keep = append(a.keep, a.all[i:]...)
	return a.all[i:]
}

func (a *array) unchanged() bool { return same(a.all, a.keep) }

// first keeps the first two of every n.
func first(c []float64, n int) (r []float64) {
	for i := 0; i < len(c); i += n {
		r = append(r, c[i], c[i+1])
	}
	return
}

// Convert: converting a geometry keeps its type and the positions of its outline.
func Convert() {
	start()
	lay := []geom.Layout{geom.XY, geom.XYZ, geom.XYM, geom.XYZM}[sym.Choice("layout", 4)]
	d := lay.Stride()
	var g geom.T
	var want []float64
	var t geodata.Geometry_Type
	switch sym.Choice("kind", 4) {
	case 0:
		c := floats("c", d)
		g, want, t = geom.NewPointFlat(lay, c), first(c, d), geodata.Geometry_POINT
	case 1:
		c := floats("c", d*[]int{0, 1, 2, 3, 40}[sym.Choice("n", 5)])
		g, want, t = geom.NewLineStringFlat(lay, c), first(c, d), geodata.Geometry_LINESTRING
	case 2:
		n := sym.Choice("n", 3)
		if n > 0 {
			n += 2
		}
		outer := floats("c", d*n)
		c, ends := clone(outer), []int{len(outer)}
		if n == 0 && sym.Choice("none", 2) == 1 {
			ends = nil
		} else if sym.Choice("hole", 2) == 1 {
			c = append(c, floats("hole", d*3)...)
			ends = append(ends, len(c))
		}
		g, want, t = geom.NewPolygonFlat(lay, c, ends), first(outer, d), geodata.Geometry_POLYGON
	case 3:
		g = geom.NewMultiPointFlat(lay, floats("c", d))
		gd := &geodata.GeoData{}
		sym.Assert(geodata.GeomToGeoData(g, gd) != nil && gd.Geometry == nil, "an unsupported geometry is refused")
		sym.Assert(geodata.GeomToGeoData(nil, gd) != nil, "an unsupported geometry is refused")
		return
	}
	var gd geodata.GeoData
	var err error
	if before := sym.Choice("before", 4); before > 0 {
		// a GeoData that is used again
		gd = *data([]geodata.Geometry_Type{0, geodata.Geometry_POINT, geodata.Geometry_POLYGON, geodata.Geometry_MULTIPOLYGON}[before], []float64{1, 2, 3, 4, 5, 6, 7, 8})
		if before == 3 {
			gd.Geometry.Coordinates = nil
			gd.Geometry.Geometries = []*geodata.Geometry{{Type: geodata.Geometry_POLYGON, Coordinates: []float64{1, 2, 3, 4, 5, 6, 7, 8}}}
		}
	}
	if sym.Choice("feature", 2) == 1 {
		err = geodata.GeoJSONFeatureToGeoData(&geojson.Feature{Geometry: g}, &gd)
	} else {
		err = geodata.GeomToGeoData(g, &gd)
	}
	sym.Assert(err == nil && gd.Geometry != nil, "a geometry is converted")
	sym.Assert(gd.Geometry.Type == t, "converting keeps the type of a geometry")
	sym.Assert(same(gd.Geometry.Coordinates, want), "converting keeps the positions of a geometry")
	b, err := geodata.GeoDataToGeom(&gd)
	sym.Assert(err == nil && b != nil, "a geometry is converted back")
	same := sameGeom(b, t, want)
	sym.Assert(same, "converting back gives the same geometry")
	sym.Reach("end")
}

// sameGeom is the condition that g is a flat geometry of the type with one outline.
func sameGeom(g geom.T, t geodata.Geometry_Type, c []float64) bool {
	if g == nil || g.Layout() != geom.XY || g.Stride() != 2 {
		return false
	}
	switch g := g.(type) {
	case *geom.Point:
		return t == geodata.Geometry_POINT && same(g.FlatCoords(), c)
	case *geom.LineString:
		return t == geodata.Geometry_LINESTRING && same(g.FlatCoords(), c)
	case *geom.Polygon:
		return t == geodata.Geometry_POLYGON && len(g.Ends()) == 1 && g.Ends()[0] == len(c) && same(g.FlatCoords(), c)
	}
	return false
}

// value is an arbitrary property.
func value(name string) (in interface{}, is func(v *spb.Value) bool, out func(v interface{}) bool) {
	none := func(v *spb.Value) bool { return v == nil }
	num := func(f float64) (func(v *spb.Value) bool, func(v interface{}) bool) {
		return func(v *spb.Value) bool {
				x, ok := v.GetKind().(*spb.Value_NumberValue)
				return ok && bitsEq(x.NumberValue, f)
			}, func(v interface{}) bool {
				x, ok := v.(float64)
				return ok && bitsEq(x, f)
			}
	}
	switch sym.Choice(name+".kind", 6) {
	case 0:
		b := sym.Bool(name)
		return b, func(v *spb.Value) bool {
				x, ok := v.GetKind().(*spb.Value_BoolValue)
				return ok && x.BoolValue == b
			}, func(v interface{}) bool {
				x, ok := v.(bool)
				return ok && x == b
			}
	case 1:
		n := []int{-1, 0, 1, 1<<24 + 1, -1<<31 - 1, 1<<53 - 1, 1<<53 + 3, math.MaxInt64, math.MinInt64}[sym.Choice(name, 9)]
		is, out = num(float64(n))
		return n, is, out
	case 2:
		s := ""
		switch sym.Choice(name+".len", 3) {
		case 1:
			s = string(sym.Bytes(name, 2))
		case 2:
			s = strings.Repeat("text", 40) + string(sym.Bytes(name, 1))
		}
		return s, func(v *spb.Value) bool {
				x, ok := v.GetKind().(*spb.Value_StringValue)
				return ok && x.StringValue == s
			}, func(v interface{}) bool {
				x, ok := v.(string)
				return ok && x == s
			}
	case 3:
		f := sym.Float64(name)
		is, out = num(f)
		return f, is, out
	case 4:
		return nil, none, nil
	}
	return []int{1}, nil, nil
}

// Properties: the properties of a feature are kept, in both directions; others stay.
func Properties() {
	start()
	f := &geojson.Feature{Properties: map[string]interface{}{}}
	gd := &geodata.GeoData{}
	names := [][]string{{"a", "b"}, {"", "id"}, {"type", strings.Repeat("name ", 60)}}[sym.Choice("names", 3)]
	if sym.Choice("before", 2) == 1 {
		gd.Properties = map[string]*spb.Value{
			names[0]: {Kind: &spb.Value_StringValue{StringValue: "old"}},
			"z": {Kind: &spb.Value_StringValue{StringValue: "kept"}},
		}
	}
	before := len(gd.Properties)
	n := sym.Choice("n", 3)
	var is []func(*spb.Value) bool
	var out []func(interface{}) bool
	bad := false
	for i := 0; i < n; i++ {
		v, a, b := value(names[i])
		f.Properties[names[i]] = v
		is, out = append(is, a), append(out, b)
		bad = bad || a == nil
	}
	err := geodata.PropertiesToGeoData(f, gd)
	sym.Assert((err != nil) == bad, "properties are converted if and only if their types are supported")
	if err != nil {
		sym.Assert(len(gd.Properties) == before, "a failed conversion leaves the properties as they are")
		sym.Reach("refused")
		return
	}
	count := before
	for i := range is {
		v := gd.Properties[names[i]]
		if out[i] == nil {
			// nil is no property
			sym.Assert(before > 0 && i == 0 || v == nil, "a missing property is not made up")
			continue
		}
		sym.Assert(is[i](v), "a property is kept")
		if !(before > 0 && i == 0) {
			count++
		}
	}
	sym.Assert(len(gd.Properties) == count, "nothing but the properties is added")
	m := geodata.PropertiesToJSONMap(gd.Properties)
	for i := range is {
		if out[i] != nil {
			sym.Assert(out[i](m[names[i]]), "a property is kept on the way back")
		}
	}
	if before > 0 {
		sym.Assert(m["z"] == "kept", "other properties are kept")
	}
	sym.Assert(len(m) == count, "nothing but the properties is exported")
	gd.Properties = map[string]*spb.Value{"a": nil, "b": {}, "c": {Kind: &spb.Value_NullValue{}}}
	sym.Assert(len(geodata.PropertiesToJSONMap(gd.Properties)) == 0, "what is not set is not exported")
	sym.Reach("end")
}

var errJSON = errors.New("no JSON")

// Export: the GeoJSON of geometries has one feature each, in order, with their positions and properties.
func Export() {
	start()
	var gds []*geodata.GeoData
	var mem array
	var props []map[string]interface{}
	n := sym.Choice("n", quick(3, 4))
	for i := 0; i < n; i++ {
		var gd *geodata.GeoData
		switch k := sym.Choice("kind", 4); k {
		case 0:
			gd = data(geodata.Geometry_POINT, mem.floats("c", 2))
		case 1:
			gd = data(geodata.Geometry_LINESTRING, mem.floats("c", 4))
		case 2:
			gd = data(geodata.Geometry_POLYGON, mem.floats("c", 8))
		case 3:
			gd = data(geodata.Geometry_MULTIPOLYGON, nil)
			for j := sym.Choice("members", 3); j > 0; j-- {
				gd.Geometry.Geometries = append(gd.Geometry.Geometries, &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: mem.floats("c", 6+2*(j%2))})
			}
		}
		// no properties, none set, one of the geometry's own, or two with the same names as others
		p := map[string]interface{}{}
		switch sym.Choice("props", 4) {
		case 1:
			gd.Properties = map[string]*spb.Value{}
		case 2:
			x := string(rune('a' + i))
			gd.Properties = map[string]*spb.Value{x: {Kind: &spb.Value_NumberValue{NumberValue: float64(i)}}}
			p[x] = float64(i)
		case 3:
			gd.Properties = map[string]*spb.Value{"n": {Kind: &spb.Value_NumberValue{NumberValue: float64(i)}}, "b": {Kind: &spb.Value_BoolValue{BoolValue: i == 0}}}
			p["n"], p["b"] = float64(i), i == 0
		}
		props = append(props, p)
		gds = append(gds, gd)
	}
	fail := sym.Choice("fail", 2) == 1
	var got []*geojson.Feature
	calls := 0
	text := []byte("text")
	geojson.VerifHook_FeatureCollection_MarshalJSON = func(fc *geojson.FeatureCollection) ([]byte, error) {
		calls++
		got = fc.Features
		if fail {
			return nil, errJSON
		}
		return text, nil
	}
	b, err := geodata.ToGeoJSONFeatureCollection(gds)
	sym.Assert(calls == 1, "geometries are written as one collection")
	if fail {
		sym.Assert(err != nil, "a failure to write GeoJSON is reported")
		sym.Reach("failed")
		return
	}
	sym.Assert(err == nil && string(b) == "text", "the GeoJSON is returned")
	sym.Assert(len(got) == n, "every geometry becomes one feature")
	sym.Assert(mem.unchanged(), "exporting leaves the geometries as they are")
	for i, gd := range gds {
		f := got[i]
		ok := len(f.Properties) == len(props[i])
		for k, v := range props[i] {
			ok = ok && f.Properties[k] == v
		}
		sym.Assert(ok, "a feature has the properties of its geometry")
		if gd.Geometry.Type != geodata.Geometry_MULTIPOLYGON {
			sym.Assert(sameGeom(f.Geometry, gd.Geometry.Type, gd.Geometry.Coordinates), "a feature has the positions of its geometry")
			continue
		}
		mp, ok := f.Geometry.(*geom.MultiPolygon)
		sym.Assert(ok && mp.NumPolygons() == len(gd.Geometry.Geometries), "a feature has the polygons of its geometry")
		for j, m := range gd.Geometry.Geometries {
			sym.Assert(sameGeom(mp.Polygon(j), geodata.Geometry_POLYGON, m.Coordinates), "a feature has the positions of its geometry")
		}
	}
	sym.Reach("end")
}

// ExportLine: points become one line through their positions in order, with the properties of the first.
func ExportLine() {
	start()
	var gds []*geodata.GeoData
	var want []float64
	var mem array
	bad := false
	n := sym.Choice("n", quick(4, 5))
	for i := 0; i < n; i++ {
		c := mem.floats("c", 2)
		gd := data(geodata.Geometry_POINT, c)
		if sym.Choice("bad", 2) == 1 {
			gd.Geometry.Type, bad = geodata.Geometry_LINESTRING, true
		}
		want = append(want, c...)
		gd.Properties = map[string]*spb.Value{"i": {Kind: &spb.Value_NumberValue{NumberValue: float64(i)}}}
		gds = append(gds, gd)
	}
	if n > 1 && sym.Choice("order", 2) == 1 {
		// not the order of the array
		a, b := 0, n-1
		if n > 2 {
			a = 1
		}
		gds[a], gds[b] = gds[b], gds[a]
		for i := 0; i < 2; i++ {
			want[2*a+i], want[2*b+i] = want[2*b+i], want[2*a+i]
		}
		gds[a].Properties, gds[b].Properties = gds[b].Properties, gds[a].Properties
	}
	var got *geojson.Feature
	calls := 0
	geojson.VerifHook_Feature_MarshalJSON = func(f *geojson.Feature) ([]byte, error) {
		calls++
		got = f
		return []byte("text"), nil
	}
	b, err := geodata.PointsToGeoJSONPolyLines(gds)
	sym.Assert((err != nil) == bad, "points and nothing but points become a line")
	if bad {
		sym.Reach("refused")
		return
	}
	sym.Assert(calls == 1 && string(b) == "text", "the GeoJSON is returned")
	if n == 0 {
		sym.Assert(got.Geometry == nil, "no points become no line")
		return
	}
	sym.Assert(sameGeom(got.Geometry, geodata.Geometry_LINESTRING, want), "the line goes through the points in order")
	sym.Assert(len(got.Properties) == 1 && got.Properties["i"] == float64(0), "the line has the properties of the first point")
	sym.Assert(mem.unchanged(), "exporting leaves the points as they are")
	for i, gd := range gds {
		sym.Assert(same(gd.Geometry.Coordinates, want[2*i:2*i+2]), "exporting leaves the points as they are")
	}
	sym.Reach("end")
}
