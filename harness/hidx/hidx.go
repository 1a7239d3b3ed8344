// Package hidx holds the properties of the geo indexes.
package hidx

import (
	"math"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"

	"oureaverif/env"
	"oureaverif/geow"
	"oureaverif/kvm"
	"oureaverif/sym"
)

// want is an id that has to be in a result if and only if Cond holds.
type want struct {
	Cond bool
	ID   []byte
	T    int64
}

// entry is one cell or leaf an id was indexed under.
type entry struct {
	Cell s2.CellID
	T    int64
	ID   []byte
}

func quick(q, t int) int {
	if sym.Tier() > 0 {
		return t
	}
	return q
}

func u8(b bool) uint64 { return sym.Ite(b, 1, 0) }

// distinct removes what is in the list twice.
func distinct(es []entry, cond func(e entry) bool) []want {
	var ws []want
	for i, e := range es {
		c := cond(e)
		for _, p := range es[:i] {
			c = sym.And(c, !sym.And(p.Cell == e.Cell, p.T == e.T, sym.Eq(p.ID, e.ID)))
		}
		ws = append(ws, want{c, e.ID, e.T})
	}
	return ws
}

// all asserts that got has every wanted id, and nothing else.
func all(what string, got []index.GeoID, ws []want) {
	ok := true
	for _, w := range ws {
		in := false
		for _, g := range got {
			in = sym.Or(in, sym.Eq(g, w.ID))
		}
		ok = sym.And(ok, sym.Implies(w.Cond, in))
	}
	sym.Assert(ok, what+": everything that was indexed there is found")
	ok = true
	for _, g := range got {
		in := false
		for _, w := range ws {
			in = sym.Or(in, sym.And(w.Cond, sym.Eq(g, w.ID)))
		}
		ok = sym.And(ok, in)
	}
	sym.Assert(ok, what+": only what was indexed there is found")
}

// exact asserts that got has every wanted id, no id more often than it is wanted, and nothing else.
func exact(what string, got []index.GeoID, ws []want) {
	all(what, got, ws)
	ok := true
	for i, g := range got {
		var n, m uint64
		for _, h := range got[:i] {
			m += u8(sym.Eq(g, h))
		}
		for _, w := range ws {
			n += u8(sym.And(w.Cond, sym.Eq(g, w.ID)))
		}
		ok = sym.And(ok, m < n)
	}
	sym.Assert(ok, what+": nothing is found more often than it was indexed")
}

// set asserts that got is the set of the wanted ids, without duplicates.
func set(what string, got []index.GeoID, ws []want) {
	all(what, got, ws)
	ok := true
	for i, g := range got {
		for _, h := range got[:i] {
			ok = sym.And(ok, !sym.Eq(g, h))
		}
	}
	sym.Assert(ok, what+": nothing is found twice")
}

func newID(name string) []byte { return sym.Bytes(name, 1+sym.Choice(name+".len", 2)) }

// shortID is an id of one byte, in the thorough tier of one or two.
func shortID(name string) []byte {
	if sym.Tier() > 0 {
		return newID(name)
	}
	return sym.Bytes(name, 1)
}

func point(p geow.Pos) *geodata.GeoData {
	return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{p.Lng, p.Lat}}}
}

func line(ps ...geow.Pos) *geodata.GeoData {
	g := &geodata.Geometry{Type: geodata.Geometry_LINESTRING}
	for _, p := range ps {
		g.Coordinates = append(g.Coordinates, p.Lng, p.Lat)
	}
	return &geodata.GeoData{Geometry: g}
}

// cells is an arbitrary strictly increasing list of n cells of the level.
func cells(name string, n, level int) s2.CellUnion {
	var l s2.CellUnion
	for i := 0; i < n; i++ {
		c := geow.Cell(name, level)
		if i > 0 {
			sym.Assume(uint64(l[i-1]) < uint64(c))
		}
		l = append(l, c)
	}
	return l
}

// covering is what a coverer may answer for a region that touches exactly the cells t of the level.
func covering(rc *s2.RegionCoverer, t s2.CellUnion, level int, interior, norm bool) s2.CellUnion {
	if interior {
		return nil
	}
	lo, hi := rc.MinLevel, rc.MaxLevel
	if norm {
		lo = 0
	} else if lo == level && hi == level {
		return append(s2.CellUnion(nil), t...)
	}
	sym.Assume(sym.And(lo <= 30, hi <= 30, lo >= 0, hi >= 0))
	var res s2.CellUnion
	for _, x := range t {
		c := geow.WildCell("cover")
		l := uint64(c) & -uint64(c)
		sym.Assume(sym.And(sym.Or(geow.Contains(c, x), geow.Contains(x, c)), l >= geow.Lsb(hi), sym.Or(l <= geow.Lsb(lo), l <= geow.Lsb(hi))))
		res = append(res, c)
	}
	return res
}

// shape is an arbitrary geometry that touches the cells t of the level; installing its covering
// is left to the caller.
func shape(level, maxCells int) (*geodata.GeoData, s2.CellUnion) {
	n := sym.Choice("shape", 1+maxCells)
	if n == 0 {
		p := geow.NewPos("p")
		return point(p), s2.CellUnion{geow.Parent(p.Leaf, level)}
	}
	a, b := geow.NewPos("a"), geow.NewPos("b")
	t := cells("t", n, level)
	geow.Cover = func(rc *s2.RegionCoverer, r *geow.Region, interior, norm bool) s2.CellUnion {
		sym.Assert(r.Kind == geow.Line && len(r.LL) == 2 && a.Is(r.LL[0]) && b.Is(r.LL[1]), "the line that is covered is the one given")
		return covering(rc, t, level, interior, norm)
	}
	return line(a, b), t
}

type world struct {
	s      *kvm.Store
	prefix []byte
	level  int
}

// setup is a world with an index of one of the levels 30, 13 and 0 and keys with or without a prefix; in
// the thorough tier also of the levels 29 and 1, with and without a prefix.
func setup(maxPrefix int) *world {
	env.Reset()
	geow.Install()
	w := &world{s: &kvm.Store{}}
	n := sym.Choice("world", quick(3, 5))
	w.level = []int{30, 13, 0, 29, 1}[n]
	p := maxPrefix
	if n == 1 {
		p = 0
	}
	if sym.Tier() > 0 {
		p = sym.Choice("prefix.len", maxPrefix+1)
	}
	w.prefix = sym.Bytes("prefix", p)
	return w
}

func (w *world) flat() *index.S2FlatIdx   { return index.NewS2FlatIdx(w.s, env.Clone(w.prefix), w.level) }
func (w *world) point() *index.S2PointIdx { return index.NewS2PointIdx(w.s, env.Clone(w.prefix)) }
func (w *world) timed() *index.S2FlatTimeIdx {
	return index.NewS2FlatTimeIdx(w.s, env.Clone(w.prefix), w.level)
}

// instant is an arbitrary instant whose nanoseconds since 1970 fit an int64.
func instant(name string, top bool) (time.Time, int64) {
	if top && sym.Choice(name+".top", 2) == 1 {
		return index.MaxGeoTime, math.MaxInt64
	}
	t := sym.Time(name)
	return t, t.UnixNano()
}

// other is an arbitrary cell of another level.
func other(name string, level int) s2.CellID {
	q := s2.CellID(sym.Uint64(name))
	sym.Assume(sym.And(geow.Valid(q), uint64(q)&-uint64(q) != geow.Lsb(level)))
	return q
}

// FlatLookup: looking up a cell in the flat index gives exactly the ids indexed with a geometry that touches it.
func FlatLookup() {
	w := setup(1)
	idx := w.flat()
	var es []entry
	n := quick(2, 3)
	for i := 0; i < n; i++ {
		gd, t := shape(w.level, 2)
		id := newID("id")
		sym.Assert(idx.GeoIndex(gd, id) == nil, "a geometry with a covering is indexed")
		for _, c := range t {
			es = append(es, entry{c, 0, id})
		}
	}
	q := geow.Cell("query", w.level)
	got, err := idx.GeoIdsAtCell(q)
	sym.Assert(err == nil, "a cell of the level is looked up")
	set("flat lookup", got, distinct(es, func(e entry) bool { return e.Cell == q }))
	sym.ObsInt("found", uint64(len(got)))
	sym.Reach("end")
}

// OtherLevel: cells of another level than the index's are refused.
func OtherLevel() {
	w := setup(1)
	p := geow.NewPos("p")
	q := other("query", w.level)
	var got []index.GeoID
	var err error
	if sym.Choice("index", 2) == 0 {
		idx := w.flat()
		sym.Assert(idx.GeoIndex(point(p), newID("id")) == nil, "a point is indexed")
		if sym.Choice("many", 2) == 0 {
			got, err = idx.GeoIdsAtCell(q)
		} else {
			got, err = idx.GeoIdsAtCells([]s2.CellID{geow.Cell("good", w.level), q})
		}
	} else {
		idx := w.timed()
		at, _ := instant("t", true)
		from, _ := instant("from", true)
		to, _ := instant("to", false)
		sym.Assert(idx.GeoTimeIndex(point(p), at, newID("id")) == nil, "a point is indexed")
		if sym.Choice("many", 2) == 0 {
			got, err = idx.GeoTimeIdsAtCell(q, from, to)
		} else {
			got, err = idx.GeoTimeIdsAtCells([]s2.CellID{geow.Cell("good", w.level), q}, from, to)
		}
	}
	sym.Assert(err != nil && len(got) == 0, "a cell of another level is refused")
	sym.Reach("end")
}

// PointLookup: looking up a cell in the point index gives exactly the ids of the points in it.
func PointLookup() {
	w := setup(1)
	idx := w.point()
	var es []entry
	n := quick(3, 4)
	for i := 0; i < n; i++ {
		p := geow.NewPos("p")
		var id []byte
		if i == 0 {
			id = newID("id")
		} else {
			id = shortID("id")
		}
		var err error
		if i%2 == 0 {
			_, err = idx.PointIndex(p.Lat, p.Lng, id)
		} else {
			_, err = idx.GeoPointIndex(point(p), id)
		}
		sym.Assert(err == nil, "a point is indexed")
		es = append(es, entry{p.Leaf, 0, id})
	}
	q := geow.AnyCell("query")
	got, err := idx.GeoIdsAtCell(q)
	sym.Assert(err == nil, "a valid cell is looked up")
	exact("point lookup", got, distinct(es, func(e entry) bool { return geow.Contains(q, e.Cell) }))
	sym.ObsInt("found", uint64(len(got)))
	sym.Reach("end")
}

// TimeLookup: looking up a cell and a period in the time index gives exactly the ids indexed with a
// geometry that touches the cell and a time in the period, newest first.
func TimeLookup() {
	w := setup(1)
	idx := w.timed()
	var es []entry
	n := quick(2, 3)
	for i := 0; i < n; i++ {
		gd, t := shape(w.level, quick(1, 2))
		id := newID("id")
		at, ns := instant("t", i == 0)
		sym.Assert(idx.GeoTimeIndex(gd, at, id) == nil, "a geometry with a covering is indexed")
		for _, c := range t {
			es = append(es, entry{c, ns, id})
		}
	}
	q := geow.Cell("query", w.level)
	from, f := instant("from", true)
	to, u := instant("to", false)
	got, err := idx.GeoTimeIdsAtCell(q, from, to)
	sym.Assert(err == nil, "a cell of the level is looked up")
	ws := distinct(es, func(e entry) bool { return sym.And(e.Cell == q, e.T <= f, e.T > u) })
	exact("time lookup", got, ws)
	order := true
	for i := range got {
		for j := range got[:i] {
			ok := false
			for _, a := range ws {
				for _, b := range ws {
					ok = sym.Or(ok, sym.And(a.Cond, b.Cond, sym.Eq(a.ID, got[j]), sym.Eq(b.ID, got[i]), a.T >= b.T))
				}
			}
			order = sym.And(order, ok)
		}
	}
	sym.Assert(order, "time lookup: newer ids come first")
	sym.ObsInt("found", uint64(len(got)))
	sym.Reach("end")
}

// The kinds of indexes.
const (
	flat = iota
	pnt
	timed
	kinds
)

// any is one of the indexes behind one face.
type any struct {
	kind  int
	level int
	f     *index.S2FlatIdx
	p     *index.S2PointIdx
	t     *index.S2FlatTimeIdx
}

func (w *world) any(kind int, prefix []byte) *any { return w.on(kind, env.Clone(prefix)) }

// on is an index of the kind on the very prefix.
func (w *world) on(kind int, p []byte) *any {
	a := &any{kind: kind, level: w.level}
	switch kind {
	case flat:
		a.f = index.NewS2FlatIdx(w.s, p, w.level)
	case pnt:
		a.level = 30
		a.p = index.NewS2PointIdx(w.s, p)
	default:
		a.t = index.NewS2FlatTimeIdx(w.s, p, w.level)
	}
	return a
}

// add indexes a point at an arbitrary position and time.
func (a *any) add(id []byte) ([]entry, error) {
	p := geow.NewPos("p")
	switch a.kind {
	case flat:
		return []entry{{geow.Parent(p.Leaf, a.level), 0, id}}, a.f.GeoIndex(point(p), id)
	case pnt:
		_, err := a.p.PointIndex(p.Lat, p.Lng, id)
		return []entry{{p.Leaf, 0, id}}, err
	}
	at := sym.Time("t")
	return []entry{{geow.Parent(p.Leaf, a.level), at.UnixNano(), id}}, a.t.GeoTimeIndex(point(p), at, id)
}

// period is when a time index is asked for.
type period struct {
	from, to time.Time
	f, t     int64
}

func (a *any) period() (p period) {
	if a.kind == timed {
		p.from, p.f = instant("from", false)
		p.to, p.t = instant("to", false)
	}
	return
}

func (a *any) at(c s2.CellID, p period) ([]index.GeoID, error) {
	switch a.kind {
	case flat:
		return a.f.GeoIdsAtCell(c)
	case pnt:
		return a.p.GeoIdsAtCell(c)
	}
	return a.t.GeoTimeIdsAtCell(c, p.from, p.to)
}

func (a *any) many(cs []s2.CellID, p period) ([]index.GeoID, error) {
	switch a.kind {
	case flat:
		return a.f.GeoIdsAtCells(cs)
	case pnt:
		return a.p.GeoIdsAtCells(cs)
	}
	return a.t.GeoTimeIdsAtCells(cs, p.from, p.to)
}

// in is the condition that the entry belongs to what is found in the cell and the period.
func (a *any) in(e entry, c s2.CellID, p period) bool {
	switch a.kind {
	case flat:
		return e.Cell == c
	case pnt:
		return geow.Contains(c, e.Cell)
	}
	return sym.And(e.Cell == c, e.T <= p.f, e.T > p.t)
}

func (a *any) cell(name string) s2.CellID {
	if a.kind == pnt {
		return geow.Cell(name, []int{30, 12}[sym.Choice(name+".level", 2)])
	}
	return geow.Cell(name, a.level)
}

// Many: looking up several cells gives every id once.
func Many() {
	w := setup(1)
	a := w.any(sym.Choice("kind", kinds), w.prefix)
	var es []entry
	var ids [][]byte
	queries := sym.Choice("queries", 3+quick(0, 1))
	n := quick(2, 3)
	if queries == 2 {
		n = 3
	}
	for i := 0; i < n; i++ {
		id := shortID("id")
		if i == 2 {
			// in a second cell
			id = ids[0]
		}
		ids = append(ids, id)
		e, err := a.add(id)
		sym.Assert(err == nil, "a point is indexed")
		es = append(es, e...)
	}
	var qs []s2.CellID
	for n := queries; n > 0; n-- {
		qs = append(qs, a.cell("query"))
	}
	p := a.period()
	got, err := a.many(qs, p)
	sym.Assert(err == nil, "cells of the level are looked up")
	var ws []want
	for _, e := range es {
		c := false
		for _, q := range qs {
			c = sym.Or(c, a.in(e, q, p))
		}
		ws = append(ws, want{c, e.ID, e.T})
	}
	set("lookup of many cells", got, ws)
	sym.Reach("end")
}

// Region: the radius and rectangle queries of the flat and the time index give the ids in the cells of
// the index's level that cover the region asked for.
func Region() {
	w := setup(1)
	a := w.any(2*sym.Choice("kind", 2), w.prefix)
	var es []entry
	n := quick(2, 3)
	for i := 0; i < n; i++ {
		e, err := a.add(shortID("id"))
		sym.Assert(err == nil, "a point is indexed")
		es = append(es, e...)
	}
	t := cells("t", sym.Choice("covering", 3), w.level)
	rect := a.kind == timed && sym.Choice("rect", 2) == 1
	r := ask(rect)
	geow.Cover = func(rc *s2.RegionCoverer, g *geow.Region, interior, norm bool) s2.CellUnion {
		r.check(g)
		return covering(rc, t, w.level, interior, norm)
	}
	p := a.period()
	var got []index.GeoID
	var err error
	switch {
	case a.kind == flat:
		got, err = a.f.GeoIdsRadiusQuery(r.a.Lat, r.a.Lng, r.radius)
	case rect:
		got, err = a.t.GeoTimeIdsRectQuery(p.from, p.to, r.a.Lat, r.a.Lng, r.b.Lat, r.b.Lng)
	default:
		got, err = a.t.GeoTimeIdsRadiusQuery(p.from, p.to, r.a.Lat, r.a.Lng, r.radius)
	}
	sym.Assert(err == nil, "a region is asked for")
	var ws []want
	for _, e := range es {
		c := false
		for _, q := range t {
			c = sym.Or(c, a.in(e, q, p))
		}
		ws = append(ws, want{c, e.ID, e.T})
	}
	set("region query", got, ws)
	sym.Reach("end")
}

// request is a circle around a or a rectangle with the upper right a and the lower left b.
type request struct {
	rect   bool
	a, b   geow.Pos
	radius float64
}

func ask(rect bool) *request {
	r := &request{rect: rect, a: geow.NewPos("a")}
	if rect {
		r.b = geow.NewPos("b")
	} else {
		r.radius = []float64{1000, 150000, 25}[sym.Choice("radius", quick(2, 3))]
	}
	return r
}

// check asserts that g is what was asked for.
func (r *request) check(g *geow.Region) {
	if r.rect {
		sym.Assert(g.Kind == geow.Rect && len(g.LL) >= 2, "the rectangle asked for is covered")
		in := func(p geow.Pos) bool {
			c := false
			for _, l := range g.LL {
				c = sym.Or(c, p.Is(l))
			}
			return c
		}
		ok := sym.And(in(r.a), in(r.b))
		for _, l := range g.LL {
			ok = sym.And(ok, sym.Or(r.a.Is(l), r.b.Is(l)))
		}
		sym.Assert(ok, "the rectangle asked for is covered")
		return
	}
	sym.Assert(g.Kind == geow.Cap, "the circle asked for is covered")
	sym.Assert(r.a.Is(g.Center), "the circle covered is around the position asked for")
	angle := r.radius / 6378137
	want := math.Pi * angle * angle
	sym.Assert(g.Area > want*0.999 && g.Area < want*1.001, "the circle covered has the radius asked for")
}

// PointRegion: the radius and rectangle queries of the point index give the ids of the points inside.
func PointRegion() {
	w := setup(1)
	idx := w.point()
	var es []entry
	covering := sym.Choice("covering", 3)
	n := quick(2, 3)
	if covering == 1 {
		n = 3
	}
	for i := 0; i < n; i++ {
		p := geow.NewPos("p")
		id := shortID("id")
		_, err := idx.PointIndex(p.Lat, p.Lng, id)
		sym.Assert(err == nil, "a point is indexed")
		es = append(es, entry{p.Leaf, 0, id})
	}
	r := ask(sym.Choice("rect", 2) == 1)
	var asked *geow.Region
	geow.Cover = func(rc *s2.RegionCoverer, g *geow.Region, interior, norm bool) s2.CellUnion {
		asked = g
		sym.Assert(rc.MinLevel <= 30 && rc.MaxLevel <= 30 && rc.MinLevel >= 0 && rc.MaxLevel >= 0, "the coverer has valid levels")
		var cu s2.CellUnion
		for n := covering; n > 0; n-- {
			lev := rc.MaxLevel
			if sym.Choice("coarse", 2) == 1 {
				lev = rc.MinLevel
			}
			c := geow.Cell("cover", lev)
			if len(cu) > 0 {
				d := cu[len(cu)-1]
				sym.Assume(sym.And(uint64(d) < uint64(c), !geow.Contains(c, d), !geow.Contains(d, c)))
			}
			cu = append(cu, c)
		}
		for _, e := range es {
			in := false
			for _, c := range cu {
				in = sym.Or(in, geow.Contains(c, e.Cell))
			}
			if interior {
				sym.Assume(sym.Implies(in, geow.Inside(0, e.Cell)))
			} else {
				sym.Assume(sym.Implies(geow.Inside(g.ID, e.Cell), in))
			}
		}
		return cu
	}
	var got []index.GeoID
	var err error
	if r.rect {
		got, err = idx.GeoIdsRectQuery(r.a.Lat, r.a.Lng, r.b.Lat, r.b.Lng)
	} else {
		got, err = idx.GeoIdsRadiusQuery(r.a.Lat, r.a.Lng, r.radius)
	}
	sym.Assert(err == nil, "a region is asked for")
	sym.Assert(asked != nil, "the region asked for is covered")
	r.check(asked)
	exact("region query", got, distinct(es, func(e entry) bool { return geow.Inside(asked.ID, e.Cell) }))
	sym.Reach("end")
}

// Isolation: indexes with different prefixes in one store do not see each other.
func Isolation() {
	w := setup(0)
	n := sym.Choice("kinds", kinds*kinds)
	la := 1 + sym.Choice("a.len", 2)
	lb := 1 + sym.Choice("b.len", 2)
	pa, pb := sym.Bytes("a", la), sym.Bytes("b", lb)
	sym.Assume(!sym.Or(sym.HasPrefix(pa, pb), sym.HasPrefix(pb, pa)))
	// the prefixes are parts of one array, in either order
	names := make([]byte, 16)
	na, nb := names[:la], names[la:la+lb]
	if sym.Choice("order", 2) == 1 {
		nb, na = names[:lb], names[lb:lb+la]
	}
	copy(na, pa)
	copy(nb, pb)
	a, b := w.on(n/kinds, na), w.on(n%kinds, nb)
	var es []entry
	for i := 0; i < 2; i++ {
		x := a
		if i == 1 {
			x = b
		}
		e, err := x.add(shortID("id"))
		sym.Assert(err == nil, "a point is indexed")
		if i == 0 {
			es = e
		}
	}
	q := a.cell("query")
	p := a.period()
	var got []index.GeoID
	var err error
	switch sym.Choice("ask", 3) {
	case 0:
		got, err = a.at(q, p)
	case 1:
		got, err = a.many([]s2.CellID{q, q}, p)
	default:
		geow.Cover = func(rc *s2.RegionCoverer, g *geow.Region, interior, norm bool) s2.CellUnion {
			if a.kind == pnt {
				// everything in the cell is inside
				for _, e := range es {
					sym.Assume(geow.Contains(q, e.Cell) == geow.Inside(g.ID, e.Cell))
				}
			}
			return s2.CellUnion{q}
		}
		at := geow.NewPos("a")
		switch a.kind {
		case flat:
			got, err = a.f.GeoIdsRadiusQuery(at.Lat, at.Lng, 1000)
		case pnt:
			got, err = a.p.GeoIdsRadiusQuery(at.Lat, at.Lng, 1000)
		default:
			got, err = a.t.GeoTimeIdsRadiusQuery(p.from, p.to, at.Lat, at.Lng, 1000)
		}
	}
	sym.Assert(err == nil, "a cell is looked up")
	exact("lookup beside another index", got, distinct(es, func(e entry) bool { return a.in(e, q, p) }))
	sym.Reach("end")
}

// Atomic: an object is indexed under all its cells or the failure is reported and nothing is.
func Atomic() {
	w := setup(1)
	a := w.any(sym.Choice("kind", kinds), w.prefix)
	env.Faults(1, "writer", "newbatchex", "execute", "reader", "get")
	id := newID("id")
	var err error
	var want []s2.CellID
	if a.kind == pnt {
		var e []entry
		e, err = a.add(id)
		want = []s2.CellID{e[0].Cell}
	} else {
		p1, p2 := geow.NewPos("a"), geow.NewPos("b")
		size := []int{0, 1, 2, 3, 5, 9, 17, 40, 130, 520, 1100}[sym.Choice("covering", quick(10, 11))]
		sym.Assume(size < 4 || w.level > 5)
		var t s2.CellUnion
		if size < 4 {
			t = cells("t", size, w.level)
		} else {
			c := s2.CellIDFromFace(3).ChildBeginAtLevel(w.level)
			for ; len(t) < size; c = c.Next() {
				t = append(t, c)
			}
		}
		geow.Cover = func(rc *s2.RegionCoverer, g *geow.Region, interior, norm bool) s2.CellUnion {
			return covering(rc, t, w.level, interior, norm)
		}
		gd := line(p1, p2)
		bad := sym.Choice("malformed", 3)
		if bad == 1 {
			gd.Geometry = nil
		} else if bad == 2 {
			gd.Geometry.Coordinates = gd.Geometry.Coordinates[:3]
		}
		if a.kind == flat {
			err = a.f.GeoIndex(gd, id)
		} else {
			err = a.t.GeoTimeIndex(gd, sym.Time("t"), id)
		}
		want = t
		sym.Assert(sym.Implies(bad != 0 || len(t) == 0, err != nil), "an object without a cover is refused")
	}
	sym.Assert(w.s.Batches == 0, "batches are given back")
	// whatever failed: it is reported and nothing is there, or everything is
	if err != nil {
		sym.Assert(len(w.s.Log) == 0, "a failed indexing leaves nothing behind")
		sym.Reach("failed")
		return
	}
	env.Faults(0)
	for i, c := range want {
		if len(want) > 3 && i != 0 && i != len(want)-1 {
			continue
		}
		p := period{}
		if a.kind == timed {
			p.from, p.to = index.MaxGeoTime, time.Unix(0, math.MinInt64)
		}
		got, err := a.at(c, p)
		ok := err == nil && len(got) == 1
		sym.Assert(ok || a.kind == timed, "an indexed object is found under every cell")
		if ok {
			sym.Assert(sym.Eq(got[0], id), "an indexed object is found under every cell")
		}
	}
	sym.Assert(len(w.s.Log) == len(want), "an object is indexed once per cell")
	sym.Reach("indexed")
}

// Release: queries give back what they took from the store and report when they cannot read.
func Release() {
	w := setup(1)
	kind := sym.Choice("kind", kinds)
	a := w.any(kind, w.prefix)
	_, err := a.add(shortID("id"))
	sym.Assert(err == nil, "a point is indexed")
	r := ask(false)
	geow.Cover = func(rc *s2.RegionCoverer, g *geow.Region, interior, norm bool) s2.CellUnion {
		return cells("t", 2, rc.MaxLevel)
	}
	p := a.period()
	// a key that is none of the index's
	foreign := sym.Choice("foreign", 2) == 1
	q := a.cell("query")
	if foreign {
		k := append(env.Clone(w.prefix), byte(q>>56), byte(q>>48), byte(q>>40), byte(q>>32), byte(q>>24), byte(q>>16), byte(q>>8), byte(q))
		if kind == pnt {
			k = k[:len(w.prefix)+7]
		}
		w.s.Set(k, nil)
	}
	env.Faults(1, "reader")
	switch n := sym.Choice("query", 4); {
	case n == 0:
		_, err = a.at(q, p)
	case n == 1:
		_, err = a.many([]s2.CellID{q, a.cell("query")}, p)
	case n == 2 && kind == flat:
		_, err = a.f.GeoIdsRadiusQuery(r.a.Lat, r.a.Lng, r.radius)
	case n == 2 && kind == pnt:
		_, err = a.p.GeoIdsRadiusQuery(r.a.Lat, r.a.Lng, r.radius)
	case n == 2:
		_, err = a.t.GeoTimeIdsRadiusQuery(p.from, p.to, r.a.Lat, r.a.Lng, r.radius)
	case kind == pnt:
		_, err = a.p.GeoIdsRectQuery(r.a.Lat, r.a.Lng, r.a.Lat, r.a.Lng)
	case kind == timed:
		_, err = a.t.GeoTimeIdsRectQuery(p.from, p.to, r.a.Lat, r.a.Lng, r.a.Lat, r.a.Lng)
	}
	sym.Assert(w.s.Readers == 0, "readers are given back")
	sym.Assert(w.s.Iters == 0, "iterators are given back")
	if env.Injected > 0 {
		sym.Assert(err != nil, "a failure to read is reported")
		sym.Reach("failed")
	}
	sym.Reach("end")
}

// PointKeys: the key returned for a point is the one it is stored under; removing it removes the point.
func PointKeys() {
	w := setup(1)
	idx := w.point()
	p, o := geow.NewPos("p"), geow.NewPos("o")
	id, oid := newID("id"), newID("other")
	sym.Assume(!sym.And(p.Leaf == o.Leaf, sym.Eq(id, oid)))
	var k []byte
	var err error
	if sym.Choice("via", 2) == 0 {
		k, err = idx.PointIndex(p.Lat, p.Lng, env.Clone(id))
	} else {
		k, err = idx.GeoPointIndex(point(p), env.Clone(id))
	}
	sym.Assert(err == nil, "a point is indexed")
	_, err = idx.PointIndex(o.Lat, o.Lng, oid)
	sym.Assert(err == nil, "a point is indexed")
	buf := env.Clone(id)
	k1 := idx.PointKey(p.Lat, p.Lng, buf)
	k2, err := idx.GeoPointKey(point(p), buf)
	sym.Assert(err == nil, "the key of a point is computed")
	env.Poison(buf)
	if n := sym.Choice("odd", 6); n > 0 {
		// geometries that are none, or no point, or have a third coordinate
		gd := []*geodata.GeoData{nil, {}, point(p), point(p), line(p), point(p)}[n]
		switch n {
		case 2:
			gd.Geometry.Coordinates = gd.Geometry.Coordinates[:1]
		case 3:
			gd.Geometry.Coordinates = nil
		case 5:
			gd.Geometry.Coordinates = append(gd.Geometry.Coordinates, sym.Float64("height"))
		}
		var k3 []byte
		panicked, _ := sym.Catch(func() { k3, err = idx.GeoPointKey(gd, env.Clone(id)) })
		sym.Assert(!panicked, "the key of a geometry never panics")
		if n == 5 {
			sym.Assert(err == nil && sym.Eq(k, k3), "the key of a point does not depend on its height")
		} else {
			sym.Assert(err != nil, "what is no point has no key")
		}
	}
	sym.Assert(sym.And(sym.Eq(k, k1), sym.Eq(k, k2)), "all ways to the key of a point give the same")
	rd, err := idx.Reader()
	sym.Assert(err == nil, "the store is read")
	it := rd.RangeIterator(k, append(env.Clone(k), 0))
	sym.Assert(it.Valid(), "a point is stored under its key")
	it.Close()
	rd.Close()
	wr, err := idx.Writer()
	sym.Assert(err == nil, "the store is written")
	b := wr.NewBatch()
	b.Delete(k)
	sym.Assert(wr.ExecuteBatch(b) == nil, "the key is deleted")
	b.Close()
	got, err := idx.GeoIdsAtCell(p.Leaf)
	sym.Assert(err == nil, "a cell is looked up")
	exact("lookup after the removal", got, []want{{o.Leaf == p.Leaf, oid, 0}})
	sym.Reach("end")
}

// number is the three byte id of the i-th object of a crowd.
func number(i int) []byte { return []byte{byte(i >> 8), byte(i), 7} }

// crowd counts the ids of numbered objects in got, and asserts that the rest is the one wanted.
func crowd(what string, got []index.GeoID, n int, rest []want) {
	seen := make([]int, n)
	var others []index.GeoID
	bad := false
	for _, g := range got {
		if len(g) != 3 || g[0] == 0xff {
			others = append(others, g)
			continue
		}
		k := int(g[0])<<8 | int(g[1])
		if k >= n || g[2] != 7 {
			bad = true
			continue
		}
		seen[k]++
	}
	for _, s := range seen {
		if s != 1 {
			bad = true
		}
	}
	sym.Assert(!bad, what+": each of many ids is found once")
	exact(what, others, rest)
}

// Crowd: lookups and regions give all of many ids at one place, also with a long one among them.
func Crowd() {
	w := setup(1)
	a := w.any(sym.Choice("kind", kinds), w.prefix)
	n := []int{20, 300, 1100}[sym.Choice("n", quick(2, 3))]
	p := geow.NewPos("p")
	at := sym.Time("t")
	put := func(id []byte) {
		var err error
		switch a.kind {
		case flat:
			err = a.f.GeoIndex(point(p), id)
		case pnt:
			_, err = a.p.PointIndex(p.Lat, p.Lng, id)
		default:
			err = a.t.GeoTimeIndex(point(p), at, id)
		}
		sym.Assert(err == nil, "a point is indexed")
	}
	for i := 0; i < n; i++ {
		put(number(i))
	}
	last := append([]byte{0xff}, sym.Bytes("id", 2)...)
	long := make([]byte, 300)
	for i := range long {
		long[i] = 0xfe
	}
	long[299] = sym.Byte("long")
	put(last)
	put(long)
	here := geow.Parent(p.Leaf, a.level)
	es := []entry{{here, at.UnixNano(), last}, {here, at.UnixNano(), long}}
	q := here
	if a.kind == pnt {
		q = geow.Parent(p.Leaf, []int{30, 12}[sym.Choice("level", 2)])
	}
	per := a.period()
	sym.Assume(sym.Or(a.kind != timed, sym.And(at.UnixNano() <= per.f, at.UnixNano() > per.t)))
	var got []index.GeoID
	var err error
	switch sym.Choice("ask", 3) {
	case 0:
		got, err = a.at(q, per)
	case 1:
		// among many cells without anything
		var qs []s2.CellID
		for i := 0; i < 40; i++ {
			c := s2.CellIDFromFace(i % 6)
			for c.Level() < a.level {
				c = c.Children()[i%4]
			}
			qs = append(qs, c)
		}
		for _, c := range qs {
			sym.Assume(sym.And(!geow.Contains(c, p.Leaf)))
		}
		got, err = a.many(append(qs, q), per)
	default:
		geow.Cover = func(rc *s2.RegionCoverer, g *geow.Region, interior, norm bool) s2.CellUnion {
			sym.Assume(geow.Inside(g.ID, p.Leaf))
			sym.Assume(uint64(q)&-uint64(q) >= geow.Lsb(rc.MaxLevel))
			return s2.CellUnion{q}
		}
		c := geow.NewPos("a")
		switch a.kind {
		case flat:
			got, err = a.f.GeoIdsRadiusQuery(c.Lat, c.Lng, 1000)
		case pnt:
			got, err = a.p.GeoIdsRadiusQuery(c.Lat, c.Lng, 1000)
		default:
			got, err = a.t.GeoTimeIdsRadiusQuery(per.from, per.to, c.Lat, c.Lng, 1000)
		}
	}
	sym.Assert(err == nil, "a crowded place is asked for")
	crowd("crowd", got, n, distinct(es, func(e entry) bool { return true }))
	sym.Reach("end")
}

// Stray: an entry that is too short to be one of the index is never taken for one.
func Stray() {
	w := setup(1)
	a := w.any(sym.Choice("kind", kinds), w.prefix)
	es, err := a.add(shortID("id"))
	sym.Assert(err == nil, "a point is indexed")
	k := env.Clone(w.prefix)
	q := a.cell("query")
	if a.kind == timed && sym.Choice("cell", 2) == 1 {
		for i := 56; i >= 0; i -= 8 {
			k = append(k, byte(uint64(q)>>uint(i)))
		}
	}
	k = append(k, sym.Bytes("stray", []int{0, 1, 4, 7}[sym.Choice("stray.len", 4)])...)
	wr, err := w.s.Writer()
	sym.Assert(err == nil, "a writer opens")
	b := wr.NewBatch()
	b.Set(k, nil)
	sym.Assert(wr.ExecuteBatch(b) == nil, "a foreign entry is written")
	sym.Assert(b.Close() == nil && wr.Close() == nil, "a writer closes")
	p := a.period()
	var got []index.GeoID
	panicked, _ := sym.Catch(func() {
		if sym.Choice("many", 2) == 1 {
			got, err = a.many([]s2.CellID{q}, p)
		} else {
			got, err = a.at(q, p)
		}
	})
	sym.Assert(!panicked, "a lookup never panics")
	if err != nil {
		sym.Assert(len(got) == 0, "a failed lookup finds nothing")
		sym.Reach("refused")
		return
	}
	exact("lookup beside a stray entry", got, distinct(es, func(e entry) bool { return a.in(e, q, p) }))
	sym.Reach("end")
}
