// Package geow is the s2 geometry the index properties are decided against: the cell arithmetic of s2
// is executed as it is, its floating point geometry is replaced by arbitrary answers within its contract.
package geow

import (
	"math"

	"github.com/golang/geo/r3"
	"github.com/golang/geo/s1"
	"github.com/golang/geo/s2"

	"oureaverif/sym"
)

// Pos is a position and the leaf cell it lies in.
type Pos struct {
	Lat, Lng float64
	Leaf     s2.CellID
}

// RegionKind tells what a covering was asked for.
type RegionKind int

const (
	Cap RegionKind = iota
	Rect
	Loop
	Line
	Other
)

// Region is a region the code built out of what it was given.
type Region struct {
	ID     int // its position in Regions, for caps and rectangles
	Kind   RegionKind
	Center s2.LatLng
	Area   float64 // of caps
	LL     []s2.LatLng
	Loop   *s2.Loop
	Of     []*Region // of unions
}

// Parts are the segments and the positions a rectangle was made from.
func (g *Region) Parts() (segs [][2]s2.LatLng, pos []s2.LatLng) {
	switch g.Kind {
	case Line:
		for i := range g.LL {
			if i > 0 {
				segs = append(segs, [2]s2.LatLng{g.LL[i-1], g.LL[i]})
			}
		}
	case Rect:
	default:
		sym.Stop("the parts of another kind of region")
	}
	pos = append(pos, g.LL...)
	for _, x := range g.Of {
		a, b := x.Parts()
		segs, pos = append(segs, a...), append(pos, b...)
	}
	return
}

// The kinds of embedded points, told apart by their third coordinate.
const (
	kindLL   = 1
	kindCell = 2
	kindCap  = 3
	kindRect = 4
)

var (
	Known   []Pos
	Regions []*Region
	// Cover answers coverings; norm tells that the result is normalised, that is without regard
	// to the minimum level.
	Cover func(rc *s2.RegionCoverer, r *Region, interior, norm bool) s2.CellUnion
	// Lost counts the positions and regions nobody gave to the code.
	Lost int
)

// ValidCell assumes nothing: it is the condition that c is a cell of the level.
func ValidCell(c s2.CellID, level int) bool {
	lsb := uint64(1) << uint(2*(30-level))
	return sym.And(uint64(c)&-uint64(c) == lsb, uint64(c)>>61 < 6)
}

// Valid is the condition that c is a cell of any level.
func Valid(c s2.CellID) bool {
	return sym.And(uint64(c)&-uint64(c)&0x1555555555555555 != 0, uint64(c)>>61 < 6)
}

// Lsb is the lowest bit of a cell of the level.
func Lsb(level int) uint64 { return uint64(1) << uint(2*(30-level)) }

// Parent is the ancestor of c at the level.
func Parent(c s2.CellID, level int) s2.CellID {
	lsb := Lsb(level)
	return s2.CellID(uint64(c)&-lsb | lsb)
}

// Contains is the condition that the valid cell a contains b.
func Contains(a, b s2.CellID) bool {
	l := uint64(a) & -uint64(a)
	return sym.And(uint64(b) >= uint64(a)-(l-1), uint64(b) <= uint64(a)+(l-1))
}

// Cell is an arbitrary cell of the level.
func Cell(name string, level int) s2.CellID {
	k := uint(2 * (30 - level))
	c := s2.CellID(sym.Uint64(name)<<(k+1) | 1<<k)
	sym.Assume(uint64(c)>>61 < 6)
	return c
}

// AnyCell is an arbitrary cell of one of the levels 30, 12 and 0, in the thorough tier of any level.
func AnyCell(name string) s2.CellID {
	l := []int{30, 12, 0}
	if sym.Tier() > 0 {
		return Cell(name, sym.Choice(name+".level", 31))
	}
	return Cell(name, l[sym.Choice(name+".level", len(l))])
}

// WildCell is an arbitrary cell of any level.
func WildCell(name string) s2.CellID {
	c := s2.CellID(sym.Uint64(name))
	sym.Assume(Valid(c))
	return c
}

func bitsEq(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// within is the condition that f is between -max and max, without the negative zero.
func within(f, max float64) bool {
	b := math.Float64bits(f)
	return sym.And(b&^(1<<63) <= math.Float64bits(max), b != 1<<63)
}

// NewPos is an arbitrary valid position in an arbitrary leaf cell.
func NewPos(name string) Pos {
	p := Pos{sym.Float64(name + ".lat"), sym.Float64(name + ".lng"), Cell(name+".leaf", 30)}
	sym.Assume(sym.And(within(p.Lat, 90), within(p.Lng, 180)))
	for _, k := range Known {
		sym.Assume(sym.Implies(sym.And(bitsEq(k.Lat, p.Lat), bitsEq(k.Lng, p.Lng)), k.Leaf == p.Leaf))
	}
	Known = append(Known, p)
	return p
}

// leaf is the leaf cell of a position.
func leaf(ll s2.LatLng) s2.CellID {
	for i := len(Known) - 1; i >= 0; i-- {
		if bitsEq(Known[i].Lat, float64(ll.Lat)) && bitsEq(Known[i].Lng, float64(ll.Lng)) {
			return Known[i].Leaf
		}
	}
	p := Pos{float64(ll.Lat), float64(ll.Lng), Cell("lost.leaf", 30)}
	Known = append(Known, p)
	Lost++
	return p.Leaf
}

func pt(kind int, x, y float64) s2.Point {
	return s2.Point{Vector: r3.Vector{X: x, Y: y, Z: float64(kind)}}
}

func kind(p s2.Point) int {
	switch math.Float64bits(p.Z) {
	case math.Float64bits(kindLL):
		return kindLL
	case math.Float64bits(kindCell):
		return kindCell
	case 0:
		if math.Float64bits(p.X) == 0 && math.Float64bits(p.Y) == 0 {
			return kindLL // nothing was put there: s2 takes it for the position 0, 0
		}
	}
	sym.Stop("a point that is not a position or the centre of a cell")
	return 0
}

// CellOf is the leaf cell of an embedded point.
func CellOf(p s2.Point) s2.CellID {
	if kind(p) == kindCell {
		return s2.CellID(math.Float64bits(p.X))
	}
	return leaf(s2.LatLng{Lat: s1.Angle(p.X), Lng: s1.Angle(p.Y)})
}

// LLOf is the position of an embedded point.
func LLOf(p s2.Point) s2.LatLng {
	if kind(p) != kindLL {
		sym.Stop("the position of a point that is the centre of a cell")
	}
	return s2.LatLng{Lat: s1.Angle(p.X), Lng: s1.Angle(p.Y)}
}

// LL is the position in s2's form, the one of the replaced LatLngFromDegrees.
func (p Pos) LL() s2.LatLng { return s2.LatLng{Lat: s1.Angle(p.Lat), Lng: s1.Angle(p.Lng)} }

// Is is the condition that ll is the position.
func (p Pos) Is(ll s2.LatLng) bool {
	return sym.And(bitsEq(p.Lat, float64(ll.Lat)), bitsEq(p.Lng, float64(ll.Lng)))
}

// Inside decides whether the region contains the leaf cell's centre.
func Inside(region int, c s2.CellID) bool {
	return sym.UFBool("inside", uint64(region), uint64(c))
}

func regionOf(r s2.Region) *Region {
	switch x := r.(type) {
	case s2.Cap:
		return capRegion(x)
	case *s2.Cap:
		return capRegion(*x)
	case s2.Rect:
		return rectRegion(x)
	case *s2.Rect:
		return rectRegion(*x)
	case *s2.Loop:
		g := &Region{Kind: Loop, Loop: x}
		for _, p := range s2.VerifVertices(x) {
			g.LL = append(g.LL, LLOf(p))
		}
		return g
	case *s2.Polyline:
		g := &Region{Kind: Line}
		for _, p := range *x {
			g.LL = append(g.LL, LLOf(p))
		}
		return g
	}
	sym.Stop("a covering of another kind of region")
	return nil
}

func capRegion(c s2.Cap) *Region {
	i := s2.VerifCapID(c)
	if i < 0 {
		sym.Stop("a cap made in another way")
	}
	return Regions[i]
}

func rectRegion(r s2.Rect) *Region {
	i := rectID(r)
	return Regions[i]
}

func rectID(r s2.Rect) int {
	if math.Float64bits(r.Lat.Lo) == math.Float64bits(1) && r.Lat.Hi == 0 && r.Lng.Lo > r.Lng.Hi {
		// the empty rectangle
		Regions = append(Regions, &Region{ID: len(Regions), Kind: Rect})
		return len(Regions) - 1
	}
	if math.Float64bits(r.Lat.Hi) != math.Float64bits(-77.25) || math.Float64bits(r.Lng.Hi) != math.Float64bits(-77.25) {
		sym.Stop("a rectangle made in another way")
	}
	return int(r.Lat.Lo)
}

func newRect(g *Region) s2.Rect {
	g.ID = len(Regions)
	Regions = append(Regions, g)
	var r s2.Rect
	r.Lat.Lo, r.Lat.Hi, r.Lng.Hi = float64(len(Regions)-1), -77.25, -77.25
	return r
}

func newCap(center s2.Point, area float64) s2.Cap {
	Regions = append(Regions, &Region{ID: len(Regions), Kind: Cap, Center: LLOf(center), Area: area})
	return s2.VerifCap(len(Regions) - 1)
}

// Area is the area of the cap with the radius of this chord angle.
func chordArea(a s1.ChordAngle) float64 { return math.Pi * float64(a) }

// Install puts the geometry in place of the real one.
func Install() {
	Known, Regions, Cover, Lost, Rings = nil, nil, nil, 0, nil
	s2.VerifHook_LatLngFromDegrees = func(lat, lng float64) s2.LatLng {
		return s2.LatLng{Lat: s1.Angle(lat), Lng: s1.Angle(lng)}
	}
	s2.VerifHook_PointFromLatLng = func(ll s2.LatLng) s2.Point { return pt(kindLL, float64(ll.Lat), float64(ll.Lng)) }
	s2.VerifHook_LatLngFromPoint = LLOf
	s2.VerifHook_CellIDFromLatLng = leaf
	s2.VerifHook_cellIDFromPoint = CellOf
	s2.VerifHook_CellID_Point = func(c s2.CellID) s2.Point { return pt(kindCell, math.Float64frombits(uint64(c)), 0) }
	s2.VerifHook_CellID_LatLng = func(c s2.CellID) s2.LatLng {
		sym.Stop("the position of the centre of a cell")
		return s2.LatLng{}
	}
	s2.VerifHook_CapFromCenterArea = newCap
	s2.VerifHook_CapFromCenterAngle = func(c s2.Point, a s1.Angle) s2.Cap {
		return newCap(c, chordArea(s1.ChordAngleFromAngle(a)))
	}
	s2.VerifHook_CapFromCenterChordAngle = func(c s2.Point, a s1.ChordAngle) s2.Cap { return newCap(c, chordArea(a)) }
	s2.VerifHook_CapFromCenterHeight = func(c s2.Point, h float64) s2.Cap { return newCap(c, math.Pi*2*h) }
	s2.VerifHook_Cap_ContainsPoint = func(c s2.Cap, p s2.Point) bool {
		i := s2.VerifCapID(c)
		if i < 0 {
			sym.Stop("a cap made in another way")
		}
		return Inside(i, CellOf(p))
	}
	s2.VerifHook_RectFromLatLng = func(ll s2.LatLng) s2.Rect { return newRect(&Region{Kind: Rect, LL: []s2.LatLng{ll}}) }
	s2.VerifHook_Rect_AddPoint = func(r s2.Rect, ll s2.LatLng) s2.Rect {
		g := rectRegion(r)
		if g.Kind != Rect {
			return newRect(&Region{Kind: Rect, LL: []s2.LatLng{ll}, Of: []*Region{g}})
		}
		return newRect(&Region{Kind: Rect, LL: append(append([]s2.LatLng{}, g.LL...), ll), Of: g.Of})
	}
	s2.VerifHook_Rect_Union = func(r, q s2.Rect) s2.Rect {
		return newRect(&Region{Kind: Rect, Of: []*Region{rectRegion(r), rectRegion(q)}})
	}
	s2.VerifHook_Rect_ContainsPoint = func(r s2.Rect, p s2.Point) bool { return Inside(rectID(r), CellOf(p)) }
	s2.VerifHook_Rect_ContainsLatLng = func(r s2.Rect, ll s2.LatLng) bool { return Inside(rectID(r), leaf(ll)) }
	installLoops()
	cov := func(interior, norm bool) func(rc *s2.RegionCoverer, r s2.Region) s2.CellUnion {
		return func(rc *s2.RegionCoverer, r s2.Region) s2.CellUnion { return Cover(rc, regionOf(r), interior, norm) }
	}
	s2.VerifHook_RegionCoverer_Covering = cov(false, false)
	s2.VerifHook_RegionCoverer_InteriorCovering = cov(true, false)
	s2.VerifHook_RegionCoverer_CellUnion = cov(false, true)
	s2.VerifHook_RegionCoverer_InteriorCellUnion = cov(true, true)
	s2.VerifHook_RegionCoverer_FastCovering = cov(false, true)
}

// ---- loops ----

// Ring is a polygon's outline.
type Ring struct {
	V []Pos
	// Small tells that the loop over V in order encloses the smaller side, Origin that it contains
	// the origin of s2.
	Small, Origin bool
	// Bad makes the loop empty or full.
	Bad int
}

var Rings []*Ring

// NewRing is an arbitrary outline of n distinct vertices.
func NewRing(name string, n int) *Ring {
	r := &Ring{Small: sym.Bool(name + ".small"), Origin: sym.Bool(name + ".origin")}
	for i := 0; i < n; i++ {
		p := NewPos(name)
		for _, q := range r.V {
			sym.Assume(!sym.And(bitsEq(p.Lat, q.Lat), bitsEq(p.Lng, q.Lng)))
		}
		r.V = append(r.V, p)
	}
	Rings = append(Rings, r)
	return r
}

// cycle is the condition that the points are the vertices from v on, in one direction.
func cycle(pts []s2.Point, v []Pos, at, step int) bool {
	ok := true
	for i, p := range pts {
		ok = sym.And(ok, v[(at+i*step+len(v)*len(v))%len(v)].Is(LLOf(p)))
	}
	return ok
}

// Find returns the ring a loop goes along and whether it does in order.
func Find(l *s2.Loop) (*Ring, bool) {
	pts := s2.VerifVertices(l)
	for _, r := range Rings {
		if len(r.V) != len(pts) {
			continue
		}
		fwd, rev := false, false
		for i := range r.V {
			fwd = sym.Or(fwd, cycle(pts, r.V, i, 1))
			rev = sym.Or(rev, cycle(pts, r.V, i, -1))
		}
		if fwd {
			return r, true
		}
		if rev {
			return r, false
		}
	}
	sym.Assert(false, "a loop goes along the outline of the polygon given")
	return nil, false
}

// IsSmall is the condition that a loop encloses the smaller side of its ring.
func IsSmall(l *s2.Loop) bool {
	r, fwd := Find(l)
	return r.Small == fwd
}

func reverse(l *s2.Loop) {
	pts := s2.VerifVertices(l)
	n := make([]s2.Point, len(pts))
	for i, p := range pts {
		n[len(pts)-1-i] = p
	}
	s2.VerifSetVertices(l, n)
}

func index(p s2.Point) int {
	ll := LLOf(p)
	for i, k := range Known {
		if k.Is(ll) {
			return i
		}
	}
	sym.Stop("the orientation of a position nobody gave")
	return 0
}

// sign is the orientation of three points.
func sign(a, b, c s2.Point) s2.Direction {
	i, j, k := index(a), index(b), index(c)
	if i == j || j == k || i == k {
		return 0
	}
	for _, r := range Rings {
		if len(r.V) != 3 {
			continue
		}
		l := s2.VerifLoop([]s2.Point{a, b, c})
		fwd, rev := false, false
		for x := range r.V {
			fwd = sym.Or(fwd, cycle(s2.VerifVertices(l), r.V, x, 1))
			rev = sym.Or(rev, cycle(s2.VerifVertices(l), r.V, x, -1))
		}
		if fwd || rev {
			if r.Small == fwd {
				return 1
			}
			return -1
		}
	}
	// the sign only depends on the set of the three up to the parity of their order
	odd := false
	if i > j {
		i, j, odd = j, i, !odd
	}
	if j > k {
		j, k, odd = k, j, !odd
	}
	if i > j {
		i, j, odd = j, i, !odd
	}
	if sym.UFBool("indeterminate", uint64(i), uint64(j), uint64(k)) {
		return 0
	}
	if sym.UFBool("ccw", uint64(i), uint64(j), uint64(k)) != odd {
		return 1
	}
	return -1
}

func installLoops() {
	s2.VerifHook_LoopFromPoints = func(pts []s2.Point) *s2.Loop { return s2.VerifLoop(pts) }
	s2.VerifHook_RobustSign = sign
	s2.VerifHook_Sign = func(a, b, c s2.Point) bool { return sign(a, b, c) == 1 }
	s2.VerifHook_OrderedCCW = func(a, b, c, o s2.Point) bool {
		sym.Stop("the order of points around another")
		return false
	}
	s2.VerifHook_Loop_IsEmpty = func(l *s2.Loop) bool { r, _ := Find(l); return r.Bad == 1 }
	s2.VerifHook_Loop_IsFull = func(l *s2.Loop) bool { r, _ := Find(l); return r.Bad == 2 }
	s2.VerifHook_Loop_ContainsOrigin = func(l *s2.Loop) bool { r, fwd := Find(l); return r.Origin == fwd }
	s2.VerifHook_Loop_IsNormalized = IsSmall
	s2.VerifHook_Loop_Invert = reverse
	s2.VerifHook_Loop_Normalize = func(l *s2.Loop) {
		if !IsSmall(l) {
			reverse(l)
		}
	}
	s2.VerifHook_Loop_Area = func(l *s2.Loop) float64 {
		if IsSmall(l) {
			return 1
		}
		return 4*math.Pi - 1
	}
	s2.VerifHook_Loop_TurningAngle = func(l *s2.Loop) float64 {
		if IsSmall(l) {
			return 2*math.Pi - 1
		}
		return 1 - 2*math.Pi
	}
	s2.VerifHook_Loop_ContainsPoint = func(l *s2.Loop, p s2.Point) bool {
		sym.Stop("whether a loop contains a point")
		return false
	}
	s2.VerifHook_Loop_CapBound = func(l *s2.Loop) s2.Cap {
		sym.Stop("the cap around a loop")
		return s2.Cap{}
	}
	s2.VerifHook_Loop_RectBound = func(l *s2.Loop) s2.Rect { return newRect(&Region{Kind: Loop, Loop: l}) }
	s2.VerifHook_Polyline_RectBound = func(p *s2.Polyline) s2.Rect {
		g := &Region{Kind: Line}
		for _, x := range *p {
			g.LL = append(g.LL, LLOf(x))
		}
		return newRect(g)
	}
}

// RegionOfRect is what a rectangle was made from.
func RegionOfRect(r s2.Rect) *Region { return rectRegion(r) }
