ID="point_first_leaf"; PROP="I02"; PKG="index"
NEEDS="a point in the first or second leaf cell of the cell that is asked for"
BREAKS="The range starts with the first cell of level 29 instead of the first leaf cell, so the points in the two leaf cells before its id are lost."
EDITS=[("index/s2pointidx.go","""	start := make([]byte, len(idx.prefix))
	copy(start, idx.prefix)
	start = append(start, itob(uint64(c.RangeMin()))...)
	stop := make([]byte, len(idx.prefix))
	copy(stop, idx.prefix)
	stop = append(stop, itob(uint64(c.RangeMax())+1)...)

	var res""","""	first := c.RangeMin()
	if !c.IsLeaf() {
		first = c.ChildBeginAtLevel(29)
	}
	start := make([]byte, len(idx.prefix))
	copy(start, idx.prefix)
	start = append(start, itob(uint64(first))...)
	stop := make([]byte, len(idx.prefix))
	copy(stop, idx.prefix)
	stop = append(stop, itob(uint64(c.RangeMax())+1)...)

	var res""")]
TEST='''package index

import (
	"testing"

	"github.com/akhenakh/oureadb/store/gtreap"
	"github.com/golang/geo/s2"
)

func TestZZDemo(t *testing.T) {
	s, err := gtreap.New(nil, map[string]interface{}{"path": ""})
	if err != nil {
		t.Fatal(err)
	}
	x := NewS2PointIdx(s, []byte("p"))
	c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(48.8, 2.3)).Parent(20)
	ll := c.RangeMin().LatLng()
	if _, err := x.PointIndex(ll.Lat.Degrees(), ll.Lng.Degrees(), GeoID("a")); err != nil {
		t.Fatal(err)
	}
	leaf := s2.CellIDFromLatLng(ll)
	for l := 0; l <= 30; l++ {
		ids, err := x.GeoIdsAtCell(leaf.Parent(l))
		if err != nil || len(ids) != 1 {
			t.Fatalf("level %d: %q %v", l, ids, err)
		}
	}
}
'''
