ID="cells_stop_at_dup"; PROP="I04"; PKG="index"
NEEDS="a lookup of several cells that share an id and have further ids of the same length"
BREAKS="The union of the cells stops at the first id that was already seen in an earlier cell, so the rest of that cell is missing."
EDITS=[("index/s2idx.go","""		for _, id := range ids {
			m[string(id)] = struct{}{}
		}""","""		for _, id := range ids {
			if _, ok := m[string(id)]; ok {
				// already got the objects shared with the neighbour
				break
			}
			m[string(id)] = struct{}{}
		}""")]
TEST='''package index

import (
	"testing"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store/gtreap"
	"github.com/golang/geo/s2"
)

func TestZZDemo(t *testing.T) {
	s, err := gtreap.New(nil, map[string]interface{}{"path": ""})
	if err != nil {
		t.Fatal(err)
	}
	x := NewS2FlatIdx(s, []byte("p"), 10)
	pt := func(lng, lat float64) *geodata.GeoData {
		return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}
	}
	c1 := s2.CellIDFromLatLng(s2.LatLngFromDegrees(48.8, 2.3)).Parent(10)
	c2 := s2.CellIDFromLatLng(s2.LatLngFromDegrees(20, 2.3)).Parent(10)
	x.GeoIndex(pt(2.3, 48.8), GeoID("a"))
	x.GeoIndex(pt(2.3, 20), GeoID("a"))
	x.GeoIndex(pt(2.3, 20), GeoID("b"))
	ids, err := x.GeoIdsAtCells([]s2.CellID{c1, c2})
	if err != nil || len(ids) != 2 {
		t.Fatalf("%q %v", ids, err)
	}
}
'''
