ID="prefix_append"; PROP="I07"; PKG="index"
NEEDS="two indexes whose prefixes are adjacent parts of one byte array, and an object with a covering of some cells"
BREAKS="The key is built by appending to the prefix the caller passed: with spare capacity behind it this overwrites the neighbouring prefix, so that the other index loses what it indexed."
EDITS=[("index/s2timeidx.go","""	k := make([]byte, len(idx.prefix))
	copy(k, idx.prefix)
	k = append(k, itob(uint64(c))...)
	// adding""","""	k := append(idx.prefix, itob(uint64(c))...)
	// adding""")]
TEST='''package index

import (
	"testing"
	"time"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store/gtreap"
	"github.com/golang/geo/s2"
)

func TestZZDemo(t *testing.T) {
	s, err := gtreap.New(nil, map[string]interface{}{"path": ""})
	if err != nil {
		t.Fatal(err)
	}
	names := []byte("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
	a := NewS2FlatTimeIdx(s, names[:1], 10)
	b := NewS2FlatTimeIdx(s, names[1:2], 10)
	gd := &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{2.3, 48.8}}}
	c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(48.8, 2.3)).Parent(10)
	now := time.Unix(100, 0)
	if err := b.GeoTimeIndex(gd, now, GeoID("b")); err != nil {
		t.Fatal(err)
	}
	if err := a.GeoTimeIndex(gd, now, GeoID("a")); err != nil {
		t.Fatal(err)
	}
	ids, err := b.GeoTimeIdsAtCell(c, now, time.Unix(0, 0))
	if err != nil || len(ids) != 1 || string(ids[0]) != "b" {
		t.Fatalf("%q %v", ids, err)
	}
	ids, err = a.GeoTimeIdsAtCell(c, now, time.Unix(0, 0))
	if err != nil || len(ids) != 1 || string(ids[0]) != "a" {
		t.Fatalf("%q %v", ids, err)
	}
}
'''
