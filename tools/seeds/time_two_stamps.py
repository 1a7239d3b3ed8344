ID="time_two_stamps"; PROP="I03"; PKG="index"
NEEDS="two instants less than a second apart before 1970, or a period boundary inside a second"
BREAKS="The stored timestamp is computed from seconds and nanoseconds separately and rounds the reversed order: nanoseconds are not reversed, so order and period bounds are wrong inside one second."
EDITS=[("index/s2timeidx.go","""	ts := int64tob(math.MaxInt64 - t.UnixNano())""","""	// seconds are reversed, the fraction keeps its own bytes
	sec := math.MaxInt64/int64(time.Second) - t.Unix()
	ts := int64tob(sec*int64(time.Second) + int64(t.Nanosecond()))"""),
("index/s2timeidx.go","""	t = time.Unix(0, math.MaxInt64-ts)""","""	t = time.Unix(math.MaxInt64/int64(time.Second)-ts/int64(time.Second), ts%int64(time.Second))""")]
TEST='''package index

import (
	"testing"
	"time"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store/gtreap"
	"github.com/golang/geo/s2"
)

func TestZZDemo(t *testing.T) {
	s, err := gtreap.New(nil, map[string]interface{}{"path": ""})
	if err != nil {
		t.Fatal(err)
	}
	x := NewS2FlatTimeIdx(s, []byte("p"), 10)
	gd := &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{2.3, 48.8}}}
	c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(48.8, 2.3)).Parent(10)
	base := time.Unix(1000000, 0)
	x.GeoTimeIndex(gd, base.Add(100*time.Millisecond), GeoID("old"))
	x.GeoTimeIndex(gd, base.Add(300*time.Millisecond), GeoID("new"))
	ids, err := x.GeoTimeIdsAtCell(c, base.Add(time.Second), base.Add(-time.Second))
	if err != nil || len(ids) != 2 || string(ids[0]) != "new" || string(ids[1]) != "old" {
		t.Fatalf("%q %v", ids, err)
	}
	ids, err = x.GeoTimeIdsAtCell(c, base.Add(200*time.Millisecond), base.Add(-time.Second))
	if err != nil || len(ids) != 1 || string(ids[0]) != "old" {
		t.Fatalf("%q %v", ids, err)
	}
}
'''
