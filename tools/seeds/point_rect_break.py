ID="point_rect_break"; PROP="I06"; PKG="index"
NEEDS="a rectangle query where a point that only shares the covering cell comes before one that lies inside"
BREAKS="The scan of a covering cell ends at the first point outside the rectangle."
EDITS=[("index/s2pointidx.go","""			if rect.ContainsPoint(c.Point()) {
				res = append(res, id)
			}
""","""			in := rect.ContainsPoint(c.Point())
			if !in && len(res) > 0 {
				break
			}
			if in {
				res = append(res, id)
			}
""")]
TEST='''package index

import (
	"fmt"
	"testing"

	"github.com/akhenakh/oureadb/store/gtreap"
)

func TestZZDemo(t *testing.T) {
	s, err := gtreap.New(nil, map[string]interface{}{"path": ""})
	if err != nil {
		t.Fatal(err)
	}
	x := NewS2PointIdx(s, []byte("p"))
	want := map[string]bool{}
	for i := 0; i < 20; i++ {
		for j := 0; j < 20; j++ {
			lat, lng := 48.0+float64(i)*0.001, 2.0+float64(j)*0.001
			id := fmt.Sprint(i, ",", j)
			if _, err := x.PointIndex(lat, lng, GeoID(id)); err != nil {
				t.Fatal(err)
			}
			if i >= 3 && i <= 9 && j >= 5 && j <= 12 {
				want[id] = true
			}
		}
	}
	ids, err := x.GeoIdsRectQuery(48.0095, 2.0125, 48.0025, 2.0045)
	if err != nil {
		t.Fatal(err)
	}
	got := map[string]bool{}
	for _, id := range ids {
		got[string(id)] = true
		if !want[string(id)] {
			t.Fatalf("%s is outside", id)
		}
	}
	if len(got) != len(want) || len(ids) != len(want) {
		t.Fatalf("%d, want %d", len(ids), len(want))
	}
}
'''
