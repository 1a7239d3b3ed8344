ID="multipolygon_skips_bad"; PROP="G03"; PKG="index/geodata"
NEEDS="a multipolygon with a malformed polygon after a good one"
BREAKS="A malformed polygon of a multipolygon is skipped when another one was covered before it, instead of being refused."
EDITS=[("index/geodata/tools.go","""			if err != nil {
				return nil, errors.Wrap(err, "can't cover multipolygon")
			}
""","""			if err != nil && len(cu) == 0 {
				return nil, errors.Wrap(err, "can't cover multipolygon")
			}
""")]
TEST='''package geodata

import (
	"testing"

	"github.com/golang/geo/s2"
)

func TestZZDemo(t *testing.T) {
	a := []float64{0, 0, 2, 0, 2, 2, 0, 2}
	b := []float64{1, 1, 8, 1, 8}
	gd := &GeoData{Geometry: &Geometry{Type: Geometry_MULTIPOLYGON, Geometries: []*Geometry{{Coordinates: a}, {Coordinates: b}}}}
	if _, err := gd.Cover(&s2.RegionCoverer{MinLevel: 7, MaxLevel: 7}); err == nil {
		t.Fatal("accepted")
	}
}
'''
