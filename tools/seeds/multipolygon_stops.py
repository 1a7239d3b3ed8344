ID="multipolygon_stops"; PROP="G02"; PKG="index/geodata"
NEEDS="a multipolygon of which one polygon has the same covering cells as an earlier one first"
BREAKS="Cells of a further polygon are only added up to the first one that is already covered."
EDITS=[("index/geodata/tools.go","""				return nil, errors.Wrap(err, "can't cover multipolygon")
			}

			cu = append(cu, cup...)""","""				return nil, errors.Wrap(err, "can't cover multipolygon")
			}

			for _, c := range cup {
				if cu.ContainsCellID(c) {
					// shares its cells with the polygon before
					break
				}
				cu = append(cu, c)
			}""")]
TEST='''package geodata

import (
	"testing"

	"github.com/golang/geo/s2"
)

func TestZZDemo(t *testing.T) {
	a := []float64{0, 0, 2, 0, 2, 2, 0, 2}
	b := []float64{1, 1, 8, 1, 8, 8, 1, 8}
	gd := &GeoData{Geometry: &Geometry{Type: Geometry_MULTIPOLYGON, Geometries: []*Geometry{{Coordinates: a}, {Coordinates: b}}}}
	co := &s2.RegionCoverer{MinLevel: 7, MaxLevel: 7}
	cu, err := gd.Cover(co)
	if err != nil {
		t.Fatal(err)
	}
	m := map[s2.CellID]bool{}
	for _, c := range cu {
		m[c] = true
	}
	for _, p := range [][]float64{a, b} {
		one, err := (&GeoData{Geometry: &Geometry{Type: Geometry_POLYGON, Coordinates: p}}).Cover(co)
		if err != nil {
			t.Fatal(err)
		}
		for _, c := range one {
			if !m[c] {
				t.Fatalf("%v is missing", c)
			}
		}
	}
}
'''
