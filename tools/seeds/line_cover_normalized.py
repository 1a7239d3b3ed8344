ID="line_cover_normalized"; PROP="G01"; PKG="index/geodata"
NEEDS="a line whose covering at the minimum level contains all four children of a cell"
BREAKS="The covering of a line is normalized, so four cells of the minimum level become one coarser cell."
EDITS=[("index/geodata/tools.go","""		cu = append(cu, cupl...)

	default:""","""		cu = append(cu, cupl...)
		if !interior {
			cu.Normalize()
		}

	default:""")]
TEST='''package geodata

import (
	"testing"

	"github.com/golang/geo/s2"
)

func TestZZDemo(t *testing.T) {
	gd := &GeoData{Geometry: &Geometry{Type: Geometry_LINESTRING, Coordinates: []float64{2.0, 48, 3.5, 49.5, 2.0, 49.5, 3.5, 48, 2.5, 48.2, 2.7, 49.3}}}
	for l := 3; l < 13; l++ {
		cu, err := gd.Cover(&s2.RegionCoverer{MinLevel: l, MaxLevel: l, MaxCells: 1000})
		if err != nil {
			t.Fatal(err)
		}
		for _, c := range cu {
			if c.Level() != l {
				t.Fatalf("level %d instead of %d", c.Level(), l)
			}
		}
	}
}
'''
