ID="rect_line_skip"; PROP="G04"; PKG="index/geodata"
NEEDS="a line that doubles back to the position before the last one"
BREAKS="The turning point of a line that doubles back is left out of its bounds."
EDITS=[("index/geodata/tools.go","""		return pl.RectBound(), nil

	default:
		return s2.Rect{}""","""		for i := 2; i < len(pl); i++ {
			if pl[i] == pl[i-2] {
				// doubles back, the way there has the same bounds
				pl = append(pl[:i-1], pl[i+1:]...)
				i--
			}
		}
		return pl.RectBound(), nil

	default:
		return s2.Rect{}""")]
TEST='''package geodata

import "testing"

func TestZZDemo(t *testing.T) {
	gd := &GeoData{Geometry: &Geometry{Type: Geometry_LINESTRING, Coordinates: []float64{0, 0, 10, 10, 0, 0}}}
	r, err := GeoDataToRect(gd)
	if err != nil {
		t.Fatal(err)
	}
	if r.Hi().Lat.Degrees() < 9 {
		t.Fatal(r)
	}
}
'''
