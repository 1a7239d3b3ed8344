ID="polyline_first_coords"; PROP="G07"; PKG="index/geodata"
NEEDS="more than one point, and reading the first GeoData again after the export"
BREAKS="The line is built by appending to the coordinates of the first point: with spare capacity behind them the caller's data is overwritten."
EDITS=[("index/geodata/tools.go","""			flatCoords = append(flatCoords, g.Geometry.Coordinates[:2]...)
""","""			if flatCoords == nil {
				flatCoords = g.Geometry.Coordinates[:2]
				continue
			}
			flatCoords = append(flatCoords, g.Geometry.Coordinates[:2]...)
""")]
TEST='''package geodata

import "testing"

func TestZZDemo(t *testing.T) {
	all := []float64{0, 1, 2, 3, 4, 5}
	var gs []*GeoData
	for i := 0; i < 6; i += 2 {
		gs = append(gs, &GeoData{Geometry: &Geometry{Type: Geometry_POINT, Coordinates: all[i : i+2]}})
	}
	gs[1], gs[2] = gs[2], gs[1]
	if _, err := PointsToGeoJSONPolyLines(gs); err != nil {
		t.Fatal(err)
	}
	for i, v := range all {
		if v != float64(i) {
			t.Fatal(all)
		}
	}
}
'''
