ID='bounds_of_positions'
PROP='G04'
PKG='index/geodata'
NEEDS='a line from west to east away from the equator'
BREAKS='The bounds of a line are those of its positions; the arc between two of them leaves them towards the pole.'
EDITS=[('index/geodata/tools.go', '\t\treturn pl.RectBound(), nil\n', '\t\trect := s2.EmptyRect()\n\t\tfor _, p := range pl {\n\t\t\trect = rect.AddPoint(s2.LatLngFromPoint(p))\n\t\t}\n\t\treturn rect, nil\n')]
TEST='package geodata\n\nimport (\n\t"testing"\n\n\t"github.com/golang/geo/s2"\n)\n\nfunc TestZZDemo(t *testing.T) {\n\tc := []float64{0, 60, 40, 60}\n\tr, err := GeoDataToRect(&GeoData{Geometry: &Geometry{Type: Geometry_LINESTRING, Coordinates: c}})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tp := s2.Polyline{s2.PointFromLatLng(s2.LatLngFromDegrees(60, 0)), s2.PointFromLatLng(s2.LatLngFromDegrees(60, 40))}\n\tm, _ := p.Interpolate(0.5)\n\tif !r.ContainsLatLng(s2.LatLngFromPoint(m)) {\n\t\tt.Fatal(r, m)\n\t}\n}\n'
