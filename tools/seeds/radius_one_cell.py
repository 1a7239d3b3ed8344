ID='radius_one_cell'
PROP='I06'
PKG='index'
NEEDS='a circle covered by a single cell and a point of that cell outside of it'
BREAKS='Points are not tested against the circle when one cell covers it.'
EDITS=[('index/s2pointidx.go', '\t\t\tif cap.ContainsPoint(c.Point()) {', '\t\t\tif len(cu) == 1 || cap.ContainsPoint(c.Point()) {')]
TEST='package index\n\nimport (\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/index/geodata"\n\t"github.com/akhenakh/oureadb/store"\n\t"github.com/akhenakh/oureadb/store/gtreap"\n)\n\nfunc zzstore(t *testing.T) store.KVStore {\n\ts, err := gtreap.New(nil, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s\n}\n\nfunc zzpoint(lng, lat float64) *geodata.GeoData {\n\treturn &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\tx := NewS2PointIdx(zzstore(t), []byte("p"))\n\tzzpoint(0, 0)\n\tfor i := 0; i < 2000; i++ {\n\t\tlat, lng := 48+float64(i)*0.0001, 2.0\n\t\ts := NewS2PointIdx(zzstore(t), x.prefix)\n\t\tif _, err := s.PointIndex(lat+0.0005, lng, GeoID("far")); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tif _, err := s.PointIndex(lat, lng, GeoID("near")); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tids, err := s.GeoIdsRadiusQuery(lat, lng, 5)\n\t\tif err != nil || len(ids) != 1 {\n\t\t\tt.Fatal(i, ids, err)\n\t\t}\n\t}\n}\n'
