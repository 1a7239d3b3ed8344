ID='point_key_type'
PROP='I10'
PKG='index'
NEEDS='a line or polygon whose key is asked for'
BREAKS='GeoPointKey answers with the key of the first position of lines of one position.'
EDITS=[('index/s2pointidx.go', 'func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error) {\n\tif gd.GetGeometry() == nil || gd.Geometry.Type != geodata.Geometry_POINT {', 'func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error) {\n\tif gd.GetGeometry() == nil || gd.Geometry.Type != geodata.Geometry_POINT && len(gd.Geometry.Coordinates) != 2 {')]
TEST='package index\n\nimport (\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/index/geodata"\n\t"github.com/akhenakh/oureadb/store/gtreap"\n)\n\nfunc TestZZDemo(t *testing.T) {\n\ts, err := gtreap.New(nil, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tx := NewS2PointIdx(s, []byte("p"))\n\tgd := &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_LINESTRING, Coordinates: []float64{2, 48}}}\n\tif k, err := x.GeoPointKey(gd, GeoID("a")); err == nil {\n\t\tt.Fatal(k)\n\t}\n}\n'
