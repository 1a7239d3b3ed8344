ID='flat_dup_neighbours'
PROP='I01'
PKG='index'
NEEDS='two ids in a cell where one is the beginning of the next'
BREAKS='An id that begins with the id before it is taken for the same object and left out of the answer.'
EDITS=[('index/s2idx.go', '\t\t// the key is only valid until the iterator moves\n', '\t\tif n := len(res); n > 0 && len(res[n-1]) > 0 && bytes.HasPrefix(id, res[n-1]) {\n\t\t\t// already there\n\t\t\titer.Next()\n\t\t\tcontinue\n\t\t}\n\n\t\t// the key is only valid until the iterator moves\n')]
TEST='package index\n\nimport (\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/index/geodata"\n\t"github.com/akhenakh/oureadb/store/gtreap"\n)\n\nfunc TestZZDemo(t *testing.T) {\n\ts, err := gtreap.New(nil, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tx := NewS2FlatIdx(s, []byte("p"), 10)\n\tgd := &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{2, 48}}}\n\tfor _, id := range []string{"1", "12", "2"} {\n\t\tif err := x.GeoIndex(gd, GeoID(id)); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\tcu, _ := x.Covering(gd)\n\tids, err := x.GeoIdsAtCell(cu[0])\n\tif err != nil || len(ids) != 3 {\n\t\tt.Fatal(ids, err)\n\t}\n}\n'
