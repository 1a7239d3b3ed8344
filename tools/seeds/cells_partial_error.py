ID='cells_partial_error'
PROP='I04'
PKG='index'
NEEDS='a list of cells in which one after the first has another level'
BREAKS='A cell that cannot be looked up ends the list silently once something was found.'
EDITS=[('index/s2timeidx.go', '\t\tif err != nil {\n\t\t\treturn nil, errors.Wrap(err, "fetching geo ids from cells failed")\n\t\t}', '\t\tif err != nil && len(m) > 0 {\n\t\t\tbreak\n\t\t}\n\t\tif err != nil {\n\t\t\treturn nil, errors.Wrap(err, "fetching geo ids from cells failed")\n\t\t}')]
TEST='package index\n\nimport (\n\t"testing"\n\t"time"\n\n\t"github.com/akhenakh/oureadb/index/geodata"\n\t"github.com/akhenakh/oureadb/store"\n\t"github.com/akhenakh/oureadb/store/gtreap"\n\t"github.com/golang/geo/s2"\n)\n\nfunc zzstore(t *testing.T) store.KVStore {\n\ts, err := gtreap.New(nil, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s\n}\n\nfunc zzpoint(lng, lat float64) *geodata.GeoData {\n\treturn &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\tx := NewS2FlatTimeIdx(zzstore(t), []byte("p"), 10)\n\tif err := x.GeoTimeIndex(zzpoint(2, 48), time.Unix(50, 0), GeoID("a")); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tcu, _ := x.Covering(zzpoint(2, 48))\n\tids, err := x.GeoTimeIdsAtCells([]s2.CellID{cu[0], cu[0].Parent(5)}, time.Unix(100, 0), time.Unix(0, 0))\n\tif err == nil {\n\t\tt.Fatal(ids)\n\t}\n}\n'
