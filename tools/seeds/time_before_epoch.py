ID='time_before_epoch'
PROP='I03'
PKG='index'
NEEDS='an event before 1970 and a query that ends before it'
BREAKS='Times before 1970 are taken for 1970, so old events are found in periods they are not in.'
EDITS=[('index/s2timeidx.go', '\tts := int64tob(math.MaxInt64 - t.UnixNano())', '\tns := t.UnixNano()\n\tif ns < 0 {\n\t\t// before MinGeoTime\n\t\tns = 0\n\t}\n\tts := int64tob(math.MaxInt64 - ns)')]
TEST='package index\n\nimport (\n\t"testing"\n\t"time"\n\n\t"github.com/akhenakh/oureadb/index/geodata"\n\t"github.com/akhenakh/oureadb/store"\n\t"github.com/akhenakh/oureadb/store/gtreap"\n)\n\nfunc zzstore(t *testing.T) store.KVStore {\n\ts, err := gtreap.New(nil, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s\n}\n\nfunc zzpoint(lng, lat float64) *geodata.GeoData {\n\treturn &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\tx := NewS2FlatTimeIdx(zzstore(t), []byte("p"), 10)\n\tif err := x.GeoTimeIndex(zzpoint(2, 48), time.Unix(-200, 0), GeoID("a")); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tcu, _ := x.Covering(zzpoint(2, 48))\n\tids, err := x.GeoTimeIdsAtCell(cu[0], time.Unix(-150, 0), time.Unix(-250, 0))\n\tif err != nil || len(ids) != 1 {\n\t\tt.Fatal(ids, err)\n\t}\n}\n'
