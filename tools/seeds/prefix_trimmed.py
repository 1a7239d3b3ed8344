ID='prefix_trimmed'
PROP='I07'
PKG='index'
NEEDS='two indexes in a store whose prefixes differ in trailing zero bytes'
BREAKS='Trailing zero bytes of the prefix are dropped, so such indexes share their keys.'
EDITS=[('index/s2idx.go', '\t\tKVStore: s,\n\t\tprefix:  prefix,', '\t\tKVStore: s,\n\t\tprefix:  bytes.TrimRight(prefix, "\\x00"),')]
TEST='package index\n\nimport (\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/index/geodata"\n\t"github.com/akhenakh/oureadb/store"\n\t"github.com/akhenakh/oureadb/store/gtreap"\n)\n\nfunc zzstore(t *testing.T) store.KVStore {\n\ts, err := gtreap.New(nil, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s\n}\n\nfunc zzpoint(lng, lat float64) *geodata.GeoData {\n\treturn &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\ts := zzstore(t)\n\tx, y := NewS2FlatIdx(s, []byte("p"), 10), NewS2FlatIdx(s, []byte("p\\x00"), 10)\n\tif err := x.GeoIndex(zzpoint(2, 48), GeoID("a")); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tcu, _ := x.Covering(zzpoint(2, 48))\n\tids, err := y.GeoIdsAtCell(cu[0])\n\tif err != nil || len(ids) != 0 {\n\t\tt.Fatal(ids, err)\n\t}\n}\n'
