ID='next_wraps'
PROP='I02'
PKG='index'
NEEDS='a cell at the end of the sixth face'
BREAKS='The range of the last cells ends at the first cell of the sphere, so their points are not found.'
EDITS=[('index/s2pointidx.go', '\tstop := make([]byte, len(idx.prefix))\n\tcopy(stop, idx.prefix)\n\tstop = append(stop, itob(uint64(c.RangeMax())+1)...)\n\n\tvar res', '\tstop := make([]byte, len(idx.prefix))\n\tcopy(stop, idx.prefix)\n\tstop = append(stop, itob(uint64(c.NextWrap().RangeMin()))...)\n\n\tvar res')]
TEST='package index\n\nimport (\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/index/geodata"\n\t"github.com/akhenakh/oureadb/store"\n\t"github.com/akhenakh/oureadb/store/gtreap"\n\t"github.com/golang/geo/s2"\n)\n\nfunc zzstore(t *testing.T) store.KVStore {\n\ts, err := gtreap.New(nil, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s\n}\n\nfunc zzpoint(lng, lat float64) *geodata.GeoData {\n\treturn &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\tzzpoint(0, 0)\n\tx := NewS2PointIdx(zzstore(t), []byte("p"))\n\tc := s2.CellIDFromFace(5)\n\tll := c.RangeMax().LatLng()\n\tif _, err := x.PointIndex(ll.Lat.Degrees(), ll.Lng.Degrees(), GeoID("a")); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tids, err := x.GeoIdsAtCell(c)\n\tif err != nil || len(ids) != 1 {\n\t\tt.Fatal(ids, err)\n\t}\n}\n'
