ID='reader_per_cell'
PROP='I09'
PKG='index'
NEEDS='a rectangle covered by several cells and a store that has no further reader to give'
BREAKS='Every covering cell is read with a reader of its own, and cells for which there is none are left out silently.'
EDITS=[('index/s2pointidx.go', "\t// we range over cover to lookup for points (cell l30) and filter them in place\n\tfor _, coverCell := range cu {\n\t\tstart := make([]byte, len(idx.prefix))\n\t\tcopy(start, idx.prefix)\n\t\tstart = append(start, itob(uint64(coverCell.RangeMin()))...)\n\t\tstop := make([]byte, len(idx.prefix))\n\t\tcopy(stop, idx.prefix)\n\t\tstop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)\n\n\t\t// iterate entries with cell's prefix\n\t\titer := kv.RangeIterator(start, stop)\n\t\tfor {", "\t// we range over cover to lookup for points (cell l30) and filter them in place\n\tfor i, coverCell := range cu {\n\t\tstart := make([]byte, len(idx.prefix))\n\t\tcopy(start, idx.prefix)\n\t\tstart = append(start, itob(uint64(coverCell.RangeMin()))...)\n\t\tstop := make([]byte, len(idx.prefix))\n\t\tcopy(stop, idx.prefix)\n\t\tstop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)\n\n\t\t// do not hold one reader for the whole query\n\t\tr := kv\n\t\tif i > 0 {\n\t\t\tif r, err = idx.Reader(); err != nil {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tdefer r.Close()\n\t\t}\n\n\t\t// iterate entries with cell's prefix\n\t\titer := r.RangeIterator(start, stop)\n\t\tfor {")]
TEST='package index\n\nimport (\n\t"testing"\n\t"errors"\n\n\t"github.com/akhenakh/oureadb/index/geodata"\n\t"github.com/akhenakh/oureadb/store"\n\t"github.com/akhenakh/oureadb/store/gtreap"\n)\n\nfunc zzstore(t *testing.T) store.KVStore {\n\ts, err := gtreap.New(nil, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn s\n}\n\nfunc zzpoint(lng, lat float64) *geodata.GeoData {\n\treturn &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POINT, Coordinates: []float64{lng, lat}}}\n}\n\ntype zzlimited struct {\n\tstore.KVStore\n\tn int\n}\n\nfunc (s *zzlimited) Reader() (store.KVReader, error) {\n\tif s.n == 0 {\n\t\treturn nil, errors.New("no reader")\n\t}\n\ts.n--\n\treturn s.KVStore.Reader()\n}\n\nfunc TestZZDemo(t *testing.T) {\n\tzzpoint(0, 0)\n\tl := &zzlimited{KVStore: zzstore(t), n: 1}\n\tx := NewS2PointIdx(l, []byte("p"))\n\tfor i := 0; i < 10; i++ {\n\t\tif _, err := x.PointIndex(40+float64(i)*0.9, 2, GeoID{byte(i)}); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\tids, err := x.GeoIdsRectQuery(50, 3, 39, 1)\n\tif err == nil && len(ids) != 10 {\n\t\tt.Fatal(ids)\n\t}\n}\n'
