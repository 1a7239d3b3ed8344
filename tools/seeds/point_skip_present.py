ID='point_skip_present'
PROP='I08'
PKG='index'
NEEDS='an index whose store cannot be read while a point is indexed'
BREAKS='A point whose key is there already is not written again; a failed look for it counts as there.'
EDITS=[('index/s2pointidx.go', '\tk := idx.PointKey(lat, lng, id)\n\tbatch.Set(k, nil)\n', '\tk := idx.PointKey(lat, lng, id)\n\tif r, rerr := idx.Reader(); rerr == nil {\n\t\tv, rerr := r.Get(k)\n\t\tr.Close()\n\t\tif rerr != nil || v != nil {\n\t\t\t// nothing to do\n\t\t\treturn k, nil\n\t\t}\n\t}\n\tbatch.Set(k, nil)\n')]
TEST='package index\n\nimport (\n\t"errors"\n\t"testing"\n\n\t"github.com/akhenakh/oureadb/store"\n\t"github.com/akhenakh/oureadb/store/gtreap"\n)\n\ntype zzStore struct{ store.KVStore }\ntype zzReader struct{ store.KVReader }\n\nfunc (s *zzStore) Reader() (store.KVReader, error) {\n\tr, err := s.KVStore.Reader()\n\treturn &zzReader{r}, err\n}\n\nfunc (r *zzReader) Get(k []byte) ([]byte, error) { return nil, errors.New("io") }\n\nfunc TestZZDemo(t *testing.T) {\n\ts, err := gtreap.New(nil, map[string]interface{}{"path": ""})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tk, err := NewS2PointIdx(&zzStore{s}, []byte("p")).PointIndex(48, 2, GeoID("a"))\n\tr, _ := s.Reader()\n\tif v, _ := r.Get(k); err == nil && v == nil {\n\t\tt.Fatal("not indexed")\n\t}\n}\n'
