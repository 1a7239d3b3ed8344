ID="iter_leak_bad_key"; PROP="I09"; PKG="index"
NEEDS="a lookup that meets a key that is no index key"
BREAKS="The iterator is closed at the end of the lookup instead of in a deferred call: a lookup that fails at a key in the middle leaves it open."
EDITS=[("index/s2pointidx.go","""	iter := kv.RangeIterator(start, stop)
	defer iter.Close()
""","""	iter := kv.RangeIterator(start, stop)
"""),("index/s2pointidx.go","""		res = append(res, append(GeoID(nil), id...))
		iter.Next()
	}

	return res, nil""","""		res = append(res, append(GeoID(nil), id...))
		iter.Next()
	}

	return res, iter.Close()""")]
TEST='''package index

import (
	"testing"

	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/gtreap"
	"github.com/golang/geo/s2"
)

type zzStore struct {
	store.KVStore
	open int
}

type zzReader struct {
	store.KVReader
	s *zzStore
}

type zzIter struct {
	store.KVIterator
	s *zzStore
}

func (s *zzStore) Reader() (store.KVReader, error) {
	r, err := s.KVStore.Reader()
	return &zzReader{r, s}, err
}

func (r *zzReader) RangeIterator(a, b []byte) store.KVIterator {
	r.s.open++
	return &zzIter{r.KVReader.RangeIterator(a, b), r.s}
}

func (i *zzIter) Close() error {
	i.s.open--
	return i.KVIterator.Close()
}

func TestZZDemo(t *testing.T) {
	g, err := gtreap.New(nil, map[string]interface{}{"path": ""})
	if err != nil {
		t.Fatal(err)
	}
	s := &zzStore{KVStore: g}
	x := NewS2PointIdx(s, []byte("p"))
	c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(48.8, 2.3)).Parent(10)
	w, _ := g.Writer()
	b := w.NewBatch()
	b.Set(append([]byte("p"), itob(uint64(c))[:6]...), nil)
	if err := w.ExecuteBatch(b); err != nil {
		t.Fatal(err)
	}
	if _, err := x.GeoIdsAtCell(c); err == nil {
		t.Fatal("accepted")
	}
	if s.open != 0 {
		t.Fatalf("%d iterators open", s.open)
	}
}
'''
