ID="index_batches"; PROP="I08"; PKG="index"
NEEDS="an object with more than four cells and a store that fails while it is written"
BREAKS="Large coverings are written in several batches, so a failure leaves part of the object indexed."
EDITS=[("index/s2timeidx.go","""	for _, c := range cu {
		k := idx.valuesToKey(c, t, id)
""","""	for i, c := range cu {
		if i > 0 && i%4 == 0 {
			// keep batches small
			if err := kv.ExecuteBatch(batch); err != nil {
				return err
			}
			batch.Reset()
		}
		k := idx.valuesToKey(c, t, id)
""")]
TEST='''package index

import (
	"errors"
	"testing"
	"time"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/gtreap"
)

type zzStore struct {
	store.KVStore
	n int
}

type zzWriter struct {
	store.KVWriter
	s *zzStore
}

func (s *zzStore) Writer() (store.KVWriter, error) {
	w, err := s.KVStore.Writer()
	return &zzWriter{w, s}, err
}

func (w *zzWriter) ExecuteBatch(b store.KVBatch) error {
	if w.s.n == 0 {
		return errors.New("disk full")
	}
	w.s.n--
	return w.KVWriter.ExecuteBatch(b)
}

func TestZZDemo(t *testing.T) {
	gd := &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_LINESTRING, Coordinates: []float64{2.3, 48.8, 2.6, 49, 2.9, 49.5}}}
	for n := 0; n < 4; n++ {
		s, err := gtreap.New(nil, map[string]interface{}{"path": ""})
		if err != nil {
			t.Fatal(err)
		}
		x := NewS2FlatTimeIdx(&zzStore{s, n}, []byte("p"), 10)
		err = x.GeoTimeIndex(gd, time.Unix(1, 0), GeoID("a"))
		r, _ := s.Reader()
		it := r.PrefixIterator([]byte("p"))
		if err != nil && it.Valid() {
			t.Fatal("failed, but something is stored")
		}
		if err == nil && !it.Valid() {
			t.Fatal("nothing stored")
		}
	}
}
'''
