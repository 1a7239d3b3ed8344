ID="bolt_two_transactions"; PROP="C07"; PKG="store/boltdb"
NEEDS="a batch with a successful merge whose plain operations then fail (an empty key)"
BREAKS="Merges are committed in a transaction of their own before the plain operations, so a batch that fails has applied its merges."
EDITS=[("store/boltdb/writer.go","""	for _, op := range emulatedBatch.Ops {
		if op.V != nil {""","""	if len(emulatedBatch.Merger.Merges) > 0 {
		// keep the transaction with the merge results small
		if err = tx.Commit(); err != nil {
			return
		}
		next, berr := w.store.db.Begin(true)
		if berr != nil {
			return berr
		}
		tx = next
		bucket = tx.Bucket([]byte(w.store.bucket))
		bucket.FillPercent = w.store.fillPercent
	}

	for _, op := range emulatedBatch.Ops {
		if op.V != nil {""")]
TEST='''package boltdb

import (
	"io/ioutil"
	"os"
	"testing"
)

type app struct{}

func (app) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {
	r := append([]byte{}, e...)
	for _, o := range ops {
		r = append(r, o...)
	}
	return r, true
}
func (app) PartialMerge(k, l, r []byte) ([]byte, bool) { return nil, false }
func (app) Name() string                               { return "app" }

func TestZZDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	s, err := New(app{}, map[string]interface{}{"path": d + "/db"})
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	w, _ := s.Writer()
	b := w.NewBatch()
	b.Merge([]byte("m"), []byte("1"))
	b.Set([]byte("a"), []byte("x"))
	b.Set([]byte{}, []byte("x"))
	if err := w.ExecuteBatch(b); err == nil {
		t.Skip("the empty key is accepted")
	}
	r, _ := s.Reader()
	defer r.Close()
	if v, _ := r.Get([]byte("m")); v != nil {
		t.Fatalf("m = %q after a failed batch", v)
	}
}
'''
