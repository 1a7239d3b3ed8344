ID="batch_recycles_ops"; PROP="C10"; PKG="store/gtreap"
NEEDS="a batch that is executed, reset, and filled again with another key of the same or smaller length, on a backend that keeps the batch's slices (in-memory store)"
BREAKS="Reset recycles the operations and their key and value buffers; the in-memory store still refers to them, so refilling the batch rewrites entries that were already committed."
EDITS=[("store/batch.go","""type EmulatedBatch struct {
	Ops    []*op""","""type EmulatedBatch struct {
	free   []*op
	Ops    []*op"""),
("store/batch.go","""func (b *EmulatedBatch) Set(key, val []byte) {
	ck := make([]byte, len(key))
	copy(ck, key)
	cv := make([]byte, len(val))
	copy(cv, val)
	b.Ops = append(b.Ops, &op{ck, cv})
}
""","""func (b *EmulatedBatch) Set(key, val []byte) {
	o := &op{V: make([]byte, 0, len(val))}
	if n := len(b.free); n > 0 {
		o, b.free = b.free[n-1], b.free[:n-1]
	}
	o.K = append(o.K[:0], key...)
	o.V = append(o.V[:0], val...)
	b.Ops = append(b.Ops, o)
}
"""),
("store/batch.go","""	b.Ops = b.Ops[:0]
""","""	for _, o := range b.Ops {
		if o.V != nil {
			b.free = append(b.free, o)
		}
	}
	b.Ops = b.Ops[:0]
""")]
TEST='''package gtreap

import "testing"

func TestZZDemo(t *testing.T) {
	s, err := New(nil, map[string]interface{}{"path": ""})
	if err != nil {
		t.Fatal(err)
	}
	w, _ := s.Writer()
	b := w.NewBatch()
	b.Set([]byte("a1"), []byte("x"))
	if err := w.ExecuteBatch(b); err != nil {
		t.Fatal(err)
	}
	b.Reset()
	b.Set([]byte("b2"), []byte("y"))
	if err := w.ExecuteBatch(b); err != nil {
		t.Fatal(err)
	}
	r, _ := s.Reader()
	if v, _ := r.Get([]byte("a1")); string(v) != "x" {
		t.Fatalf("a1 = %q", v)
	}
	if v, _ := r.Get([]byte("b2")); string(v) != "y" {
		t.Fatalf("b2 = %q", v)
	}
}
'''
