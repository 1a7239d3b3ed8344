ID="partial_merge_swapped"; PROP="C08"; PKG="store/gtreap"
NEEDS="a merge operator that combines operands beforehand and is not commutative, and two operands for one key in one batch"
BREAKS="The operands are combined in the wrong order, so the merged value has them reversed."
EDITS=[("store/merge.go","m.mo.PartialMerge(key, last, val)","m.mo.PartialMerge(key, val, last)")]
TEST='''package gtreap

import "testing"

type app struct{}

func (app) FullMerge(k, e []byte, ops [][]byte) ([]byte, bool) {
	r := append([]byte{}, e...)
	for _, o := range ops {
		r = append(r, o...)
	}
	return r, true
}
func (app) PartialMerge(k, l, r []byte) ([]byte, bool) { return append(append([]byte{}, l...), r...), true }
func (app) Name() string                               { return "app" }

func TestZZDemo(t *testing.T) {
	s, err := New(app{}, map[string]interface{}{"path": ""})
	if err != nil {
		t.Fatal(err)
	}
	w, _ := s.Writer()
	b := w.NewBatch()
	b.Merge([]byte("k"), []byte("1"))
	b.Merge([]byte("k"), []byte("2"))
	if err := w.ExecuteBatch(b); err != nil {
		t.Fatal(err)
	}
	r, _ := s.Reader()
	if v, _ := r.Get([]byte("k")); string(v) != "12" {
		t.Fatalf("k = %q", v)
	}
}
'''
