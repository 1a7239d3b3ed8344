ID="level_prefix_ff"; PROP="C03"; PKG="store/goleveldb"
NEEDS="a prefix ending in the byte 0xff"
BREAKS="The upper bound of the scan is computed by incrementing the last byte without carry, so prefixes ending in 0xff visit nothing."
EDITS=[("store/goleveldb/reader.go","	byteRange := util.BytesPrefix(prefix)\n","""	byteRange := &util.Range{Start: prefix}
	if n := len(prefix); n > 0 {
		byteRange.Limit = append([]byte{}, prefix...)
		byteRange.Limit[n-1]++
	}
""")]
TEST='''package goleveldb

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	s, err := New(nil, map[string]interface{}{"path": d, "create_if_missing": true})
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	w, _ := s.Writer()
	b := w.NewBatch()
	for _, k := range []string{"a\\xfe", "a\\xff", "a\\xff\\x01", "b"} {
		b.Set([]byte(k), []byte("x"))
	}
	if err := w.ExecuteBatch(b); err != nil {
		t.Fatal(err)
	}
	r, _ := s.Reader()
	defer r.Close()
	it := r.PrefixIterator([]byte("a\\xff"))
	defer it.Close()
	n := 0
	for ; it.Valid(); it.Next() {
		n++
	}
	if n != 2 {
		t.Fatalf("visited %d", n)
	}
}
'''
