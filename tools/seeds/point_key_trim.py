ID="point_key_trim"; PROP="I10"; PKG="index"
NEEDS="two ids at one position one of which ends in a zero byte"
BREAKS="PointKey trims zero bytes at the end of the id, so two ids that differ only there share a key."
EDITS=[("index/s2pointidx.go","""	cid := append([]byte(nil), id...)
""","""	cid := append([]byte(nil), bytes.TrimRight(id, "\\x00")...)
""")]
TEST='''package index

import (
	"bytes"
	"testing"

	"github.com/akhenakh/oureadb/store/gtreap"
)

func TestZZDemo(t *testing.T) {
	s, err := gtreap.New(nil, map[string]interface{}{"path": ""})
	if err != nil {
		t.Fatal(err)
	}
	x := NewS2PointIdx(s, []byte("p"))
	if bytes.Equal(x.PointKey(1, 2, GeoID("a")), x.PointKey(1, 2, GeoID("a\\x00"))) {
		t.Fatal("two ids, one key")
	}
}
'''
