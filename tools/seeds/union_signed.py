ID="union_signed"; PROP="T01"; PKG="s2tools"
NEEDS="cells of face 0 to 3 and of face 4 or 5 in one union"
BREAKS="Cells are compared by the difference of their ids as a signed number, so cells far apart are in the wrong order."
EDITS=[("s2tools/cellunion.go","return uint64(res[i]) < uint64(res[j])","return int64(res[i]-res[j]) < 0")]
TEST='''package s2tools

import (
	"testing"

	"github.com/golang/geo/s2"
)

func TestZZDemo(t *testing.T) {
	var cu s2.CellUnion
	for f := 0; f < 6; f += 5 {
		cu = append(cu, s2.CellIDFromFace(f))
	}
	res := CellUnionUnion(cu)
	_ = res
	for i := range res {
		if res[i] != cu[i] {
			t.Fatal(res)
		}
	}
}
'''
