ID="missing_last_wins"; PROP="T02"; PKG="s2tools"
NEEDS="a cell that `from` has twice and `to` once, more than one position apart"
BREAKS="A repeated cell of `from` is answered from the previous answer, so its second occurrence is not reported as missing."
EDITS=[("s2tools/cellunion.go","""		if m[c] > 0 {
			m[c]--
			continue
		}
""","""		if n, ok := m[c]; ok && n >= 0 {
			if n--; n > 0 {
				m[c] = n
			}
			continue
		}
""")]
TEST='''package s2tools

import (
	"testing"

	"github.com/golang/geo/s2"
)

func TestZZDemo(t *testing.T) {
	a, b := s2.CellIDFromFace(1), s2.CellIDFromFace(2)
	if res := CellUnionMissing(s2.CellUnion{a, b, a}, s2.CellUnion{a}); len(res) != 2 || res[0] != b || res[1] != a {
		t.Fatal(res)
	}
}
'''
