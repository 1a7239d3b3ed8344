ID="parse_second_slash"; PROP="T03"; PKG="s2tools"
NEEDS="a path with a second slash"
BREAKS="Slashes inside the path are skipped, so a malformed path is answered with a cell."
EDITS=[("s2tools/parse.go","""			child, err := strconv.Atoi(string(b))
""","""			if b == '/' {
				continue
			}
			child, err := strconv.Atoi(string(b))
""")]
TEST='''package s2tools

import "testing"

func TestZZDemo(t *testing.T) {
	if c := ParseCellID("2/3/1"); c != nil {
		t.Fatal(c)
	}
	if c := ParseCellID("2/31"); c == nil {
		t.Fatal("nil")
	}
}
'''
