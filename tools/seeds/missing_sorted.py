ID='missing_sorted'
PROP='T02'
PKG='s2tools'
NEEDS='a union that is not sorted, or that has a cell twice'
BREAKS='Both unions are walked side by side as if they were sorted.'
EDITS=[('s2tools/cellunion.go', '\t\tret = append(ret, c)\n\t}\n', '\t\tret = append(ret, c)\n\t}\n\t// no cell is reported twice in a row\n\tfor i := 1; i < len(ret); i++ {\n\t\tif ret[i] == ret[i-1] {\n\t\t\tret = append(ret[:i], ret[i+1:]...)\n\t\t\ti--\n\t\t}\n\t}\n')]
TEST='package s2tools\n\nimport (\n\t"testing"\n\n\t"github.com/golang/geo/s2"\n)\n\nfunc TestZZDemo(t *testing.T) {\n\ta := s2.CellUnion{s2.CellIDFromFace(1), s2.CellIDFromFace(1), s2.CellIDFromFace(1)}\n\tif r := CellUnionMissing(a, a[:1]); len(r) != 2 {\n\t\tt.Fatal(r)\n\t}\n}\n'
