package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

// modelPkg is an engine package replaced by a contract model; keep lists the real
// files that stay.
type modelPkg struct {
	mod, sub, model, pkg string
	keep                 []string
}

var modelPkgs = []modelPkg{
	{"github.com/boltdb/bolt", "", "bolt", "bolt", []string{"errors.go"}},
	{"github.com/dgraph-io/badger", "", "badger", "badger", []string{"errors.go", "options.go", "logger.go"}},
	{"github.com/syndtr/goleveldb", "leveldb", "leveldb", "leveldb", []string{"errors.go"}},
}

var modDirs = map[string]string{}
var modMu sync.Mutex

func modDir(mod string) (string, error) {
	modMu.Lock()
	defer modMu.Unlock()
	if d, ok := modDirs[mod]; ok {
		return d, nil
	}
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", mod)
	cmd.Dir = harnessDir()
	cmd.Env = baseEnv()
	b, err := cmd.Output()
	if err != nil {
		return "", fmt.Errorf("go list -m %s: %v", mod, err)
	}
	d := strings.TrimSpace(string(b))
	modDirs[mod] = d
	return d, nil
}

// Variant is one configuration of sources: which replacements and module graph a load or
// build uses.
type Variant struct {
	Overlay map[string][]byte
	ModFile string
	Flags   []string
}

// buildVariant prepares the sources below dir. withModels replaces the storage engines by their
// contract models; instr names further source instrumentations.
func buildVariant(dir string, withModels bool, instr string) (*Variant, error) {
	v := &Variant{Overlay: map[string][]byte{}}
	gm, err := ioutil.ReadFile(filepath.Join(harnessDir(), "go.mod"))
	if err != nil {
		return nil, err
	}
	mod := string(gm)
	if r := repoDir(); r != "/repo" {
		mod = strings.Replace(mod, "=> /repo", "=> "+r, 1)
	}
	if withModels {
		for _, m := range modelPkgs {
			to := filepath.Join(dir, "mods", m.model)
			if err := m.write(to); err != nil {
				return nil, err
			}
			mod += fmt.Sprintf("\nreplace %s => %s\n", m.mod, to)
		}
	}
	for _, in := range strings.Split(instr, "+") {
		if in == "" {
			continue
		}
		f, ok := instrumenters[in]
		if !ok {
			return nil, fmt.Errorf("unknown instrumentation %q", in)
		}
		if err := f(v, dir, &mod); err != nil {
			return nil, err
		}
	}
	if err := os.MkdirAll(dir, 0o777); err != nil {
		return nil, err
	}
	v.ModFile = filepath.Join(dir, "verif.mod")
	if err := ioutil.WriteFile(v.ModFile, []byte(mod), 0o666); err != nil {
		return nil, err
	}
	sum, _ := ioutil.ReadFile(filepath.Join(harnessDir(), "go.sum"))
	if err := ioutil.WriteFile(filepath.Join(dir, "verif.sum"), sum, 0o666); err != nil {
		return nil, err
	}
	v.Flags = []string{"-modfile=" + v.ModFile, "-trimpath"}
	return v, nil
}

// write lays out the module with its engine package replaced by the model.
func (m modelPkg) write(to string) error {
	d, err := modDir(m.mod)
	if err != nil {
		return err
	}
	src, err := ioutil.ReadFile(filepath.Join(verifDir, "models", m.model, "model.go"))
	if err != nil {
		return err
	}
	keep := map[string]bool{}
	for _, k := range m.keep {
		keep[filepath.Join(m.sub, k)] = true
	}
	err = filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(d, p)
		if fi.IsDir() {
			if b := filepath.Base(p); strings.HasPrefix(b, ".") && b != "." || b == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		dir := filepath.Dir(rel)
		if dir == "." {
			dir = ""
		}
		if rel != "go.mod" && (!strings.HasSuffix(rel, ".go") || strings.HasSuffix(rel, "_test.go") || dir == m.sub && !keep[rel]) {
			return nil
		}
		return copyFile(p, filepath.Join(to, rel))
	})
	if err != nil {
		return err
	}
	if _, err := os.Stat(filepath.Join(to, "go.mod")); err != nil {
		if err := ioutil.WriteFile(filepath.Join(to, "go.mod"), []byte("module "+m.mod+"\n"), 0o666); err != nil {
			return err
		}
	}
	return ioutil.WriteFile(filepath.Join(to, m.sub, "model.go"), src, 0o666)
}

func copyFile(from, to string) error {
	b, err := ioutil.ReadFile(from)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(to), 0o777); err != nil {
		return err
	}
	return ioutil.WriteFile(to, b, 0o666)
}

var instrumenters = map[string]func(v *Variant, dir string, mod *string) error{}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func parseGo(name string, src []byte) error {
	_, err := parser.ParseFile(token.NewFileSet(), name, src, 0)
	return err
}

func cmdOverlay(args []string) {
	dir := args[0]
	instr := ""
	if len(args) > 1 {
		instr = args[1]
	}
	v, err := buildVariant(dir, true, instr)
	if err != nil {
		fmt.Println(err)
		return
	}
	jf, err := writeOverlay(dir, v.Overlay)
	fmt.Println(jf, v.Flags, err)
}
