// overlaygen writes a "go build -overlay" file that (1) adds the harness
// packages under /repo/zz_verif and (2) replaces, in every non-test Go file of
// the repository's current working tree, imports of sync and sync/atomic by the
// model checker's shims. Nothing else of the file changes.
package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	repo, harness, out := os.Args[1], os.Args[2], os.Args[3]
	repl := map[string]string{}
	must(filepath.Walk(harness, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(harness, p)
			repl[filepath.Join(repo, "zz_verif", rel)] = p
		}
		return nil
	}))
	mod := modulePath(filepath.Join(repo, "go.mod"))
	shim := map[string][2]string{
		`"sync"`:        {"sync", mod + "/zz_verif/vsync"},
		`"sync/atomic"`: {"atomic", mod + "/zz_verif/vatomic"},
	}
	n := 0
	must(filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		base := filepath.Base(p)
		if fi.IsDir() {
			if p != repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ImportsOnly)
		if err != nil {
			return nil // let the compiler report it
		}
		type edit struct {
			from, to int
			text     string
		}
		var edits []edit
		for _, im := range f.Imports {
			s, ok := shim[im.Path.Value]
			if !ok {
				continue
			}
			text := fmt.Sprintf("%q", s[1])
			if im.Name == nil {
				text = s[0] + " " + text
			}
			edits = append(edits, edit{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset, text})
		}
		if len(edits) == 0 {
			return nil
		}
		sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
		s := string(src)
		for _, e := range edits {
			s = s[:e.from] + e.text + s[e.to:]
		}
		rel, _ := filepath.Rel(repo, p)
		dst := filepath.Join(out, "shimmed", rel)
		must(os.MkdirAll(filepath.Dir(dst), 0o755))
		must(os.WriteFile(dst, []byte(s), 0o644))
		repl[p] = dst
		n++
		return nil
	}))
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}

func modulePath(p string) string {
	b, err := os.ReadFile(p)
	must(err)
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	return ""
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "overlaygen:", err)
		os.Exit(3)
	}
}
