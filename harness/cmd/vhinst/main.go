// vhinst OUT DIR...: writes OUT/overlay.json with copies of the packages of the directories in which a scheduling point
// comes before every statement and sync stands for the controlled one of the package vhsync, which is added to the module.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const vhsync = "github.com/ls6-events/astra/astTraversal/vhsync"

type edit struct {
	from, to int
	text     string
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func instrument(src []byte, name string) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	fatal(err)
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	edits := []edit{{off(f.Name.End()), off(f.Name.End()), fmt.Sprintf("; import vhsyncpoint %q", vhsync)}}
	for _, imp := range f.Imports {
		if imp.Path.Value == `"sync"` {
			text := fmt.Sprintf("%q", vhsync)
			if imp.Name == nil {
				text = "sync " + text
			}
			edits = append(edits, edit{off(imp.Path.Pos()), off(imp.Path.End()), text})
		}
	}
	points := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.CaseClause); ok {
				return
			}
			if _, ok := s.(*ast.CommClause); ok {
				return
			}
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "vhsyncpoint.Point(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			points(n.List)
		case *ast.CaseClause:
			points(n.Body)
		case *ast.CommClause:
			points(n.Body)
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var b strings.Builder
	at := 0
	for _, e := range edits {
		b.Write(src[at:e.from])
		b.WriteString(e.text)
		at = e.to
	}
	b.Write(src[at:])
	b.WriteString("\n\nvar _ = vhsyncpoint.Point\n")
	return []byte(b.String())
}

func main() {
	out := os.Args[1]
	replace := map[string]string{}
	for i, dir := range os.Args[2:] {
		names, err := filepath.Glob(filepath.Join(dir, "*.go"))
		fatal(err)
		for _, name := range names {
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			src, err := os.ReadFile(name)
			fatal(err)
			dst := filepath.Join(out, fmt.Sprintf("%d_%s", i, filepath.Base(name)))
			fatal(os.WriteFile(dst, instrument(src, name), 0o644))
			replace[name] = dst
		}
	}
	self, err := filepath.Abs("overlay/vhsync/sync.go")
	fatal(err)
	replace["/repo/astTraversal/vhsync/sync.go"] = self
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	fatal(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}
