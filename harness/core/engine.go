package core

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs"
)

// FixModule copies the fixtures into a module of the worker and makes the harness the working directory of the
// process, so that the files of compiled handlers have the same relative paths there.
func FixModule(w *W) (string, error) {
	dir := filepath.Join(w.Dir, "fixmod")
	files := map[string]string{}
	root := os.Getenv("VH_HARNESS")
	for _, f := range []string{"fix/a.go", "fix/b.go", "fix/ab.go", "fix/reg/ab.go", "fix/sub/fix/a.go", "fix/reg/b.go", "fix/reg/rich.go", "fix/rich/rich.go"} {
		b, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			return "", err
		}
		files[f] = string(b)
	}
	if err := WriteModule(dir, files); err != nil {
		return "", err
	}
	b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(strings.Replace(string(b), "module "+ModuleName, "module vh", 1)), 0o644); err != nil {
		return "", err
	}
	return dir, os.Chdir(root)
}

// Generate runs a whole generation and returns its document.
func Generate(dir string, opts ...astra.Option) (doc *Doc, svc *astra.Service, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	out := filepath.Join(dir, "openapi.json")
	os.Remove(out)
	all := append([]astra.Option{Quiet(), astra.WithCustomWorkDir(dir), outputs.WithOpenAPIOutput("openapi.json"),
		astra.WithConfig(&astra.Config{Title: "t", Version: "1", Host: "h", Port: 1, BasePath: "/"})}, opts...)
	s := astra.New(all...)
	if err := s.Parse(); err != nil {
		return nil, s, err
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return nil, s, err
	}
	var root map[string]any
	if err := json.Unmarshal(b, &root); err != nil {
		return nil, s, err
	}
	return &Doc{Root: root}, s, nil
}

// Expand writes a part of the document with its references resolved, independent of the names of components.
func (d *Doc) Expand(v any) string {
	var walk func(v any, open []string) any
	walk = func(v any, open []string) any {
		switch t := v.(type) {
		case map[string]any:
			if ref, ok := t["$ref"].(string); ok {
				for i, o := range open {
					if o == ref {
						return map[string]any{"recursive": len(open) - i}
					}
				}
				c, err := d.resolve(ref)
				if err != nil {
					return err.Error()
				}
				return walk(c, append(append([]string{}, open...), ref))
			}
			r := map[string]any{}
			for k, c := range t {
				r[k] = walk(c, open)
			}
			return r
		case []any:
			r := make([]any, len(t))
			for i, c := range t {
				r[i] = walk(c, open)
			}
			return r
		}
		return v
	}
	b, _ := json.Marshal(walk(v, nil))
	return string(b)
}
