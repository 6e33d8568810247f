package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/gin-gonic/gin"
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/inputs"

	"vh/core"
	"vh/fix/reg"
)

// richEngine has the rich routes of a bit mask, in order.
func richEngine(mask int) *gin.Engine {
	r := gin.New()
	for i, rt := range reg.Rich() {
		if mask>>i&1 == 1 {
			r.Handle(rt.Method, rt.Path, rt.Handler)
		}
	}
	return r
}

const richAll = 1<<5 - 1

// richOptions are the options of a service with the rich routes of a mask.
func richOptions(mask int) []astra.Option {
	return []astra.Option{
		core.Quiet(),
		astra.WithConfig(&astra.Config{Title: fmt.Sprint("title ", mask), Description: "d", Version: "1.2", Host: "h.example", Port: 8080 + mask, BasePath: "/base", Secure: mask%2 == 0}),
		inputs.WithGinInput(richEngine(mask)),
	}
}

// tree reads all files below a directory, but not what is skipped.
func tree(dir string, skip func(rel string) bool) map[string]string {
	r := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil || rel == "." {
			return nil
		}
		if skip != nil && skip(rel) {
			if info.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		switch {
		case info.IsDir():
			r[rel+"/"] = ""
		case info.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			r[rel] = "-> " + t
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				r[rel] = "error: " + err.Error()
			} else {
				r[rel] = string(b)
			}
		}
		return nil
	})
	return r
}

// diffTrees says in one line how two trees differ.
func diffTrees(got, want map[string]string) error {
	var names []string
	for k := range got {
		names = append(names, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	var d []string
	for _, k := range names {
		g, okG := got[k]
		x, okX := want[k]
		switch {
		case !okG:
			d = append(d, k+" is missing")
		case !okX:
			d = append(d, k+" is there")
		case g != x:
			d = append(d, fmt.Sprintf("%s differs: %q, expected %q", k, diffFrom(g, x), diffFrom(x, g)))
		}
	}
	if len(d) == 0 {
		return nil
	}
	return fmt.Errorf("%s", strings.Join(d, "; "))
}

// guard turns a panic into an error.
func guard(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return f()
}
