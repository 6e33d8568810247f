package checks

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs"

	"vh/core"
)

// c12Phases stores and restores a real generation at its phases.
func c12Phases(w *core.W) error {
	dir, err := core.FixModule(w)
	if err != nil {
		return err
	}
	phases := []func(*astra.Service) error{
		(*astra.Service).Setup, (*astra.Service).CreateRoutes, (*astra.Service).ParseRoutes, (*astra.Service).Clean, (*astra.Service).Generate, (*astra.Service).Teardown,
	}
	make1 := func(mask int) *astra.Service {
		opts := append(richOptions(mask), astra.WithCustomWorkDir(dir), astra.WithPathDenyList("/counts/never"),
			outputs.WithOpenAPIOutput("o.json"), outputs.WithOpenAPIOutput("o.yaml"), outputs.WithJSONOutput("j"))
		if mask%3 == 0 {
			opts = append(opts, astra.WithCustomTypeMappingSingle("vh/fix/rich.Color", "string", "color"), astra.WithCustomTypeMappingSingle("time.Time", "integer", "unix"))
		}
		return astra.New(opts...)
	}
	read := func() map[string]string {
		r := map[string]string{}
		for _, f := range []string{"o.json", "o.yaml", "j.json"} {
			b, err := os.ReadFile(filepath.Join(dir, f))
			if err != nil {
				r[f] = err.Error()
			} else {
				r[f] = string(b)
			}
			os.Remove(filepath.Join(dir, f))
		}
		return r
	}
	n := 0
	for mask := 1; mask <= richAll; mask++ {
		var want map[string]string
		for at := 1; at < 1<<(len(phases)-1); at++ {
			n++
			if !w.Few(n, 3) {
				continue
			}
			for _, file := range []string{"c.json", "c.yaml", ""} {
				if file == "" && !w.Thorough() && at&(at-1) != 0 {
					continue
				}
				id := fmt.Sprintf("phases routes=%d stored=%05b %s", mask, at, file)
				if !w.Start(id) {
					continue
				}
				err := guard(func() error {
					if want == nil {
						if err := make1(mask).Parse(); err != nil {
							return fmt.Errorf("undisturbed: %w", err)
						}
						want = read()
					}
					s := make1(mask)
					for p, phase := range phases {
						if err := phase(s); err != nil {
							return fmt.Errorf("phase %d: %w", p, err)
						}
						if at>>p&1 == 0 {
							continue
						}
						if file != "" {
							s.CachePath = filepath.Join(w.Dir, file)
						}
						if err := s.Cache(); err != nil {
							return err
						}
						// the functions of the inputs and outputs are bound again, like the CLI does
						t := make1(mask)
						t.CachePath = s.CachePath
						in, out := t.Inputs, t.Outputs
						if err := t.LoadCache(); err != nil {
							return err
						}
						t.Inputs, t.Outputs = in, out
						s = t
					}
					return diffTrees(read(), want)
				})
				if err != nil {
					w.Violation(id, err.Error(), nil)
				}
				w.Done(id, id, 12)
				os.RemoveAll(filepath.Join(dir, ".astra"))
			}
		}
	}
	return nil
}
