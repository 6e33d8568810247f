package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"strconv"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/inputs"
	"github.com/ls6-events/astra/outputs"
	"gopkg.in/yaml.v3"

	"vh/core"
)

// c21Op is a call of a setter.
type c21Op struct {
	name  string
	call  func(*astra.ConfigBuilder) *astra.ConfigBuilder
	model func(*astra.Config)
}

func c21Ops(values int) [][]c21Op {
	var ops [][]c21Op
	str := func(name string, vals []string, set func(*astra.ConfigBuilder, string) *astra.ConfigBuilder, field func(*astra.Config) *string) {
		var l []c21Op
		for _, v := range vals[:min(values, len(vals))] {
			l = append(l, c21Op{pr("%s(%q)", name, v), func(b *astra.ConfigBuilder) *astra.ConfigBuilder { return set(b, v) }, func(c *astra.Config) { *field(c) = v }})
		}
		ops = append(ops, l)
	}
	str("Title", []string{"A title", "tïtle: \"two\"\n- x", ""}, (*astra.ConfigBuilder).SetTitle, func(c *astra.Config) *string { return &c.Title })
	str("Description", []string{"About it", "# {a: b}", ""}, (*astra.ConfigBuilder).SetDescription, func(c *astra.Config) *string { return &c.Description })
	str("Version", []string{"1.0.0", "2.10", ""}, (*astra.ConfigBuilder).SetVersion, func(c *astra.Config) *string { return &c.Version })
	str("Host", []string{"api.example.com", "10.0.0.7", ""}, (*astra.ConfigBuilder).SetHost, func(c *astra.Config) *string { return &c.Host })
	str("BasePath", []string{"/v1/api", "base", ""}, (*astra.ConfigBuilder).SetBasePath, func(c *astra.Config) *string { return &c.BasePath })
	var l []c21Op
	for _, v := range []astra.Contact{{Name: "Jo", URL: "https://jo.example", Email: "jo@example.com"}, {Email: "only@example.com"}, {}, {Name: "N"}, {URL: "u"}, {Name: "N", URL: "u"}, {Name: "N", Email: "e"}, {URL: "u", Email: "e"}}[:min(values, 8)] {
		l = append(l, c21Op{pr("Contact(%v)", v), func(b *astra.ConfigBuilder) *astra.ConfigBuilder { return b.SetContact(v) }, func(c *astra.Config) { c.Contact = v }})
	}
	ops, l = append(ops, l), nil
	for _, v := range []astra.License{{Name: "MIT", URL: "https://mit.example"}, {Name: "own"}, {}, {URL: "u"}}[:min(values, 4)] {
		l = append(l, c21Op{pr("License(%v)", v), func(b *astra.ConfigBuilder) *astra.ConfigBuilder { return b.SetLicense(v) }, func(c *astra.Config) { c.License = v }})
	}
	ops, l = append(ops, l), nil
	for _, v := range []bool{true, false} {
		l = append(l, c21Op{pr("Secure(%v)", v), func(b *astra.ConfigBuilder) *astra.ConfigBuilder { return b.SetSecure(v) }, func(c *astra.Config) { c.Secure = v }})
	}
	ops, l = append(ops, l), nil
	for _, v := range []int{8000, 443, 0}[:min(values, 3)] {
		l = append(l, c21Op{pr("Port(%d)", v), func(b *astra.ConfigBuilder) *astra.ConfigBuilder { return b.SetPort(v) }, func(c *astra.Config) { c.Port = v }})
	}
	return append(ops, l)
}

// c21Default is what the builder gives for a model state.
func c21Default(c astra.Config) astra.Config {
	if c.Host == "" {
		c.Host = "localhost"
	}
	if c.BasePath == "" {
		c.BasePath = "/"
	}
	return c
}

// c21Document compares the information of a document with the configuration.
func c21Document(root map[string]any, c astra.Config) error {
	desc := c.Description
	if desc == "" {
		desc = "Generated by astra"
	}
	info, _ := root["info"].(map[string]any)
	for _, f := range []struct{ place, key, want string }{
		{"", "title", c.Title}, {"", "description", desc}, {"", "version", c.Version},
		{"contact", "name", c.Contact.Name}, {"contact", "url", c.Contact.URL}, {"contact", "email", c.Contact.Email},
		{"license", "name", c.License.Name}, {"license", "url", c.License.URL},
	} {
		m := info
		if f.place != "" {
			m, _ = info[f.place].(map[string]any)
		}
		if got, _ := m[f.key].(string); got != f.want {
			return fmt.Errorf("info %s %s is %q, expected %q", f.place, f.key, got, f.want)
		}
	}
	servers, _ := root["servers"].([]any)
	if len(servers) != 1 {
		return fmt.Errorf("%d servers", len(servers))
	}
	raw, _ := servers[0].(map[string]any)["url"].(string)
	u, err := url.Parse(raw)
	if err != nil {
		return fmt.Errorf("server address %q: %w", raw, err)
	}
	scheme := "http"
	if c.Secure {
		scheme = "https"
	}
	base := c.BasePath
	if base != "" && base[0] != '/' {
		base = "/" + base
	}
	if u.Scheme != scheme || u.Hostname() != c.Host || u.Port() != strconv.Itoa(c.Port) || u.Path != base || u.RawQuery != "" {
		return fmt.Errorf("server address is %q, expected %s on %s port %d at %s", raw, scheme, c.Host, c.Port, base)
	}
	return nil
}

// c21Both generates both forms of a document without routes.
func c21Both(dir string, c *astra.Config) error {
	given := *c
	for _, f := range []string{"o.json", "o.yaml"} {
		s := astra.New(Quiet(), astra.WithCustomWorkDir(dir), outputs.WithOpenAPIOutput(f), astra.WithConfig(c))
		if err := s.Generate(); err != nil {
			return err
		}
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			return err
		}
		os.Remove(filepath.Join(dir, f))
		var root map[string]any
		if f == "o.json" {
			err = json.Unmarshal(b, &root)
		} else {
			err = yaml.Unmarshal(b, &root)
		}
		if err != nil {
			return err
		}
		if err := c21Document(root, given); err != nil {
			return fmt.Errorf("%s: %w", f, err)
		}
	}
	return nil
}

func Quiet() astra.Option { return core.Quiet() }

// c21Build explores the states of the builder: every reachable configuration, and every setter called in each.
func c21Build(w *core.W) error {
	values := 2
	if w.Thorough() {
		values = 3
	}
	ops, calls := c21Ops(values), c21Ops(99)
	dir := filepath.Join(w.Dir, "doc")
	os.MkdirAll(dir, 0o755)
	// A state is which value each setter had last, 0 for not called.
	var choice []int
	n := 0
	var visit func() error
	visit = func() error {
		if len(choice) < len(ops) {
			for v := 0; v <= len(ops[len(choice)]); v++ {
				choice = append(choice, v)
				if err := visit(); err != nil {
					return err
				}
				choice = choice[:len(choice)-1]
			}
			return nil
		}
		n++
		if !w.Mine(n) {
			return nil
		}
		id := pr("builder %v", choice)
		if !w.Start(id) {
			return nil
		}
		steps := 0
		err := guard(func() error {
			var path []c21Op
			var model astra.Config
			// the order of the setters is turned by one place from state to state
			for k := range choice {
				i := (k + n) % len(choice)
				if v := choice[i]; v > 0 {
					path = append(path, ops[i][v-1])
				}
			}
			for _, op := range path {
				op.model(&model)
			}
			build := func() *astra.ConfigBuilder {
				b := astra.NewConfigBuilder()
				for _, op := range path {
					steps++
					b = op.call(b)
				}
				return b
			}
			cmp := func(b *astra.ConfigBuilder, m astra.Config, what string) (*astra.Config, error) {
				steps++
				c, err := b.Build()
				if m.Port == 0 {
					if !errors.Is(err, astra.ErrConfigPortRequired) {
						return nil, fmt.Errorf("%s: without a port the result is %v", what, err)
					}
					if c != nil {
						return nil, fmt.Errorf("%s: a configuration without a port is given out", what)
					}
					return nil, nil
				}
				if err != nil {
					return nil, fmt.Errorf("%s: %w", what, err)
				}
				if want := c21Default(m); !reflect.DeepEqual(*c, want) {
					return nil, fmt.Errorf("%s: built %+v, expected %+v", what, *c, want)
				}
				return c, nil
			}
			b := build()
			first, err := cmp(b, model, "built")
			if err != nil {
				return err
			}
			if first != nil {
				if err := c21Both(dir, first); err != nil {
					return err
				}
			}
			// every setter in this state, also after a build
			for i := range calls {
				for _, op := range calls[i] {
					m := model
					op.model(&m)
					for _, again := range []bool{false, true} {
						b := build()
						var before *astra.Config
						if again {
							if before, err = cmp(b, model, "built before "+op.name); err != nil {
								return err
							}
						}
						steps++
						if _, err := cmp(op.call(b), m, pr("%s after %v (built in between: %v)", op.name, choice, again)); err != nil {
							return err
						}
						if before != nil && !reflect.DeepEqual(*before, c21Default(model)) {
							return fmt.Errorf("%s changed a configuration that was built before: %+v", op.name, *before)
						}
					}
				}
			}
			return nil
		})
		if err != nil {
			w.Violation(id, err.Error(), choice)
		}
		w.Done(id, id, steps)
		return nil
	}
	return visit()
}

// c21Direct are configurations that are given without the builder.
func c21Direct(w *core.W) {
	dir := filepath.Join(w.Dir, "direct")
	os.MkdirAll(dir, 0o755)
	texts := []string{"", "t", "yes", "1.0", "null", "~", "a: b", "- x", "# c", "\"q\"", "'", "é\u2028", "<script>&", "a\nb\n", " lead", "trail ", "{}", "[]", "*a", "&a", "!t", "|", ">", "%d %s", "\\n", "\t", "0x1F", "1_000", "2026-01-01"}
	n := 0
	for i, a := range texts {
		for _, b := range texts {
			for _, secure := range []bool{false, true} {
				n++
				if !w.Mine(n) {
					continue
				}
				id := pr("direct %q %q %v", a, b, secure)
				if !w.Start(id) {
					continue
				}
				c := &astra.Config{Title: a, Description: b, Version: b, Contact: astra.Contact{Name: b, URL: a, Email: a}, License: astra.License{Name: a, URL: b},
					Secure: secure, Host: []string{"localhost", "h.example", "127.0.0.1"}[i%3], Port: 1 + n*37%65535, BasePath: []string{"", "/", "/a", "/a/b/", "c/d"}[n%5]}
				if err := guard(func() error { return c21Both(dir, c) }); err != nil {
					w.Violation(id, err.Error(), c)
				}
				w.Done(id, id, 2)
			}
		}
	}
	for port := 1; port <= 65535; port++ {
		if !w.Mine(port) || !w.Thorough() && port > 16 && port%4093 != 0 && port < 65530 {
			continue
		}
		id := pr("port %d", port)
		if !w.Start(id) {
			continue
		}
		c := &astra.Config{Title: "t", Host: "h", Port: port, BasePath: "/"}
		if err := guard(func() error { return c21Both(dir, c) }); err != nil {
			w.Violation(id, err.Error(), c)
		}
		w.Done(id, id, 2)
	}
}

// c21Missing leaves out parts of a service.
func c21Missing(w *core.W) error {
	fix, err := core.FixModule(w)
	if err != nil {
		return err
	}
	n := 0
	outs := map[string]astra.Option{"o": outputs.WithOpenAPIOutput("o.json"), "y": outputs.WithOpenAPIOutput("o.yaml"), "j": outputs.WithJSONOutput("j.json"), "a": outputs.WithAzureFunctionsOutput("az")}
	for _, out := range []string{"", "o", "y", "j", "a", "oo", "oy", "jo", "oj", "ao", "oa", "ja", "aj", "joa", "yaj"} {
		for _, in := range []bool{false, true} {
			for _, conf := range []bool{false, true} {
				for _, how := range []string{"parse", "setup", "complete", "setup+complete"} {
					for _, cached := range []bool{false, true} {
						n++
						if !w.Few(n, 4) {
							continue
						}
						id := pr("missing out=%s in=%v conf=%v how=%s cached=%v", out, in, conf, how, cached)
						if !w.Start(id) {
							continue
						}
						dir := fix
						err := guard(func() error {
							opts := []astra.Option{Quiet(), astra.WithCustomWorkDir(dir)}
							if in {
								opts = append(opts, inputs.WithGinInput(richEngine(16)))
							}
							if conf {
								opts = append(opts, astra.WithConfig(&astra.Config{Title: "t", Port: 1, Host: "h"}))
							}
							for _, o := range out {
								opts = append(opts, outs[string(o)])
							}
							if cached {
								opts = append(opts, func(s *astra.Service) { s.CacheEnabled = true; s.CachePath = filepath.Join(dir, "c.json") })
							}
							s := astra.New(opts...)
							var err error
							switch how {
							case "parse":
								err = s.Parse()
							case "setup":
								err = s.SetupParse()
							case "complete":
								err = s.CompleteParse()
							default:
								if err = s.SetupParse(); err == nil {
									err = s.CompleteParse()
								}
							}
							wantErr := !in || out == "" || !conf && how != "setup" && containsAny(out, "oy")
							if wantErr && err == nil {
								return errors.New("no error")
							}
							if !wantErr && err != nil {
								return fmt.Errorf("refused: %w", err)
							}
							written := 0
							for _, f := range []string{"o.json", "o.yaml", "j.json", "az"} {
								if _, err := os.Stat(filepath.Join(dir, f)); err == nil {
									written++
									if !in || out == "" || how == "setup" || !conf && f[0] == 'o' {
										return fmt.Errorf("%s is written", f)
									}
								}
							}
							if !in || out == "" {
								if _, err := os.Stat(filepath.Join(dir, "c.json")); err == nil {
									return errors.New("a cache is written")
								}
								if _, err := os.Stat(filepath.Join(dir, ".astra")); err == nil {
									return errors.New("a directory is made")
								}
							}
							return nil
						})
						for _, f := range []string{"o.json", "o.yaml", "j.json", "az", "c.json", ".astra"} {
							os.RemoveAll(filepath.Join(dir, f))
						}
						if err != nil {
							w.Violation(id, err.Error(), nil)
						}
						w.Done(id, id, 1)
					}
				}
			}
		}
	}
	return nil
}

func containsAny(s, chars string) bool {
	for _, c := range chars {
		for _, d := range s {
			if c == d {
				return true
			}
		}
	}
	return false
}

func init() {
	core.Register(&core.Check{
		ID:   "C21",
		Rule: "One case is a reachable state of the configuration builder with every setter called in it, a configuration given directly, or a service with some of its parts missing.",
		Run: func(w *core.W) error {
			if err := c21Build(w); err != nil {
				return err
			}
			c21Direct(w)
			return c21Missing(w)
		},
		Assumptions: []string{"the host is a name or an IPv4 address", "configurations that are given without the builder are not validated, and have no defaults but the description"},
	})
}
