package core

// StubGin is a package with the path and the names of gin, but without anything in it: loading it takes no time.
// A module with the go.mod of StubModule has it in the directory gin.
const StubGin = `// Package gin stands in for gin where only its names matter.
package gin

type H map[string]any

type HandlerFunc func(*Context)

type Engine struct{}

func New() *Engine { return &Engine{} }

func (e *Engine) GET(path string, handlers ...HandlerFunc)  {}
func (e *Engine) POST(path string, handlers ...HandlerFunc) {}
func (e *Engine) Run(addr ...string) error                  { return nil }

type Context struct{}

func (c *Context) JSON(code int, obj any)                        {}
func (c *Context) XML(code int, obj any)                         {}
func (c *Context) YAML(code int, obj any)                        {}
func (c *Context) String(code int, format string, values ...any) {}
func (c *Context) Status(code int)                               {}
func (c *Context) Header(key, value string)                      {}
func (c *Context) GetHeader(key string) string                   { return "" }
func (c *Context) Query(key string) string                       { return "" }
func (c *Context) PostForm(key string) string                    { return "" }
func (c *Context) ShouldBindJSON(obj any) error                  { return nil }
func (c *Context) ShouldBindQuery(obj any) error                 { return nil }
`

// StubModule is the go.mod of a module with the path $MOD.
const StubModule = `module $MOD

go 1.21

require github.com/gin-gonic/gin v1.9.1

replace github.com/gin-gonic/gin => ./gin
`
