// Package checks holds the checks, one per property.
package checks

import (
	"fmt"
	"strings"

	"vh/core"
)

type (
	X    = core.X
	Unit = core.Unit
	Resp = core.Resp
	Par  = core.Par
)

func pr(f string, a ...any) string { return fmt.Sprintf(f, a...) }

func scalar(n string) *X { return core.Scalars[n] }

func obj(kv ...any) *X {
	props := map[string]*X{}
	for i := 0; i+1 < len(kv); i += 2 {
		props[kv[i].(string)] = kv[i+1].(*X)
	}
	return core.Obj(props)
}

// support are the packages that the generated handlers use.
var support = map[string]string{
	"ext/ext.go": `// Package ext is used by the handlers.
package ext

import (
	"net/http"

	"github.com/gin-gonic/gin"
)

const (
	Code     = 202
	CodeExpr = Code + 1
	Name     = "ext-name"
)

const (
	Iota0 = iota + 300
	Iota1
)

var VarCode = 206

var VarName = "ext-var"

const hidden = "-hidden"

var (
	VarOfConst  = Name
	VarOfVar    = VarName
	VarOfExpr   = Name + "-expr" + hidden
	CodeOfConst = Code
	CodeOfHTTP  = http.StatusTeapot
	CodeOfVar   = CodeOfHTTP
)

// Item is documented in ext.
type Item struct {
	Sku   string ` + "`json:\"sku\"`" + `
	Price float64 ` + "`json:\"price\"`" + `
}

type Plain struct {
	Left  int
	Right string
}

type Color string

const (
	Red   Color = "red"
	Green Color = "green"
)

type Level int

const (
	Low  Level = 1
	High Level = 2
)

type Tags []string

type Base struct {
	ID int64 ` + "`json:\"id\"`" + `
}

var Shared Item

func MakeItem() Item { return Item{} }

func MakePair() (Plain, Item) { return Plain{}, Item{} }

func Respond(c *gin.Context) { c.JSON(CodeExpr, Item{}) }

func RespondPlain(ctx *gin.Context, n int) { ctx.JSON(Iota1, Plain{}); _ = ctx.Query("from-ext") }
`,
	"time/time.go": `package time

type Time struct{ Hour, Minute int }

type Duration float64
`,
	"google/uuid/uuid.go": `package uuid

type UUID []string
`,
	"deep/ext/ext.go": `package ext

import (
	"github.com/gin-gonic/gin"

	up "vapp/ext"
)

const Code = 409

type Item struct {
	Deep bool ` + "`json:\"deep\"`" + `
}

type Wrap struct {
	Up   up.Item ` + "`json:\"up\"`" + `
	Mine Item ` + "`json:\"mine\"`" + `
}

func Respond(c *gin.Context) { c.JSON(Code, Item{}) }

func Chain(c *gin.Context) { up.Respond(c); c.JSON(Code, Wrap{}) }
`,
}

func xItem() *X     { return obj("sku", scalar("string"), "price", scalar("float64")) }
func xPlain() *X    { return obj("Left", scalar("int"), "Right", scalar("string")) }
func xDeepItem() *X { return obj("deep", scalar("bool")) }
func xWrap() *X     { return obj("up", xItem(), "mine", xDeepItem()) }
func xColor() *X    { return core.EnumOf(scalar("string"), "red", "green") }
func xLevel() *X    { return core.EnumOf(scalar("int"), 1, 2) }
func xBase() *X     { return obj("id", scalar("int64")) }

const (
	impExt  = `"vapp/ext"`
	impDeep = `deepext "vapp/deep/ext"`
	impHTTP = `"net/http"`
)

// sub replaces $N with the unique suffix of a unit.
func sub(src, n string) string { return strings.ReplaceAll(src, "$N", n) }

func handler(n, body string) string {
	return pr("func H%s(c *gin.Context) {\n%s\n}\n", n, sub(body, n))
}

func subAll(s, old, new string) string { return strings.ReplaceAll(s, old, new) }

func indexOf(s, sub string) int { return strings.Index(s, sub) }
