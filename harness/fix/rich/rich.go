// Package rich has handlers that use everything that is documented.
package rich

import (
	"net/http"
	"time"

	"github.com/gin-gonic/gin"

	base "vh/fix"
	other "vh/fix/sub/fix"
)

// Color is a color.
type Color string

const (
	Red   Color = "red"
	Green Color = "green"
	Blue  Color = "blue"
)

// Level is a level.
type Level int

const (
	Low  Level = 1
	High Level = 2000000
)

type Rate float64

const (
	Half Rate = 0.5
	Many Rate = 3e7
)

// Audit is embedded.
type Audit struct {
	CreatedAt time.Time     `json:"created_at" xml:"createdAt" yaml:"created" form:"created_at" header:"X-Created"`
	TTL       time.Duration `json:"ttl" xml:"ttl" yaml:"ttl" form:"ttl" header:"X-Ttl"`
}

// Item has the name of types of other packages.
type Item struct {
	Audit
	Color  Color                 `json:"color" xml:"Color" yaml:"col" form:"color" header:"X-Color" binding:"required"`
	Levels []Level               `json:"levels" xml:"Level" yaml:"lev" form:"levels" header:"X-Levels"`
	Rates  map[string]Rate       `json:"rates" xml:"Rates" yaml:"rates" form:"rates" header:"X-Rates"`
	Base   base.Item             `json:"base" xml:"Base" yaml:"base" form:"base" header:"X-Base"`
	Next   *Item                 `json:"next,omitempty" xml:"Next" yaml:"next" form:"next" header:"X-Next"`
	Hidden string                `json:"-" xml:"-" yaml:"-" form:"-" header:"-"`
	Any    any                   `json:"any" xml:"Any" yaml:"any" form:"any" header:"X-Any"`
	Fixed  [3]int                `json:"fixed" xml:"Fixed" yaml:"fixed" form:"fixed" header:"X-Fixed"`
	Others map[string]other.Item `json:"others" xml:"Others" yaml:"others" form:"others" header:"X-Others"`
}

// Filter has no tags.
type Filter struct {
	Color Color
	Page  int
	Tags  []string
}

// Head is bound to headers.
type Head struct {
	Trace string `header:"X-Trace"`
	Depth int    `header:"X-Depth"`
}

// List is a named slice.
type List []Item

// List lists items, with "quotes", a \ and <angles>.
//
// It has two paragraphs: of text.
func ListItems(c *gin.Context) {
	var f Filter
	if err := c.ShouldBindQuery(&f); err != nil {
		c.AbortWithStatusJSON(http.StatusBadRequest, gin.H{"error": err.Error()})
		return
	}
	_ = c.QueryArray("ids")
	_ = c.QueryMap("opts")
	_ = c.GetHeader("X-Request-Id")
	c.Header("X-Total", "1")
	c.JSON(http.StatusOK, List{})
	c.XML(http.StatusOK, Item{})
	c.YAML(http.StatusOK, Item{})
}

// CreateItem creates an item.
func CreateItem(c *gin.Context) {
	var h Head
	_ = c.ShouldBindHeader(&h)
	var in Item
	switch c.ContentType() {
	case "application/xml":
		_ = c.ShouldBindXML(&in)
	case "application/yaml":
		_ = c.ShouldBindYAML(&in)
	default:
		_ = c.ShouldBindJSON(&in)
	}
	base.Remote(c)
	c.JSON(http.StatusCreated, in)
}

// Upload takes a form.
func Upload(c *gin.Context) {
	_, _ = c.FormFile("file")
	_ = c.PostForm("title")
	_ = c.PostFormArray("tags")
	_ = c.PostFormMap("meta")
	c.String(http.StatusOK, "ok")
	c.Data(http.StatusAccepted, "image/png", nil)
}

// Replace replaces an item.
func Replace(c *gin.Context) {
	var in map[string]Item
	_ = c.BindJSON(&in)
	c.JSON(http.StatusOK, map[string]base.Item{})
	c.JSON(http.StatusConflict, []other.Item{})
	c.Status(http.StatusNoContent)
}

// Counts uses basic types.
func Counts(c *gin.Context) {
	c.JSON(http.StatusOK, 1)
	c.JSON(http.StatusAccepted, Low)
	c.XML(http.StatusOK, Red)
	c.JSON(http.StatusTeapot, Half)
	c.Redirect(http.StatusFound, "/")
}
