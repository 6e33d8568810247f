// Package fix has the handlers that are registered on real engines.
package fix

import (
	"net/http"

	"github.com/gin-gonic/gin"

	other "vh/fix/sub/fix"
)

// Item is an item.
type Item struct {
	Name string `json:"name" xml:"Name"`
}

// Get gets.
func Get(c *gin.Context) {
	c.JSON(http.StatusOK, Item{})
	_ = c.Query("get")
}

// GetAll gets all.
func GetAll(c *gin.Context) {
	c.JSON(http.StatusAccepted, []Item{})
	_ = c.Query("getall")
}

// Holder has a method with the name of a function.
type Holder struct{}

// Create is a method.
func (h Holder) Create(c *gin.Context) {
	c.JSON(http.StatusTeapot, Holder{})
	_ = c.Query("method")
}

// Create creates.
func Create(ctx *gin.Context) {
	var in Item
	if err := ctx.ShouldBindJSON(&in); err != nil {
		shared(ctx)
		return
	}
	ctx.XML(http.StatusCreated, in)
}

// shared is used by several handlers.
func shared(c *gin.Context) {
	c.JSON(http.StatusBadRequest, gin.H{})
	c.Header("X-Shared", "1")
}

// Update updates.
func Update(
	c *gin.Context,
) {
	_ = c.PostForm("field")
	shared(c)
	other.Respond(c)
	c.Status(http.StatusNoContent)
}

// Remote does everything in another package.
func Remote(c *gin.Context) {
	other.Respond(c)
}

func Undocumented(c *gin.Context) { c.String(http.StatusOK, "x"); _ = c.GetHeader("X-U") }
