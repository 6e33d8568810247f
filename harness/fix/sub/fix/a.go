// Package fix has the same name as the package that uses it, and a file of the same name.
package fix

import "github.com/gin-gonic/gin"

// Item is another item.
type Item struct {
	Other bool `json:"other"`
}

// Respond responds.
func Respond(c *gin.Context) {
	c.JSON(207, Item{})
	_ = c.Query("remote")
}

// Get gets another item.
func Get(c *gin.Context) {
	c.JSON(200, Item{})
	_ = c.Query("other-get")
}

// Delete deletes another item.
func Delete(c *gin.Context) {
	c.Status(204)
}
