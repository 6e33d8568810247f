package fix

import (
	"github.com/gin-gonic/gin"

	"vh/fix/sub/fix"
)

type local struct {
	B int `json:"b"`
}

// Delete deletes.
func Delete(c *gin.Context) {
	c.YAML(200, local{})
	shared(c)
}

// OtherItem responds with the item of the other package.
func OtherItem(c *gin.Context) {
	c.JSON(200, fix.Item{})
	c.JSON(201, Item{})
}

// Factory makes handlers.
func Factory(n int) gin.HandlerFunc {
	_ = n
	return func(c *gin.Context) {
		c.JSON(203, local{})
		_ = c.Query("factory")
	}
}

// Factory2 makes others.
func Factory2() (gin.HandlerFunc, gin.HandlerFunc) {
	// first is a handler
	first := func(c *gin.Context) {
		_ = c.Query("first")
		c.Status(211)
	}
	return first, func(c *gin.Context) {
		_ = c.Query("second")
		c.Status(212)
	}
}

// Inline returns the literals of one function.
//
//go:noinline
func Inline() map[string]gin.HandlerFunc {
	m := map[string]gin.HandlerFunc{
		"one": func(c *gin.Context) {
			c.JSON(221, Item{})
		},
		"two": func(c *gin.Context) {
			c.JSON(222, local{})
			func() {
				c.Header("X-Two", "2")
			}()
		},
	}
	func() {
		m["nested"] = func(c *gin.Context) {
			c.JSON(223, fix.Item{})
			_ = c.QueryArray("nested")
		}
	}()
	return m
}

var table = map[string]gin.HandlerFunc{}

func init() {
	table["init0"] = func(c *gin.Context) {
		c.Status(231)
	}
}

func init() {
	table["init1"] = func(c *gin.Context) {
		c.Status(232)
		_ = c.GetHeader("X-Init1")
	}
}

// Table are the handlers that were set by init functions.
func Table() map[string]gin.HandlerFunc { return table }
