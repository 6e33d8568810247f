// Package reg has the handlers by name, as the package that registers them refers to them.
package reg

import (
	"github.com/gin-gonic/gin"

	"vh/fix"
	other "vh/fix/sub/fix"
)

// Get is not registered: fix.Get is.
func Get(c *gin.Context) {
	c.Status(299)
}

func small() gin.HandlerFunc {
	return func(c *gin.Context) {
		c.Status(241)
	}
}

func oneLine() gin.HandlerFunc { return func(c *gin.Context) { c.Status(242); _ = c.Query("one-line") } }

var global = func(c *gin.Context) {
	c.Status(243)
	_ = c.GetHeader("X-Global")
}

//go:noinline
func kept() gin.HandlerFunc {
	return func(c *gin.Context) {
		c.Status(244)
	}
}

// Handlers are all handlers.
func Handlers() map[string]gin.HandlerFunc {
	f1, f2 := fix.Factory2()
	in := fix.Inline()
	return map[string]gin.HandlerFunc{
		"get":      fix.Get,
		"getall":   fix.GetAll,
		"create":   fix.Create,
		"update":   fix.Update,
		"remote":   fix.Remote,
		"undoc":    fix.Undocumented,
		"delete":   fix.Delete,
		"other":    fix.OtherItem,
		"factory":  fix.Factory(1),
		"first":    f1,
		"second":   f2,
		"one":      in["one"],
		"two":      in["two"],
		"nested":   in["nested"],
		"init0":    fix.Table()["init0"],
		"init1":    fix.Table()["init1"],
		"subget":   other.Get,
		"subdel":   other.Delete,
		"small":    small(),
		"one-line": oneLine(),
		"global":   global,
		"kept":     kept(),
		"here": func(c *gin.Context) {
			c.JSON(245, fix.Item{})
		},
	}
}
