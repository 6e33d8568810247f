package reg

import (
	"github.com/gin-gonic/gin"

	"vh/fix/rich"
)

// Route is a route of the rich handlers.
type Route struct {
	Method, Path string
	Handler      gin.HandlerFunc
}

// Rich are the routes of the rich handlers.
func Rich() []Route {
	return []Route{
		{"GET", "/items", rich.ListItems},
		{"POST", "/items", rich.CreateItem},
		{"PUT", "/items/:id", rich.Replace},
		{"POST", "/items/:id/upload/*name", rich.Upload},
		{"GET", "/counts", rich.Counts},
	}
}
