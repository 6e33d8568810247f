package reg

import "github.com/gin-gonic/gin"

// .
// .
// .
// .
// .
// .
// .
// .
// .
// .
// .
func decoy() gin.HandlerFunc {
	return func(c *gin.Context) {
		c.Status(297)
	}
}

var _ = decoy
