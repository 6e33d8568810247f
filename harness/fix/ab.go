package fix

// The name of this file ends with those of the others.

import "github.com/gin-gonic/gin"

type decoy struct{}

// .
// .
// .
// .
// Delete is not registered.
func (decoy) Delete(c *gin.Context) { c.Status(298); _ = c.Query("decoy") }
