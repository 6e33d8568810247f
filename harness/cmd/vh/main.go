// Command vh runs the checks.
package main

import (
	"fmt"
	"os"

	_ "vh/checks"
	"vh/core"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		core.Worker(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && core.Sub[os.Args[1]] != nil {
		os.Exit(core.Sub[os.Args[1]](os.Args[2:]))
	}
	if len(os.Args) < 5 {
		fmt.Println("usage: vh ID TIER VERIF SCRATCH")
		os.Exit(2)
	}
	os.Exit(core.Main(os.Args[1], os.Args[2], os.Args[3], os.Args[4]))
}
