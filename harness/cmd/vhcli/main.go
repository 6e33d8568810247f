// Command vhcli is the CLI of the tree under test, with instrumented file operations.
package main

import (
	"fmt"
	"os"

	"github.com/ls6-events/astra/cli/astra/cmd"

	"vh/core"
)

func main() {
	core.ArmFS()
	if err := cmd.Execute(); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}
