// Command harness decides the properties of goledger by watching executions.
package main

import (
	"os"

	"verif/harness/frame"
	"verif/harness/props"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "helper" {
		os.Exit(props.Helper(os.Args[2:]))
	}
	os.Exit(frame.Main())
}
