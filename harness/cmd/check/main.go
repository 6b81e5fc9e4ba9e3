// Command check decides one property by monitoring executions.
package main

import (
	_ "verif/harness/checks"
	"verif/harness/mon"
)

func main() { mon.Main() }
