// Command check runs the check of one property.
package main

import (
	"verif/harness/checks"
	"verif/harness/mon"
)

func main() { mon.Main(checks.All) }
