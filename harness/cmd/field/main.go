// Command field drives the field routines.
package main

import (
	_ "a0/cpucfg"
	"a0/drv"
	_ "a0/h/field"
)

func main() { drv.Main() }
