// Command api drives the public API of the library.
package main

import (
	_ "a0/cpucfg"
	"a0/drv"
	_ "a0/h/hash"
)

func main() { drv.Main() }
