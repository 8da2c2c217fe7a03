// Command mkem drives the mkem module: single- and multi-recipient SIKE KEM.
package main

import (
	_ "a0/cpucfg"
	"a0/drv"
	_ "a0/h/mkem"
	_ "a0/h/sidh"
)

func main() { drv.Main() }
