// Command sidh drives SIDH keys and the SIKE KEM.
package main

import (
	_ "a0/cpucfg"
	"a0/drv"
	_ "a0/h/sidh"
)

func main() { drv.Main() }
