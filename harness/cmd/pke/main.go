// Command pke drives the CSIDH-based encryption of mkem.
package main

import (
	_ "a0/cpucfg"
	"a0/drv"
	_ "a0/h/csidh"
	_ "a0/h/pke"
)

func main() { drv.Main() }
