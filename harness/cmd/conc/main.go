// Command conc drives everything at once: threads that use hash, DRBG, SIDH/SIKE and CSIDH
// objects of their own and share keys.
package main

import (
	_ "a0/cpucfg"
	"a0/drv"
	_ "a0/h/csidh"
	_ "a0/h/drbg"
	_ "a0/h/hash"
	_ "a0/h/mkem"
	_ "a0/h/pke"
	_ "a0/h/sidh"
)

func main() { drv.Main() }
