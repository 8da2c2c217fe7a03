// Command hash drives the hash functions only (buildable with -tags noasm).
package main

import (
	_ "a0/cpucfg"
	"a0/drv"
	_ "a0/h/hash"
)

func main() { drv.Main() }
