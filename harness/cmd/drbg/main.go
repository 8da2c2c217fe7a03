// Command drbg drives the drbg operations.
package main

import (
	_ "a0/cpucfg"
	"a0/drv"
	_ "a0/h/drbg"
)

func main() { drv.Main() }
