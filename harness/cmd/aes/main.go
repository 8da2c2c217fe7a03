// Command aes drives the aes operations.
package main

import (
	_ "a0/cpucfg"
	"a0/drv"
	_ "a0/h/aes"
)

func main() { drv.Main() }
