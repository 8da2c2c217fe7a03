// Command csidh drives CSIDH keys.
package main

import (
	_ "a0/cpucfg"
	"a0/drv"
	_ "a0/h/csidh"
)

func main() { drv.Main() }
