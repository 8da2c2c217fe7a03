// Command cpu reports the features of this machine.
package main

import (
	"a0/cpucfg"
	"a0/drv"
	"a0/h/cpu"
)

func main() {
	cpu.Reported = cpucfg.Reported
	drv.Main()
}
