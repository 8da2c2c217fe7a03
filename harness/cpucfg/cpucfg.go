// Package cpucfg hides processor features named in VH_HIDE before any package
// of the library reads the feature flags.  Packages are initialised in import
// path order, so "a0/..." runs before "github.com/henrydcase/...".
package cpucfg

import (
	"strings"
	"syscall"

	"github.com/henrydcase/nobs/utils"
	"golang.org/x/sys/cpu"
)

// Features as the library sees them, before anything is hidden.
var Reported map[string]bool

func init() {
	Reported = map[string]bool{
		"aes": utils.X86.HasAES, "bmi2": utils.X86.HasBMI2,
		"adx": utils.X86.HasADX, "rdseed": utils.X86.HasRDSEED,
	}
	v, _ := syscall.Getenv("VH_HIDE")
	for _, f := range strings.Split(v, ",") {
		switch f {
		case "aes":
			utils.X86.HasAES = false
		case "bmi2":
			utils.X86.HasBMI2 = false
			cpu.X86.HasBMI2 = false
		case "adx":
			utils.X86.HasADX = false
			cpu.X86.HasADX = false
		case "rdseed":
			utils.X86.HasRDSEED = false
		}
	}
}
