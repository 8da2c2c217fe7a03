// Command cpusim runs the feature detection on simulated processors.  It needs the overlay that
// turns the detection into a function that can be called again and its cpuid into a variable.
package main

import (
	"a0/drv"
	"a0/h/cpu"

	"github.com/henrydcase/nobs/utils"
)

type regs = map[string]interface{}

func bits(l []interface{}) (v uint32) {
	for _, b := range l {
		v |= 1 << uint(b.(float64))
	}
	return
}

func list(v uint32) []int {
	r := []int{}
	for i := 0; i < 32; i++ {
		if v>>uint(i)&1 == 1 {
			r = append(r, i)
		}
	}
	return r
}

func main() {
	drv.Reg("cpu.sim", func(r *drv.Run, o drv.Op, e drv.Ev) {
		type q [4]uint32
		leaf := map[string]q{}
		for _, n := range []string{"l1", "l7", "l7b", "beyond"} {
			m := o[n].(regs)
			var x q
			for i, k := range []string{"eax", "ebx", "ecx", "edx"} {
				x[i] = bits(m[k].([]interface{}))
			}
			leaf[n] = x
			e[n] = map[string]interface{}{"eax": list(x[0]), "ebx": list(x[1]), "ecx": list(x[2]), "edx": list(x[3])}
		}
		max := uint32(o.I("max"))
		e["max"] = int(max)
		e["rep"] = []string{}
		utils.VCpuid = func(a, c uint32) (uint32, uint32, uint32, uint32) {
			x := leaf["beyond"]
			switch {
			case a == 0:
				return max, 0x756e6547, 0x6c65746e, 0x49656e69
			case a > max:
			case a == 1:
				x = leaf["l1"]
			case a == 7 && c == 0:
				x = leaf["l7"]
			case a == 7:
				x = leaf["l7b"]
			}
			return x[0], x[1], x[2], x[3]
		}
		utils.VReset()
		utils.VInit()
		e["rep"] = cpu.Names(map[string]bool{"aes": utils.X86.HasAES, "bmi2": utils.X86.HasBMI2, "adx": utils.X86.HasADX, "rdseed": utils.X86.HasRDSEED})
	})
	drv.Main()
}
