// Package cpu reports processor features.
package cpu

import (
	"os"
	"strings"

	. "a0/drv"
)

var Reported map[string]bool

func Names(m map[string]bool) []string {
	r := []string{}
	for _, n := range []string{"aes", "bmi2", "adx", "rdseed"} {
		if m[n] {
			r = append(r, n)
		}
	}
	return r
}

func init() {
	Reg("cpu.real", func(r *Run, o Op, e Ev) {
		b, err := os.ReadFile("/proc/cpuinfo")
		if err != nil {
			panic(err)
		}
		has := map[string]int{}
		n := 0
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "flags") {
				n++
				for _, f := range strings.Fields(l) {
					has[f]++
				}
			}
		}
		os := []string{}
		for _, f := range []string{"aes", "bmi2", "adx", "rdseed"} {
			if n > 0 && has[f] == n {
				os = append(os, f)
			}
		}
		e["os"], e["rep"] = os, Names(Reported)
	})
}
