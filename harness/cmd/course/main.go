// Command course drives SIDH keys and the SIKE KEM objects and records the course of every call.
package main

import (
	"io"

	_ "a0/cpucfg"
	"a0/h/course"
	hs "a0/h/sidh"
	"mkem"
)

func init() {
	hs.New["mkem"] = func(f string, rng io.Reader) hs.Kem {
		switch f {
		case "p434":
			return mkem.NewSike434(rng)
		case "p503":
			return mkem.NewSike503(rng)
		}
		return mkem.NewSike751(rng)
	}
	hs.New["mkem0"] = func(f string, rng io.Reader) hs.Kem { return new(mkem.KEM) }
}

func main() { course.Main() }
