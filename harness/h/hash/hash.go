package hash

import (
	"bytes"
	stdhash "hash"
	"io"

	. "a0/drv"
	"github.com/henrydcase/nobs/hash/sha3"
	"github.com/henrydcase/nobs/hash/sm3"
)

func newHash(alg string, N, S []byte) interface{} {
	switch alg {
	case "SHA3-224":
		return sha3.New224()
	case "SHA3-256":
		return sha3.New256()
	case "SHA3-384":
		return sha3.New384()
	case "SHA3-512":
		return sha3.New512()
	case "SHAKE128":
		return sha3.NewShake128()
	case "SHAKE256":
		return sha3.NewShake256()
	case "cSHAKE128":
		return sha3.NewCShake128(N, S)
	case "cSHAKE256":
		return sha3.NewCShake256(N, S)
	case "SM3":
		return sm3.New()
	}
	panic("driver: bad alg " + alg)
}

func init() {
	Reg("h.new", func(r *Run, o Op, e Ev) {
		N, S := r.In(o, "N"), r.In(o, "S")
		e["o"], e["alg"], e["N"], e["S"] = o.S("o"), o.S("alg"), Cp(N), Cp(S)
		r.Obj[o.S("o")] = newHash(o.S("alg"), N, S)
	})
	// N and S begin with copies of a string; not watched, they may be very large
	Reg("h.newrep", func(r *Run, o Op, e Ev) {
		u := o.Bytes("unit")
		N := append(bytes.Repeat(u, o.I("Nk")), o.Bytes("N")...)
		S := append(bytes.Repeat(u, o.I("Sk")), o.Bytes("S")...)
		e["o"], e["alg"], e["unit"], e["Nk"], e["Sk"] = o.S("o"), o.S("alg"), B(u), o.I("Nk"), o.I("Sk")
		e["N"], e["S"] = B(o.Bytes("N")), B(o.Bytes("S"))
		r.Obj[o.S("o")] = newHash(o.S("alg"), N, S)
	})
	Reg("h.write", func(r *Run, o Op, e Ev) {
		d := r.In(o, "d")
		e["o"], e["d"] = o.S("o"), Cp(d)
		n, err := r.Obj[o.S("o")].(io.Writer).Write(d)
		e["n"], e["err"] = n, err != nil
	})
	// k copies of d, one Write each
	Reg("h.wrep", func(r *Run, o Op, e Ev) {
		d := r.In(o, "d")
		e["o"], e["d"], e["k"] = o.S("o"), Cp(d), o.I("k")
		w := r.Obj[o.S("o")].(io.Writer)
		m, nerr := 0, 0
		big := d
		k := o.I("k")
		if f := o.I("glue"); f > 1 { // hand over f copies in one call
			big = make([]byte, 0, f*len(d))
			for i := 0; i < f; i++ {
				big = append(big, d...)
			}
			k /= f
		}
		bad := 0
		for i := 0; i < k; i++ {
			n, err := w.Write(big)
			if n != len(big) {
				bad++
			}
			if err != nil {
				nerr++
			}
			m++
		}
		e["bad"], e["err"] = bad, nerr > 0
	})
	Reg("h.sum", func(r *Run, o Op, e Ev) {
		h := r.Obj[o.S("o")].(stdhash.Hash)
		in := r.InB(o, "in", o.Bytes("in"))
		e["o"], e["in"] = o.S("o"), Cp(in)
		spare := cap(in) - len(in)
		// Sum may append in place: the spare capacity is its output region
		allowed := h.Size()
		if allowed > spare {
			allowed = 0
		}
		r.AllowSpare(allowed)
		out := h.Sum(in)
		e["out"] = Cp(out)
		if !r.Within(out) {
			r.Keep("sum", out)
		}
	})
	Reg("h.read", func(r *Run, o Op, e Ev) {
		out := r.Out(o, "out", o.I("n"), o.I("n"))
		e["o"], e["n"] = o.S("o"), o.I("n")
		n, err := r.Obj[o.S("o")].(io.Reader).Read(out)
		e["rn"], e["err"], e["out"] = n, err != nil, Cp(out)
	})
	// a large Read: only its beginning and its end are recorded
	Reg("h.skim", func(r *Run, o Op, e Ev) {
		n := o.I("n")
		out := make([]byte, n)
		e["o"], e["n"] = o.S("o"), n
		rn, err := r.Obj[o.S("o")].(io.Reader).Read(out)
		h := 200
		if n < 600 {
			h = n / 2
		}
		t := 400
		if n-h < t {
			t = n - h
		}
		e["rn"], e["err"], e["head"], e["tail"] = rn, err != nil, Cp(out[:h]), Cp(out[n-t:])
	})
	Reg("h.clone", func(r *Run, o Op, e Ev) {
		e["o"], e["to"] = o.S("o"), o.S("to")
		r.Obj[o.S("to")] = r.Obj[o.S("o")].(sha3.ShakeHash).Clone()
	})
	Reg("h.reset", func(r *Run, o Op, e Ev) {
		e["o"] = o.S("o")
		switch h := r.Obj[o.S("o")].(type) {
		case stdhash.Hash:
			if x, ok := h.(interface{ Init() }); ok && o.Bool("init") { // SM3 has it under both names
				x.Init()
			} else {
				h.Reset()
			}
		case sha3.ShakeHash:
			h.Reset()
		}
	})
	Reg("h.size", func(r *Run, o Op, e Ev) {
		e["o"] = o.S("o")
		h := r.Obj[o.S("o")].(stdhash.Hash)
		e["size"], e["bs"] = h.Size(), h.BlockSize()
	})
	// one shot
	Reg("h.shakesum", func(r *Run, o Op, e Ev) {
		d := r.In(o, "d")
		out := r.Out(o, "out", o.I("n"), o.I("n"))
		e["alg"], e["d"], e["n"] = o.S("alg"), Cp(d), o.I("n")
		if o.S("alg") == "SHAKE128" {
			sha3.ShakeSum128(out, d)
		} else {
			sha3.ShakeSum256(out, d)
		}
		e["out"] = Cp(out)
	})
}
