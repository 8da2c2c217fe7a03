package aes

import (
	. "a0/drv"
	"github.com/henrydcase/nobs/drbg"
)

type block interface {
	SetKey(key []byte) error
	Encrypt(dst, src []byte)
	Decrypt(dst, src []byte)
}

func init() {
	Reg("a.new", func(r *Run, o Op, e Ev) {
		e["o"], e["kind"] = o.S("o"), o.S("kind")
		r.Obj[o.S("o")] = drbg.VerifAES(o.S("kind")).(block)
	})
	Reg("a.key", func(r *Run, o Op, e Ev) {
		k := r.In(o, "key")
		e["o"], e["key"] = o.S("o"), Cp(k)
		e["err"] = r.Obj[o.S("o")].(block).SetKey(k) != nil
	})
	// dir "enc"/"dec"; same: destination and source are one buffer; dlen: length of the
	// destination, of which 16 bytes are written
	Reg("a.crypt", func(r *Run, o Op, e Ev) {
		b := r.Obj[o.S("o")].(block)
		e["o"], e["dir"], e["src"], e["same"] = o.S("o"), o.S("dir"), B(o.Bytes("src")), o.Bool("same")
		n := o.I("dlen")
		var src, dst []byte
		w := 16
		if o.Bool("same") {
			n = len(o.Bytes("src"))
		}
		if n < w || len(o.Bytes("src")) < 16 {
			w = 0 // refused: nothing may be written
		}
		if o.Bool("same") {
			src = r.InOut(o, "src", o.Bytes("src"), w)
			dst = src
		} else {
			src = r.In(o, "src")
			dst = r.Out(o, "dst", n, w)
		}
		e["dlen"] = len(dst)
		e["out"] = B{}
		if o.S("dir") == "enc" {
			b.Encrypt(dst, src)
		} else {
			b.Decrypt(dst, src)
		}
		if len(dst) >= 16 {
			e["out"] = Cp(dst[:16])
		}
	})
}
