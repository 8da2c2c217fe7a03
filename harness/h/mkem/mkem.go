// Package mkem has the operations on mkem's KEM objects (e.* through h/sidh, m.*).
package mkem

import (
	"io"

	. "a0/drv"
	hs "a0/h/sidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"mkem"
)

type multi struct {
	k   *mkem.MultiKEM
	rng *hs.Rng
	f   string
}

var msgLen = map[string]int{"p434": 16, "p503": 24, "p751": 32}

func init() {
	hs.New["mkem"] = func(f string, rng io.Reader) hs.Kem {
		switch f {
		case "p434":
			return mkem.NewSike434(rng)
		case "p503":
			return mkem.NewSike503(rng)
		}
		return mkem.NewSike751(rng)
	}
	hs.New["mkem0"] = func(f string, rng io.Reader) hs.Kem { return new(mkem.KEM) }

	Reg("m.new", func(r *Run, o Op, e Ev) {
		e["o"], e["f"], e["n"], e["alloc"] = o.S("o"), o.S("f"), o.I("n"), !o.Bool("bare")
		m := &multi{new(mkem.MultiKEM), &hs.Rng{}, o.S("f")}
		if !o.Bool("bare") {
			m.k.Allocate(hs.Fields[o.S("f")], uint(o.I("n")), m.rng)
		}
		r.Obj[o.S("o")] = m
	})
	// a key made by the KEM object's own constructors
	Reg("m.key", func(r *Run, o Op, e Ev) {
		m := r.Obj[o.S("m")].(*multi)
		e["o"], e["f"], e["v"] = o.S("o"), o.S("f"), "S"
		if o.S("kind") == "prv" {
			e["op"] = "k.prv"
			r.Obj[o.S("o")] = m.k.NewPrivateKey()
		} else {
			e["op"] = "k.pub"
			r.Obj[o.S("o")] = m.k.NewPublicKey()
		}
	})
	// the single-recipient object inside a multi-recipient one
	Reg("m.inner", func(r *Run, o Op, e Ev) {
		m := r.Obj[o.S("m")].(*multi)
		e["op"], e["o"], e["mk"], e["f"] = "e.new", o.S("o"), "inner", m.f
		r.Obj[o.S("o")] = hs.WrapKem(&m.k.KEM, m.rng)
	})
	Reg("m.alloc", func(r *Run, o Op, e Ev) {
		e["o"], e["f"], e["n"] = o.S("o"), o.S("f"), o.I("n")
		m := r.Obj[o.S("o")].(*multi)
		m.f = o.S("f")
		m.k.Allocate(hs.Fields[m.f], uint(o.I("n")), m.rng)
	})
	Reg("m.reset", func(r *Run, o Op, e Ev) {
		e["o"] = o.S("o")
		r.Obj[o.S("o")].(*multi).k.Reset()
	})
	Reg("m.sizes", func(r *Run, o Op, e Ev) {
		m := r.Obj[o.S("o")].(*multi)
		e["o"], e["sizes"] = o.S("o"), []int{m.k.CiphertextSize(), m.k.SharedSecretSize(), m.k.KemSize(), m.k.PublicKeySize()}
	})
	Reg("m.enc", func(r *Run, o Op, e Ev) {
		m := r.Obj[o.S("o")].(*multi)
		var pubs []*sidh.PublicKey
		for _, n := range o.List("pubs") {
			pubs = append(pubs, r.Obj[n].(*sidh.PublicKey))
		}
		for i := range pubs {
			k := pubs[i]
			r.WatchFn("pub", func() []byte { b := make([]byte, k.Size()); k.Export(b); return b })
		}
		m.rng.Stream = Stream{R: r, Data: o.Bytes("rng"), Chunk: o.I("chunk")}
		n := msgLen[m.f]
		fails := o.Bool("bad") || len(o.Bytes("rng")) < n
		w := n
		if fails {
			w = 0
		}
		ss := r.Out(o, "ss", n+o.I("ssx"), w)
		e["o"], e["pubs"], e["rng"], e["sslen"] = o.S("o"), o.List("pubs"), B(o.Bytes("rng")), n+o.I("ssx")
		defer Touched(e, "tss", ss)()
		e["ss"], e["ct0"], e["cts"], e["err"], e["taken"] = B{}, B{}, []B{}, false, 0
		err := m.k.Encapsulate(ss, pubs)
		e["err"], e["taken"] = err != nil, m.rng.Taken
		if err == nil && !fails {
			e["ss"], e["ct0"] = Cp(ss[:n]), Cp(m.k.VerifCt0())
			cs := []B{}
			for i := range pubs {
				cs = append(cs, Cp(m.k.VerifCts(i)))
				r.Obj["c:"+o.List("cs")[i]] = append([]byte(nil), m.k.VerifCts(i)...)
			}
			e["cts"] = cs
		}
	})
	// changes the ciphertext part the object itself keeps
	Reg("m.tamper", func(r *Run, o Op, e Ev) {
		m := r.Obj[o.S("o")].(*multi)
		c := append([]byte(nil), m.k.VerifCt0()...)
		copy(m.k.VerifCt0(), hs.Mutate(o, c))
		e["o"], e["ct0"] = o.S("o"), Cp(m.k.VerifCt0())
	})
	Reg("m.dec", func(r *Run, o Op, e Ev) {
		m := r.Obj[o.S("o")].(*multi)
		prv, pub := hs.Prv(r, o, "prv"), hs.Pub(r, o, "pub")
		hs.Frz(r, o, "prv")
		hs.Frz(r, o, "pub")
		if m.k.VerifAllocated() {
			r.Watch("ct0", m.k.VerifCt0())
		}
		var c []byte
		if o.Has("ct") {
			c = o.Bytes("ct")
		} else {
			c = append([]byte(nil), r.Obj["c:"+o.S("c")].([]byte)...)
		}
		c = hs.Mutate(o, c)
		in := r.InB(o, "ctin", c)
		n := msgLen[m.f]
		w := n
		if o.Bool("bad") {
			w = 0
		}
		ss := r.Out(o, "ss", n+o.I("ssx"), w)
		e["o"], e["prv"], e["pub"], e["ct"], e["sslen"] = o.S("o"), o.S("prv"), o.S("pub"), Cp(c), n+o.I("ssx")
		e["ss"], e["err"] = B{}, false
		defer Touched(e, "tss", ss)()
		e["err"] = m.k.Decapsulate(ss, prv, pub, in) != nil
		if !o.Bool("bad") {
			e["ss"] = Cp(ss[:n])
		}
	})
}
