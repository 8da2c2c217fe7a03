// Package csidh has the operations on CSIDH keys (s.*).
package csidh

import (
	"io"

	. "a0/drv"
	"github.com/henrydcase/nobs/dh/csidh"
)

type key interface {
	Import([]byte) bool
	Export([]byte) bool
}

func size(k key) int {
	if _, ok := k.(*csidh.PrivateKey); ok {
		return csidh.PrivateKeySize
	}
	return csidh.PublicKeySize
}

// Frz notes the value of a key, which the call must not change.
func Frz(r *Run, n string, k key) {
	r.WatchFn(n, func() []byte { b := make([]byte, size(k)); k.Export(b); return b })
}

// A Rng gives the bytes of the script and then an endless stream, in pieces of at most
// chunk bytes.
type Rng struct {
	pre   []byte
	rest  Counter
	chunk int
	r     *Run
	given []byte // the first bytes it gave
}

func NewRng(r *Run, o Op) *Rng {
	return &Rng{r: r, pre: o.Bytes("pre"), rest: Counter{X: uint64(o.I("seed"))*2654435761 + 1}, chunk: o.I("chunk")}
}

func (g *Rng) Read(p []byte) (int, error) {
	g.r.Yield()
	if g.chunk > 0 && len(p) > g.chunk {
		p = p[:g.chunk]
	}
	n, err := 0, error(nil)
	if len(g.pre) > 0 {
		n = copy(p, g.pre)
		g.pre = g.pre[n:]
	} else {
		n, err = g.rest.Read(p)
	}
	if len(g.given) < 64*32 {
		g.given = append(g.given, p[:n]...)
	}
	return n, err
}

func Prv(r *Run, n string) *csidh.PrivateKey { return r.Obj[n].(*csidh.PrivateKey) }
func Pub(r *Run, n string) *csidh.PublicKey  { return r.Obj[n].(*csidh.PublicKey) }

var _ io.Reader = (*Rng)(nil)

func init() {
	Reg("s.prv", func(r *Run, o Op, e Ev) {
		e["o"] = o.S("o")
		r.Obj[o.S("o")] = new(csidh.PrivateKey)
	})
	Reg("s.pub", func(r *Run, o Op, e Ev) {
		e["o"] = o.S("o")
		r.Obj[o.S("o")] = new(csidh.PublicKey)
	})
	Reg("s.imp", func(r *Run, o Op, e Ev) {
		b := r.In(o, "data")
		e["o"], e["data"], e["ok"] = o.S("o"), Cp(b), false
		e["ok"] = r.Obj[o.S("o")].(key).Import(b)
	})
	Reg("s.move", func(r *Run, o Op, e Ev) {
		a, b := r.Obj[o.S("from")].(key), r.Obj[o.S("o")].(key)
		buf := make([]byte, size(a))
		a.Export(buf)
		in := r.InB(o, "data", buf)
		e["o"], e["from"], e["data"], e["ok"] = o.S("o"), o.S("from"), Cp(in), false
		e["ok"] = b.Import(in)
	})
	Reg("s.exp", func(r *Run, o Op, e Ev) {
		k := r.Obj[o.S("o")].(key)
		n, w := o.I("n"), size(k)
		if n < w || w == csidh.PublicKeySize && n != w {
			w = 0
		}
		out := r.Out(o, "out", n, w)
		Frz(r, "key", k)
		e["o"], e["n"], e["ok"], e["out"] = o.S("o"), n, false, B{}
		e["ok"] = k.Export(out)
		e["out"] = Cp(out[:w])
	})
	Reg("s.gen", func(r *Run, o Op, e Ev) {
		s := &Stream{R: r, Data: o.Bytes("rng"), Chunk: o.I("chunk")}
		e["o"], e["rng"], e["err"] = o.S("o"), B(o.Bytes("rng")), false
		e["err"] = csidh.GeneratePrivateKey(Prv(r, o.S("o")), s) != nil
	})
	Reg("s.pubgen", func(r *Run, o Op, e Ev) {
		e["prv"], e["pub"] = o.S("prv"), o.S("pub")
		Frz(r, "prv", Prv(r, o.S("prv")))
		csidh.GeneratePublicKey(Pub(r, o.S("pub")), Prv(r, o.S("prv")), NewRng(r, o))
	})
	Reg("s.val", func(r *Run, o Op, e Ev) {
		e["pub"], e["ok"], e["points"] = o.S("pub"), false, B{}
		Frz(r, "pub", Pub(r, o.S("pub")))
		g := NewRng(r, o)
		e["ok"] = csidh.Validate(Pub(r, o.S("pub")), g)
		e["points"] = B(g.given)
	})
	Reg("s.derive", func(r *Run, o Op, e Ev) {
		e["prv"], e["pub"], e["ok"], e["out"] = o.S("prv"), o.S("pub"), false, B{}
		Frz(r, "prv", Prv(r, o.S("prv")))
		Frz(r, "pub", Pub(r, o.S("pub")))
		out := r.Out(o, "ss", 64, 64)
		defer Touched(e, "touched", out)()
		ok := csidh.DeriveSecret((*[64]byte)(out), Pub(r, o.S("pub")), Prv(r, o.S("prv")), NewRng(r, o))
		e["ok"] = ok
		if ok {
			e["out"] = Cp(out)
		}
	})
}
