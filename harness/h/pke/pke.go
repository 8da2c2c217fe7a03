// Package pke has the operations on mkem's CSIDH-based encryption (p.*).
package pke

import (
	"reflect"

	. "a0/drv"
	hc "a0/h/csidh"
	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/drbg"
	"mkem"
)

type ct struct{ u, v [64]byte }

// one object: m is nil for a PKE
type obj struct {
	p *mkem.PKE
	m *mkem.MultiPKE
}

// enc and dec go through the ciphertext type of the package, which has no exported name
func enc[T any](f func(*csidh.PublicKey, *[16]byte) T, pk *csidh.PublicKey, pt *[16]byte) ct {
	c := f(pk, pt)
	v := reflect.ValueOf(&c).Elem()
	return ct{v.FieldByName("U").Interface().([64]byte), v.FieldByName("V").Interface().([64]byte)}
}

func dec[T any](r *Run, f func(*csidh.PrivateKey, *T) [16]byte, sk *csidh.PrivateKey, c ct) [16]byte {
	var x T
	v := reflect.ValueOf(&x).Elem()
	v.FieldByName("U").Set(reflect.ValueOf(c.u))
	v.FieldByName("V").Set(reflect.ValueOf(c.v))
	r.WatchFn("ct", func() []byte {
		u, w := v.FieldByName("U").Interface().([64]byte), v.FieldByName("V").Interface().([64]byte)
		return append(u[:], w[:]...)
	})
	return f(sk, &x)
}

func the(r *Run, n string) *drbg.CtrDrbg {
	if d, ok := r.Obj[n].(*drbg.CtrDrbg); ok {
		return d
	}
	d := drbg.NewCtrDrbg()
	r.Obj[n] = d
	return d
}

func init() {
	// a new object, or (again) the old one allocated once more; one generator for all
	Reg("p.new", func(r *Run, o Op, e Ev) {
		e["o"], e["n"] = o.S("o"), o.I("n")
		x, ok := r.Obj[o.S("o")].(*obj)
		if !ok {
			x = &obj{}
			if o.I("n") > 0 {
				x.m = new(mkem.MultiPKE)
				x.p = &x.m.PKE
			} else {
				x.p = new(mkem.PKE)
			}
			r.Obj[o.S("o")] = x
		}
		if x.m != nil {
			x.m.Allocate(uint(o.I("n")), the(r, "drbg"))
		} else {
			x.p.Allocate(the(r, "drbg"))
		}
	})
	Reg("p.seed", func(r *Run, o Op, e Ev) {
		e["data"], e["ok"] = B(o.Bytes("data")), false
		e["ok"] = the(r, "drbg").Init(o.Bytes("data"), nil)
	})
	Reg("p.enc", func(r *Run, o Op, e Ev) {
		x := r.Obj[o.S("o")].(*obj)
		q := hc.Pub(r, o.S("pub"))
		hc.Frz(r, "pub", q)
		pt := r.In(o, "pt")
		e["o"], e["pub"], e["c"], e["pt"], e["u"], e["v"] = o.S("o"), o.S("pub"), o.S("c"), Cp(pt), make(B, 64), make(B, 64)
		r.Obj["ct:"+o.S("c")] = ct{}
		c := enc(x.p.Enc, q, (*[16]byte)(pt))
		r.Obj["ct:"+o.S("c")] = c
		e["u"], e["v"] = Cp(c.u[:]), Cp(c.v[:])
	})
	Reg("p.dec", func(r *Run, o Op, e Ev) {
		x := r.Obj[o.S("o")].(*obj)
		k := hc.Prv(r, o.S("prv"))
		hc.Frz(r, "prv", k)
		e["o"], e["prv"], e["c"], e["pt"] = o.S("o"), o.S("prv"), o.S("c"), B{}
		pt := dec(r, x.p.Dec, k, r.Obj["ct:"+o.S("c")].(ct))
		e["pt"] = Cp(pt[:])
	})
	Reg("p.menc", func(r *Run, o Op, e Ev) {
		x := r.Obj[o.S("o")].(*obj)
		var pubs []csidh.PublicKey
		for _, n := range o.List("pubs") {
			pubs = append(pubs, *hc.Pub(r, n))
		}
		for i := range pubs {
			hc.Frz(r, "pub", &pubs[i])
		}
		pt := r.In(o, "pt")
		ps := []string{}
		ps = append(ps, o.List("pubs")...)
		e["o"], e["pubs"], e["pt"] = o.S("o"), ps, Cp(pt)
		defer func() {
			parts := []B{}
			for i := range x.m.Cts {
				parts = append(parts, Cp(x.m.Cts[i][:]))
			}
			e["c0"], e["parts"] = Cp(x.m.Ct0[:]), parts
		}()
		x.m.Encrypt(pubs, (*[16]byte)(pt))
	})
	Reg("p.take", func(r *Run, o Op, e Ev) {
		x := r.Obj[o.S("o")].(*obj)
		var c ct
		c.u, c.v = x.m.Ct0, x.m.Cts[o.I("i")-1]
		r.Obj["ct:"+o.S("c")] = c
		e["o"], e["i"], e["c"], e["u"], e["v"] = o.S("o"), o.I("i"), o.S("c"), Cp(c.u[:]), Cp(c.v[:])
	})
	Reg("p.mut", func(r *Run, o Op, e Ev) {
		c := r.Obj["ct:"+o.S("c")].(ct)
		for i, b := range o.Bytes("xu") {
			c.u[i] ^= b
		}
		for i, b := range o.Bytes("xv") {
			c.v[i] ^= b
		}
		if o.Has("u") {
			copy(c.u[:], o.Bytes("u"))
		}
		r.Obj["ct:"+o.S("c")] = c
		e["c"], e["u"], e["v"] = o.S("c"), Cp(c.u[:]), Cp(c.v[:])
	})
}
