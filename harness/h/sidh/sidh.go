// Package sidh has the operations on SIDH/SIKE keys (k.*) and SIKE KEM objects (e.*).
package sidh

import (
	"io"

	. "a0/drv"
	"github.com/henrydcase/nobs/dh/sidh"
)

var Fields = map[string]uint8{"p434": sidh.Fp434, "p503": sidh.Fp503, "p751": sidh.Fp751}
var variants = map[string]sidh.KeyVariant{"A": sidh.KeyVariantSidhA, "B": sidh.KeyVariantSidhB, "S": sidh.KeyVariantSike}

// A Kem is a KEM object of the sidh package or of mkem.
type Kem interface {
	Allocate(id uint8, rng io.Reader)
	Encapsulate(ct, ss []byte, pub *sidh.PublicKey) error
	Decapsulate(ss []byte, prv *sidh.PrivateKey, pub *sidh.PublicKey, ct []byte) error
	Reset()
	CiphertextSize() int
	SharedSecretSize() int
}

// New makes KEM objects: package, constructor.
var New = map[string]func(f string, rng io.Reader) Kem{
	"sidh": func(f string, rng io.Reader) Kem {
		switch f {
		case "p434":
			return sidh.NewSike434(rng)
		case "p503":
			return sidh.NewSike503(rng)
		}
		return sidh.NewSike751(rng)
	},
	"sidh0": func(f string, rng io.Reader) Kem { return new(sidh.KEM) },
}

// A Rng is a reader whose stream is set per operation.
type Rng struct{ Stream }

type KemObj struct {
	Kem
	rng *Rng
}

func Prv(r *Run, o Op, n string) *sidh.PrivateKey { return r.Obj[o.S(n)].(*sidh.PrivateKey) }
func Pub(r *Run, o Op, n string) *sidh.PublicKey  { return r.Obj[o.S(n)].(*sidh.PublicKey) }

type key interface {
	Import([]byte) error
	Export([]byte)
	Size() int
}

// Frz notes the state of a key, which the call must not change.
func Frz(r *Run, o Op, n string) {
	switch k := r.Obj[o.S(n)].(type) {
	case *sidh.PrivateKey:
		if k.Scalar != nil {
			r.Watch(n+".scalar", k.Scalar)
			r.Watch(n+".s", k.S)
		}
	case *sidh.PublicKey:
		r.WatchFn(n, func() []byte { b := make([]byte, k.Size()); k.Export(b); return b })
	}
}

func (k *KemObj) Set(r *Run, o Op) {
	k.rng.Stream = Stream{R: r, Data: o.Bytes("rng"), Chunk: o.I("chunk")}
}
func (k *KemObj) Taken() int { return k.rng.Taken }

// NewKem makes a KEM object with its own reader.
func NewKem(mk string, f string) *KemObj {
	g := &Rng{}
	return &KemObj{New[mk](f, g), g}
}

// WrapKem is an existing KEM object and the reader it draws from.
func WrapKem(k Kem, g *Rng) *KemObj { return &KemObj{k, g} }
func (k *KemObj) Alloc(f string) { k.Allocate(Fields[f], k.rng) }

func init() {
	Reg("k.prv", func(r *Run, o Op, e Ev) {
		e["o"], e["f"], e["v"] = o.S("o"), o.S("f"), o.S("v")
		if o.Bool("alt") {
			k := new(sidh.PrivateKey)
			k.Init(Fields[o.S("f")], variants[o.S("v")])
			r.Obj[o.S("o")] = k
		} else {
			r.Obj[o.S("o")] = sidh.NewPrivateKey(Fields[o.S("f")], variants[o.S("v")])
		}
	})
	Reg("k.pub", func(r *Run, o Op, e Ev) {
		e["o"], e["f"], e["v"] = o.S("o"), o.S("f"), o.S("v")
		if o.Bool("alt") {
			k := new(sidh.PublicKey)
			k.Init(Fields[o.S("f")], variants[o.S("v")])
			r.Obj[o.S("o")] = k
		} else {
			r.Obj[o.S("o")] = sidh.NewPublicKey(Fields[o.S("f")], variants[o.S("v")])
		}
	})
	Reg("k.init", func(r *Run, o Op, e Ev) {
		e["o"], e["f"], e["v"] = o.S("o"), o.S("f"), o.S("v")
		switch k := r.Obj[o.S("o")].(type) {
		case *sidh.PrivateKey:
			k.Init(Fields[o.S("f")], variants[o.S("v")])
		case *sidh.PublicKey:
			k.Init(Fields[o.S("f")], variants[o.S("v")])
		}
	})
	Reg("k.imp", func(r *Run, o Op, e Ev) {
		b := r.In(o, "data")
		e["o"], e["data"] = o.S("o"), Cp(b)
		e["err"] = r.Obj[o.S("o")].(key).Import(b) != nil
	})
	// exports one key and imports the bytes into another
	Reg("k.move", func(r *Run, o Op, e Ev) {
		a, b := r.Obj[o.S("from")].(key), r.Obj[o.S("o")].(key)
		buf := make([]byte, a.Size())
		a.Export(buf)
		in := r.InB(o, "data", buf)
		e["o"], e["from"], e["data"] = o.S("o"), o.S("from"), Cp(in)
		e["err"] = b.Import(in) != nil
	})
	Reg("k.exp", func(r *Run, o Op, e Ev) {
		k := r.Obj[o.S("o")].(key)
		n := k.Size()
		Frz(r, o, "o")
		out := r.Out(o, "out", n+o.I("extra"), n)
		e["o"], e["size"] = o.S("o"), n
		k.Export(out)
		e["out"] = Cp(out[:n])
	})
	Reg("k.sizes", func(r *Run, o Op, e Ev) {
		k := r.Obj[o.S("o")].(key)
		e["o"], e["size"], e["ss"] = o.S("o"), k.Size(), 0
		switch x := k.(type) {
		case *sidh.PrivateKey:
			e["ss"], e["v"] = x.SharedSecretSize(), int(x.Variant())
		case *sidh.PublicKey:
			e["v"] = int(x.Variant())
		}
	})
	Reg("k.gen", func(r *Run, o Op, e Ev) {
		s := &Stream{R: r, Data: o.Bytes("rng"), Chunk: o.I("chunk")}
		e["o"], e["rng"], e["alt"] = o.S("o"), B(o.Bytes("rng")), o.Bool("alt")
		e["err"] = false
		if o.Bool("alt") {
			sidh.GeneratePrivateKey(Prv(r, o, "o"), s)
		} else {
			e["err"] = Prv(r, o, "o").Generate(s) != nil
		}
		e["taken"] = s.Taken
	})
	Reg("k.pubgen", func(r *Run, o Op, e Ev) {
		e["prv"], e["pub"] = o.S("prv"), o.S("pub")
		Frz(r, o, "prv")
		if o.Bool("alt") {
			sidh.GeneratePublicKey(Pub(r, o, "pub"), Prv(r, o, "prv"))
		} else {
			Prv(r, o, "prv").GeneratePublicKey(Pub(r, o, "pub"))
		}
	})
	Reg("k.derive", func(r *Run, o Op, e Ev) {
		prv, pub := Prv(r, o, "prv"), Pub(r, o, "pub")
		e["prv"], e["pub"], e["outlen"] = o.S("prv"), o.S("pub"), o.I("outlen")
		Frz(r, o, "prv")
		Frz(r, o, "pub")
		w := prv.SharedSecretSize()
		if w > o.I("outlen") {
			w = 0
		}
		out := r.Out(o, "ss", o.I("outlen"), w)
		defer Touched(e, "touched", out)()
		e["out"] = B{}
		if o.Bool("alt") {
			sidh.DeriveSecret(out, pub, prv)
		} else {
			prv.DeriveSecret(out, pub)
		}
		e["out"] = Cp(out[:w])
	})

	// ---- KEM objects
	Reg("e.new", func(r *Run, o Op, e Ev) {
		e["o"], e["mk"], e["f"] = o.S("o"), o.S("mk"), o.S("f")
		r.Obj[o.S("o")] = NewKem(o.S("mk"), o.S("f"))
	})
	Reg("e.alloc", func(r *Run, o Op, e Ev) {
		e["o"], e["f"] = o.S("o"), o.S("f")
		r.Obj[o.S("o")].(*KemObj).Alloc(o.S("f"))
	})
	Reg("e.reset", func(r *Run, o Op, e Ev) {
		e["o"] = o.S("o")
		r.Obj[o.S("o")].(*KemObj).Reset()
	})
	Reg("e.sizes", func(r *Run, o Op, e Ev) {
		k := r.Obj[o.S("o")].(*KemObj)
		e["o"], e["ct"], e["ss"] = o.S("o"), k.CiphertextSize(), k.SharedSecretSize()
		e["more"] = []int{}
		if x, ok := k.Kem.(interface {
			KemSize() int
			PublicKeySize() int
		}); ok {
			e["more"] = []int{x.KemSize(), x.PublicKeySize()}
		}
	})
	// c: name under which the ciphertext is kept; ctlen, sslen: buffer lengths relative to
	// the needed ones
	Reg("e.enc", func(r *Run, o Op, e Ev) {
		k := r.Obj[o.S("o")].(*KemObj)
		pub := Pub(r, o, "pub")
		e["o"], e["pub"], e["rng"], e["ctx"], e["ssx"] = o.S("o"), o.S("pub"), B(o.Bytes("rng")), o.I("ctx"), o.I("ssx")
		Frz(r, o, "pub")
		k.Set(r, o)
		cn, sn := pub.Params.CiphertextSize, pub.Params.KemSize
		if !o.Bool("raw") {
			cn, sn = k.CiphertextSize(), k.SharedSecretSize()
		}
		wc, ws := cn, sn
		ok := o.I("ctx") >= 0 && o.I("ssx") >= 0 && len(o.Bytes("rng")) >= pub.Params.MsgLen && !o.Bool("bad")
		if !ok {
			wc, ws = 0, 0
		}
		ct := r.Out(o, "ct", cn+o.I("ctx"), wc)
		ss := r.Out(o, "ss", sn+o.I("ssx"), ws)
		defer Touched(e, "tct", ct)()
		defer Touched(e, "tss", ss)()
		e["ct"], e["ss"], e["err"], e["taken"] = B{}, B{}, false, 0
		err := k.Encapsulate(ct, ss, pub)
		e["err"], e["taken"] = err != nil, k.Taken()
		if err == nil && ok {
			e["ct"], e["ss"] = Cp(ct[:cn]), Cp(ss[:sn])
			r.Obj["c:"+o.S("c")] = append([]byte(nil), ct[:cn]...)
		}
	})
	Reg("e.dec", func(r *Run, o Op, e Ev) {
		k := r.Obj[o.S("o")].(*KemObj)
		prv, pub := Prv(r, o, "prv"), Pub(r, o, "pub")
		Frz(r, o, "prv")
		Frz(r, o, "pub")
		var c []byte
		if o.Has("ct") {
			c = o.Bytes("ct")
		} else {
			c = append([]byte(nil), r.Obj["c:"+o.S("c")].([]byte)...)
		}
		c = Mutate(o, c)
		in := r.InB(o, "ctin", c)
		sn := prv.Params.KemSize
		ws := sn
		if o.I("ssx") < 0 || o.Bool("bad") {
			ws = 0
		}
		e["o"], e["prv"], e["pub"], e["ct"], e["ssx"] = o.S("o"), o.S("prv"), o.S("pub"), Cp(c), o.I("ssx")
		ss := r.Out(o, "ss", sn+o.I("ssx"), ws)
		defer Touched(e, "tss", ss)()
		e["ss"], e["err"] = B{}, false
		k.Set(r, o)
		err := k.Decapsulate(ss, prv, pub, in)
		e["err"] = err != nil
		if err == nil && ws > 0 {
			e["ss"] = Cp(ss[:sn])
		}
	})
}

// Mutate changes c as the script says: "mut": [[position, xor], ...] (negative positions
// count from the end), "len": bytes added (positive) or cut (negative)
func Mutate(o Op, c []byte) []byte {
	if l, ok := o["mut"].([]interface{}); ok {
		for _, x := range l {
			p := x.([]interface{})
			i := int(p[0].(float64))
			if i < 0 {
				i += len(c)
			}
			c[i] ^= byte(p[1].(float64))
		}
	}
	if o.Has("add") {
		cy := 0
		for i, b := range o.Bytes("add") {
			cy += int(c[o.I("at")+i]) + int(b)
			c[o.I("at")+i] = byte(cy)
			cy >>= 8
		}
	}
	if n := o.I("len"); n > 0 {
		c = append(c, make([]byte, n)...)
	} else if n < 0 {
		c = c[:len(c)+n]
	}
	return c
}
