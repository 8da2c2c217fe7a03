package drbg

import (
	"reflect"
	"unsafe"

	. "a0/drv"
	"github.com/henrydcase/nobs/drbg"
)

// the block cipher inside a DRBG object is whatever field has these methods
type block interface {
	SetKey(key []byte) error
	Encrypt(dst, src []byte)
	Decrypt(dst, src []byte)
}

// spy passes everything on and remembers which blocks were encrypted under which key
type spy struct {
	in    block
	r     *Run
	key   []byte
	calls []interface{}
}

func (s *spy) SetKey(k []byte) error {
	s.key = append([]byte(nil), k...)
	return s.in.SetKey(k)
}
func (s *spy) Encrypt(dst, src []byte) {
	s.r.Yield()
	if len(src) >= 16 {
		s.calls = append(s.calls, []interface{}{Cp(s.key), Cp(src[:16])})
	}
	s.in.Encrypt(dst, src)
}
func (s *spy) Decrypt(dst, src []byte) { s.in.Decrypt(dst, src) }

type obj struct {
	c *drbg.CtrDrbg
	s *spy
}

// Install puts a spy around the block cipher of c.
func Install(r *Run, c *drbg.CtrDrbg) *spy {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Interface || f.IsNil() {
			continue
		}
		g := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		b, ok := g.Interface().(block)
		if !ok {
			continue
		}
		s := &spy{in: b, r: r}
		if !reflect.TypeOf(s).AssignableTo(f.Type()) {
			continue
		}
		g.Set(reflect.ValueOf(s))
		return s
	}
	return nil
}

func (o *obj) log(e Ev) {
	e["seen"] = false
	if o.s != nil {
		e["seen"] = true
		if o.s.calls == nil {
			e["calls"] = []interface{}{}
		} else {
			e["calls"] = o.s.calls
		}
		o.s.calls = nil
	}
}

func init() {
	Reg("d.new", func(r *Run, o Op, e Ev) {
		e["o"] = o.S("o")
		x := &obj{c: drbg.NewCtrDrbg()}
		if o.Bool("spy") {
			x.s = Install(r, x.c)
		}
		e["spy"] = x.s != nil
		r.Obj[o.S("o")] = x
	})
	Reg("d.init", func(r *Run, o Op, e Ev) {
		x := r.Obj[o.S("o")].(*obj)
		ent, pers := r.In(o, "ent"), r.In(o, "pers")
		e["o"], e["ent"], e["pers"] = o.S("o"), Cp(ent), Cp(pers)
		e["ok"] = x.c.Init(ent, pers)
		x.log(e)
	})
	Reg("d.reseed", func(r *Run, o Op, e Ev) {
		x := r.Obj[o.S("o")].(*obj)
		ent, ad := r.In(o, "ent"), r.In(o, "ad")
		e["o"], e["ent"], e["ad"] = o.S("o"), Cp(ent), Cp(ad)
		x.c.Reseed(ent, ad)
		x.log(e)
	})
	Reg("d.gen", func(r *Run, o Op, e Ev) {
		x := r.Obj[o.S("o")].(*obj)
		ad := r.In(o, "ad")
		out := r.Out(o, "out", o.I("n"), o.I("n"))
		e["o"], e["ad"], e["n"] = o.S("o"), Cp(ad), o.I("n")
		var n int
		var err error
		if o.Bool("read") {
			n, err = x.c.Read(out)
		} else {
			n, err = x.c.ReadWithAdditionalData(out, ad)
		}
		e["rn"], e["err"], e["out"] = n, err != nil, Cp(out)
		x.log(e)
	})
}
