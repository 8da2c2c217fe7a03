// Package field applies field routines to registers that hold one number per lane (f.*, x.*).
package field

import (
	"encoding/binary"

	. "a0/drv"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/dh/sidh/veriffield"
	"golang.org/x/sys/cpu"
)

const nq, nx, nc = 4, 3, 8

// lane is the register file; fields next to each other, so that a routine that writes too far
// changes another register or the words a field does not use.
type lane struct {
	_ [1]uint64
	q [nq]common.Fp2
	x [nx]common.FpX2
}
type clane struct {
	f [nc][8]uint64
	w [2][9]uint64
	e [2]uint64
}

type machine struct {
	f *veriffield.Field // nil: CSIDH
	n int               // words
	a []lane
	c []clane
}

func (m *lane) fp(r int) *common.Fp {
	if r%2 == 0 {
		return &m.q[r/2].A
	}
	return &m.q[r/2].B
}

func put(b []byte, w []uint64) []byte {
	for _, x := range w {
		b = binary.LittleEndian.AppendUint64(b, x)
	}
	return b
}

type out struct {
	r int
	b []byte
}

func (m *machine) lanes() int {
	if m.f == nil {
		return len(m.c)
	}
	return len(m.a)
}

// show adds the content of registers to the event
func (m *machine) show(e Ev, fs []int, xs []int) {
	o, x := []interface{}{}, []interface{}{}
	for _, r := range fs {
		var b []byte
		for i := 0; i < m.lanes(); i++ {
			if m.f == nil {
				b = put(b, m.c[i].f[r][:])
			} else {
				b = put(b, m.a[i].fp(r)[:m.n])
			}
		}
		o = append(o, []interface{}{r, B(b)})
	}
	for _, r := range xs {
		var b []byte
		for i := 0; i < m.lanes(); i++ {
			if m.f == nil {
				b = put(b, m.c[i].w[r][:])
			} else {
				b = put(b, m.a[i].x[r][:2*m.n])
			}
		}
		x = append(x, []interface{}{r, B(b)})
	}
	e["outs"], e["xouts"] = o, x
}

// restore makes the registers that may change the same in both, and compares the rest
func (m *machine) framed(r *Run, was *lane, now lane, fs, xs []int) {
	for _, i := range fs {
		copy(now.fp(i)[:m.n], was.fp(i)[:m.n])
	}
	for _, i := range xs {
		copy(now.x[i][:2*m.n], was.x[i][:2*m.n])
	}
	if now != *was {
		r.Frame("registers")
	}
}

func (m *machine) cframed(r *Run, was *clane, now clane, fs, xs []int) {
	for _, i := range fs {
		now.f[i] = was.f[i]
	}
	for _, i := range xs {
		now.w[i] = was.w[i]
	}
	if now != *was {
		r.Frame("registers")
	}
}

func get(r *Run) *machine { return r.Obj["m"].(*machine) }

func absent(e Ev) { e["op"] = "absent" }

// sidh runs f in every lane; fs and xs may change.
func sidh(r *Run, e Ev, f func(m *machine, a *lane), fs, xs []int) {
	m := get(r)
	e["res"] = []int{}
	done := false
	defer func() {
		if !done {
			m.show(e, nil, nil)
		}
	}()
	for i := range m.a {
		was := m.a[i]
		f(m, &m.a[i])
		m.framed(r, &was, m.a[i], fs, xs)
	}
	done = true
	m.show(e, fs, xs)
}

func cs(r *Run, e Ev, f func(i int, a *clane) int, fs, xs []int, flags bool) {
	m := get(r)
	res := []int{}
	e["res"] = res
	done := false
	defer func() {
		if !done {
			m.show(e, nil, nil)
		}
	}()
	for i := range m.c {
		was := m.c[i]
		v := f(i, &m.c[i])
		if flags {
			res = append(res, v)
		}
		m.cframed(r, &was, m.c[i], fs, xs)
	}
	done = true
	e["res"] = res
	m.show(e, fs, xs)
}

func regs(o Op, e Ev, ks ...string) {
	for _, k := range ks {
		e[k] = o.I(k)
	}
}

func init() {
	Reg("f.new", func(r *Run, o Op, e Ev) {
		n := o.S("field")
		e["field"] = n
		m := &machine{}
		r.Obj["m"] = m
		flags := csidh.VFlag
		if n == "p511" {
			m.n, m.c = 8, make([]clane, o.I("lanes"))
			for i := range m.c {
				m.c[i].e = [2]uint64{0xa5a5a5a5a5a5a5a5, 0x5a5a5a5a5a5a5a5a}
			}
		} else {
			m.f = veriffield.Fields[n]
			m.n, m.a = m.f.Words, make([]lane, o.I("lanes"))
			for i := range m.a {
				for j := 0; j < 2*nq; j++ {
					for k := m.n; k < len(m.a[i].q[0].A); k++ {
						m.a[i].fp(j)[k] = 0
					}
				}
				for j := range m.a[i].x {
					for k := 2 * m.n; k < len(m.a[i].x[j]); k++ {
						m.a[i].x[j][k] = 0xa5a5a5a5a5a5a5a5
					}
				}
			}
			flags = m.f.Flag
		}
		// only what the processor really has can be switched on
		if f := flags["bmi2"]; f != nil {
			f(cpu.X86.HasBMI2 && o.Bool("bmi2"))
		}
		if f := flags["adx"]; f != nil {
			f(cpu.X86.HasBMI2 && cpu.X86.HasADX && o.Bool("adx"))
		}
	})
	load := func(r *Run, o Op, e Ev, x bool) {
		m := get(r)
		b, d := o.Bytes("v"), o.I("d")
		e["res"] = []int{}
		for i := 0; i < m.lanes(); i++ {
			var dst []uint64
			switch {
			case m.f == nil:
				dst = m.c[i].f[d][:]
			case x:
				dst = m.a[i].x[d][:2*m.n]
			default:
				dst = m.a[i].fp(d)[:m.n]
			}
			for k := range dst {
				dst[k] = binary.LittleEndian.Uint64(b)
				b = b[8:]
			}
		}
		if x {
			m.show(e, nil, []int{d})
		} else {
			m.show(e, []int{d}, nil)
		}
	}
	Reg("f.load", func(r *Run, o Op, e Ev) { load(r, o, e, false) })
	Reg("x.load", func(r *Run, o Op, e Ev) { load(r, o, e, true) })

	for _, n := range []string{"add", "sub", "mod", "mulP", "p34"} {
		n := n
		Reg("f."+n, func(r *Run, o Op, e Ev) {
			regs(o, e, "d", "a", "b")
			f := get(r).f.Fp[n]
			if f == nil {
				absent(e)
				return
			}
			sidh(r, e, func(m *machine, a *lane) { f(a.fp(o.I("d")), a.fp(o.I("a")), a.fp(o.I("b"))) }, []int{o.I("d")}, nil)
		})
	}
	for _, n := range []string{"adl", "sul"} {
		n := n
		Reg("f."+n, func(r *Run, o Op, e Ev) {
			regs(o, e, "d", "a", "b")
			f := get(r).f.X[n]
			if f == nil {
				absent(e)
				return
			}
			sidh(r, e, func(m *machine, a *lane) { f(&a.x[o.I("d")], &a.x[o.I("a")], &a.x[o.I("b")]) }, nil, []int{o.I("d")})
		})
	}
	for _, n := range []string{"qadd", "qsub", "qmul", "qsqr", "qinv", "qtom", "qfromm"} {
		n := n
		Reg("f."+n, func(r *Run, o Op, e Ev) {
			regs(o, e, "d", "a", "b")
			f := get(r).f.Q[n]
			if f == nil {
				absent(e)
				return
			}
			d := o.I("d")
			sidh(r, e, func(m *machine, a *lane) { f(&a.q[d], &a.q[o.I("a")], &a.q[o.I("b")]) }, []int{2 * d, 2*d + 1}, nil)
		})
	}
	Reg("f.mul", func(r *Run, o Op, e Ev) {
		regs(o, e, "d", "a", "b")
		f := get(r).f.Mul
		if f == nil {
			absent(e)
			return
		}
		sidh(r, e, func(m *machine, a *lane) { f(&a.x[o.I("d")], a.fp(o.I("a")), a.fp(o.I("b"))) }, nil, []int{o.I("d")})
	})
	Reg("f.rdc", func(r *Run, o Op, e Ev) {
		regs(o, e, "d", "a")
		f := get(r).f.Rdc
		if f == nil {
			absent(e)
			return
		}
		sidh(r, e, func(m *machine, a *lane) { f(a.fp(o.I("d")), &a.x[o.I("a")]) }, []int{o.I("d")}, []int{o.I("a")})
	})
	Reg("f.qswap", func(r *Run, o Op, e Ev) {
		regs(o, e, "a", "b", "g", "h", "c")
		f := get(r).f.QSwap
		if f == nil {
			absent(e)
			return
		}
		sidh(r, e, func(m *machine, a *lane) {
			f(&a.q[o.I("a")], &a.q[o.I("g")], &a.q[o.I("b")], &a.q[o.I("h")], uint8(o.I("c")))
		}, []int{0, 1, 2, 3, 4, 5, 6, 7}, nil)
	})
	Reg("f.cswap", func(r *Run, o Op, e Ev) {
		regs(o, e, "a", "b", "c")
		m, x, y, c := get(r), o.I("a"), o.I("b"), uint8(o.I("c"))
		if m.f == nil {
			if csidh.VSwap == nil {
				absent(e)
				return
			}
			cs(r, e, func(_ int, a *clane) int { csidh.VSwap(&a.f[x], &a.f[y], c); return 0 }, []int{x, y}, nil, false)
			return
		}
		if m.f.Swap == nil {
			absent(e)
			return
		}
		sidh(r, e, func(m *machine, a *lane) { m.f.Swap(a.fp(x), a.fp(y), c) }, []int{x, y}, nil)
	})

	for _, n := range []string{"cadd", "csub", "cmul", "cpow"} {
		n := n
		Reg("f."+n, func(r *Run, o Op, e Ev) {
			regs(o, e, "d", "a", "b")
			f := csidh.V3[n]
			if f == nil {
				absent(e)
				return
			}
			cs(r, e, func(_ int, a *clane) int { f(&a.f[o.I("d")], &a.f[o.I("a")], &a.f[o.I("b")]); return 0 }, []int{o.I("d")}, nil, false)
		})
	}
	word := func(b []byte, i int) uint64 { return binary.LittleEndian.Uint64(b[8*i:]) }
	for _, n := range []string{"cpow64", "wmul"} {
		n := n
		Reg("f."+n, func(r *Run, o Op, e Ev) {
			regs(o, e, "d", "a")
			ms := o.Bytes("ms")
			e["ms"] = B(ms)
			f := csidh.VW[n]
			if f == nil {
				absent(e)
				return
			}
			cs(r, e, func(i int, a *clane) int { f(&a.f[o.I("d")], &a.f[o.I("a")], word(ms, i)); return 0 }, []int{o.I("d")}, nil, false)
		})
	}
	Reg("f.wmulfull", func(r *Run, o Op, e Ev) {
		regs(o, e, "d", "a")
		ms := o.Bytes("ms")
		e["ms"] = B(ms)
		if csidh.VFull == nil {
			absent(e)
			return
		}
		cs(r, e, func(i int, a *clane) int { csidh.VFull(&a.w[o.I("d")], &a.f[o.I("a")], word(ms, i)); return 0 }, nil, []int{o.I("d")}, false)
	})
	Reg("f.wsub", func(r *Run, o Op, e Ev) {
		regs(o, e, "d", "a", "b")
		if csidh.VSub == nil {
			absent(e)
			return
		}
		cs(r, e, func(_ int, a *clane) int { return int(csidh.VSub(&a.f[o.I("d")], &a.f[o.I("a")], &a.f[o.I("b")])) }, []int{o.I("d")}, nil, true)
	})
	for _, n := range []string{"less", "equal", "iszero", "nonqr"} {
		n := n
		Reg("f."+n, func(r *Run, o Op, e Ev) {
			regs(o, e, "a", "b")
			f := csidh.VB[n]
			if f == nil {
				absent(e)
				return
			}
			cs(r, e, func(_ int, a *clane) int {
				if f(&a.f[o.I("a")], &a.f[o.I("b")]) {
					return 1
				}
				return 0
			}, nil, nil, true)
		})
	}
}
