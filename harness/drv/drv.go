// Package drv runs scripts (JSON lines) of operations against the real code and
// writes one trace event per operation.  It decides nothing: it executes what
// the script says and records arguments and observed results.
package drv

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"time"
)

// B is a byte string, written as an array of numbers.
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 4*len(b)+2)
	out = append(out, '[')
	for i, v := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendUint(out, uint64(v), 10)
	}
	return append(out, ']'), nil
}

// Op is one operation of a script.
type Op map[string]interface{}

func (o Op) S(k string) string { s, _ := o[k].(string); return s }
func (o Op) I(k string) int {
	switch v := o[k].(type) {
	case float64:
		return int(v)
	}
	return 0
}
func (o Op) Has(k string) bool  { _, ok := o[k]; return ok }
func (o Op) Bool(k string) bool { b, _ := o[k].(bool); return b }
func (o Op) Bytes(k string) []byte {
	b, err := hex.DecodeString(o.S(k))
	if err != nil {
		panic("bad hex in script: " + k)
	}
	return b
}
func (o Op) List(k string) []string {
	r := []string{}
	l, _ := o[k].([]interface{})
	for _, x := range l {
		s, _ := x.(string)
		r = append(r, s)
	}
	return r
}

// Cp copies b for an event.
func Cp(b []byte) B { return append(B{}, b...) }

// Ev is one event.
type Ev map[string]interface{}

const guard = 0xA5
const pre0 = 16

// Buf is a caller buffer with guard bytes around it and a snapshot.
type Buf struct {
	back []byte
	pre  int // bytes in front
	s    []byte
	snap []byte
	nilS bool
	name string
	wr   int // number of leading bytes the callee may write; -1: read only
	lo   int // if set, the writable region starts here
}

// Run holds the objects of one script (or thread).
type Run struct {
	Obj  map[string]interface{}
	bufs []*Buf
	nbuf int
	kept []*Buf // outputs of earlier calls, which must stay as they are
	fr   []string
	over int // outputs written beyond what was asked for
	wch  []watched
	Env  map[string]interface{} // shared between the threads of one script; read only
	// how buffers are laid out: "" as the script says; "plain": exactly as long as needed and
	// left alone by the caller afterwards; "wide": empty ones are nil, others have spare
	// capacity, and the caller overwrites them after the call
	Lay string
	yld func()
}

// Yield is a point at which another thread may be scheduled: every operation starts with
// one, and every read from a random generator is one.
func (r *Run) Yield() {
	if r != nil && r.yld != nil {
		r.yld()
	}
}

func (r *Run) mk(name string, b []byte, spare int, isNil bool, wr int) []byte {
	switch r.Lay {
	case "plain":
		spare, isNil = 0, false
	case "wide":
		isNil = len(b) == 0
		spare = 16 + (7*len(b)+len(r.bufs))%300
	}
	u := &Buf{name: name, wr: wr, nilS: isNil}
	r.nbuf++
	pre := pre0
	if r.Lay != "plain" {
		// every alignment occurs
		pre += (3*r.nbuf + len(b)) % 8
	}
	u.pre = pre
	if !isNil {
		u.back = make([]byte, pre+len(b)+spare)
		for i := range u.back {
			u.back[i] = guard
		}
		copy(u.back[pre:], b)
		u.s = u.back[pre : pre+len(b) : pre+len(b)+spare]
		u.snap = append([]byte(nil), u.back...)
	}
	r.bufs = append(r.bufs, u)
	return u.s
}

// In gives b to the callee as a read-only input.  Its options come from the
// script: "<name>.spare" bytes of spare capacity, "<name>.nil".
func (r *Run) In(o Op, name string) []byte {
	return r.mk(name, o.Bytes(name), o.I(name+".spare"), o.Bool(name+".nil"), -1)
}

// InB does the same for given bytes.
func (r *Run) InB(o Op, name string, b []byte) []byte {
	return r.mk(name, b, o.I(name+".spare"), o.Bool(name+".nil"), -1)
}

// Out gives an output buffer of n bytes, of which the callee may write wr.
func (r *Run) Out(o Op, name string, n, wr int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(0x5c + 7*i)
	}
	return r.mk(name, b, o.I(name+".spare"), o.Bool(name+".nil"), wr)
}

// InOut is an output buffer with given content.
func (r *Run) InOut(o Op, name string, b []byte, wr int) []byte {
	return r.mk(name, b, o.I(name+".spare"), o.Bool(name+".nil"), wr)
}

type watched struct {
	name string
	f    func() []byte
	snap []byte
}

// Watch notes memory the current call must not change.
func (r *Run) Watch(name string, b []byte) { r.WatchFn(name, func() []byte { return b }) }

// WatchFn does the same for a value that f computes.
func (r *Run) WatchFn(name string, f func() []byte) {
	r.wch = append(r.wch, watched{name, f, append([]byte(nil), f()...)})
}

// Frame records a frame violation found by a handler.
func (r *Run) Frame(s string) { r.fr = append(r.fr, s) }

func (r *Run) check(extra int) {
	for _, w := range r.wch {
		if string(w.f()) != string(w.snap) {
			r.fr = append(r.fr, "arg:"+w.name)
		}
	}
	r.wch = nil
	for _, u := range r.bufs {
		if u.nilS {
			continue
		}
		lo, hi := u.pre, u.pre
		if u.wr > 0 {
			hi = u.pre + u.wr
		}
		if u.lo > 0 {
			lo = u.lo
		}
		for i := range u.back {
			if i >= lo && i < hi {
				continue
			}
			if u.back[i] != u.snap[i] {
				r.fr = append(r.fr, fmt.Sprintf("%s@%d", u.name, i-u.pre))
				if u.wr >= 0 {
					r.over++
				}
				break
			}
		}
	}
	for _, u := range r.kept {
		for i := range u.back {
			if u.back[i] != u.snap[i] {
				r.fr = append(r.fr, fmt.Sprintf("kept:%s@%d", u.name, i-u.pre))
				copy(u.snap, u.back)
				break
			}
		}
	}
	for _, u := range r.bufs {
		if !u.nilS {
			// The caller may reuse its buffers: nothing may depend on them now.
			for i := range u.s {
				if r.Lay == "plain" {
					break
				}
				u.s[i] ^= byte(0x3d + i)
			}
			copy(u.snap, u.back)
			if len(r.kept) < 64 {
				r.kept = append(r.kept, u)
			}
		}
	}
	r.bufs = nil
}

// Keep remembers memory returned by the library: later calls must not change it.
func (r *Run) Keep(name string, b []byte) {
	if len(r.kept) < 64 {
		r.kept = append(r.kept, &Buf{name: name, back: b, snap: append([]byte(nil), b...)})
	}
}

// Handler executes one operation and returns the event.
type Handler func(r *Run, o Op, e Ev)

var handlers = map[string]Handler{}

// Reg registers a handler.
func Reg(op string, h Handler) { handlers[op] = h }

// Course, if there is one, runs f and returns a digest of what it executed.
var Course func(f func()) string

func (r *Run) do(o Op) (e Ev) {
	e = Ev{"op": o.S("op"), "pan": false}
	h := handlers[o.S("op")]
	if h == nil {
		fmt.Fprintln(os.Stderr, "driver: unknown op", o.S("op"))
		os.Exit(3)
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				e["pan"] = true
				e["panic"] = fmt.Sprint(x)
			}
		}()
		if Course != nil {
			e["course"] = Course(func() { h(r, o, e) })
		} else {
			h(r, o, e)
		}
	}()
	r.check(0)
	e["over"] = r.over
	r.over = 0
	if r.fr == nil {
		e["fr"] = []string{}
	} else {
		e["fr"] = r.fr
	}
	r.fr = nil
	return e
}

type script struct {
	ID      int                    `json:"id"`
	Ops     []Op                   `json:"ops"`
	Threads [][]Op                 `json:"threads"`
	Env     map[string]interface{} `json:"env"`
	// with threads: what each of them is about; operations done before, whose objects the
	// threads share; how often it is repeated; the order of the threads at yield points
	// (none: they run freely)
	Doms  []string        `json:"doms"`
	Setup map[string][]Op `json:"setup"`
	Reps  int             `json:"reps"`
	Sched []int           `json:"sched"`
	Alone bool            `json:"alone"` // each thread in a process of its own
	Name0 int             `json:"name0"` // number of the first thread
}

func (r *Run) all(id int, ops []Op) []Ev {
	evs := []Ev{}
	for _, o := range ops {
		done := watch(id, o)
		r.Yield()
		evs = append(evs, r.do(o))
		done()
	}
	return evs
}

func runOps(ops []Op, env map[string]interface{}, id, th int) []Ev {
	r := newRun(env, nil)
	return append([]Ev{{"op": "begin", "id": id, "th": th}}, r.all(id, ops)...)
}

// newRun returns an empty run.
func newRun(env map[string]interface{}, obj map[string]interface{}) *Run {
	m := map[string]interface{}{}
	for k, v := range obj {
		m[k] = v
	}
	lay, _ := env["layout"].(string)
	return &Run{Obj: m, Env: env, Lay: lay}
}

type block struct {
	name, dom string
	evs       []Ev
}

// runConc runs the threads of a script: one block of events for every thread ("t1", ...) and
// one for every set-up that threads share.
func runConc(s *script) []block {
	res := []block{}
	runs := make([]*Run, len(s.Threads))
	objs := map[string]map[string]interface{}{}
	ds := []string{}
	for d := range s.Setup {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		r := newRun(s.Env, nil)
		res = append(res, block{"set-up " + d, d, r.all(s.ID, s.Setup[d])})
		objs[d] = r.Obj
	}
	for i, d := range s.Doms {
		runs[i] = newRun(s.Env, objs[d])
	}
	all := make([][]Ev, len(s.Threads))
	var wg sync.WaitGroup
	if s.Sched == nil {
		start := make(chan struct{})
		for i := range s.Threads {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				runs[i].yld = runtime.Gosched
				<-start
				all[i] = runs[i].all(s.ID, s.Threads[i])
			}(i)
		}
		close(start)
	} else {
		c := newSched(s.Sched, len(s.Threads))
		for i := range s.Threads {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				c.wait(i)
				runs[i].yld = func() { c.give(); c.wait(i) }
				all[i] = runs[i].all(s.ID, s.Threads[i])
				c.end(i)
			}(i)
		}
		c.give()
	}
	wg.Wait()
	for i, d := range s.Doms {
		res = append(res, block{fmt.Sprintf("t%d", i), d, all[i]})
	}
	return res
}

// runAlone runs every thread of a script in a process of its own and copies what they
// recorded to w.
func runAlone(s *script, w io.Writer) {
	for i, d := range s.Doms {
		sub := script{ID: s.ID, Threads: s.Threads[i : i+1], Doms: []string{d}, Env: s.Env, Name0: i}
		if ops, ok := s.Setup[d]; ok {
			sub.Setup = map[string][]Op{d: ops}
		}
		j, err := json.Marshal(sub)
		if err != nil {
			panic(err)
		}
		sf, tf := os.Args[2]+".as", os.Args[2]+".at0"
		if err := os.WriteFile(sf, j, 0o600); err != nil {
			panic(err)
		}
		c := exec.Command(os.Args[0], sf, tf)
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		if err := c.Run(); err != nil {
			if x, ok := err.(*exec.ExitError); ok && x.ExitCode() > 0 {
				os.Exit(x.ExitCode())
			}
			panic(err)
		}
		b, err := os.ReadFile(tf)
		if err != nil {
			panic(err)
		}
		w.Write(b)
		os.Remove(sf)
		os.Remove(tf)
		os.Remove(tf + ".at")
	}
}

// sched lets one thread run at a time, in the order given and then in turn.
type sched struct {
	mu    sync.Mutex
	cond  *sync.Cond
	order []int
	done  []bool
	now   int
	last  int
}

func newSched(order []int, n int) *sched {
	c := &sched{order: order, done: make([]bool, n), now: -1}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *sched) pick() {
	for len(c.order) > 0 {
		x := c.order[0]
		c.order = c.order[1:]
		if x < len(c.done) && !c.done[x] {
			c.now, c.last = x, x
			c.cond.Broadcast()
			return
		}
	}
	for i := 1; i <= len(c.done); i++ {
		x := (c.last + i) % len(c.done)
		if !c.done[x] {
			c.now, c.last = x, x
			break
		}
	}
	c.cond.Broadcast()
}

func (c *sched) give() {
	c.mu.Lock()
	c.now = -1
	c.pick()
	c.mu.Unlock()
}

func (c *sched) wait(i int) {
	c.mu.Lock()
	for c.now != i {
		c.cond.Wait()
	}
	c.mu.Unlock()
}

func (c *sched) end(i int) {
	c.mu.Lock()
	c.done[i] = true
	c.now = -1
	c.pick()
	c.mu.Unlock()
}

// A call that does not return within the limit ends the run: the trace then
// consists of the script's first event and a "hang" event.
var limit = 75 * time.Second

func watch(id int, o Op) func() {
	lim := limit
	if o.I("k") > 1<<20 { // a very long message
		lim *= 6
	}
	t := time.AfterFunc(lim, func() {
		f, err := os.Create(os.Args[2])
		if err == nil {
			fmt.Fprintf(f, "{\"op\":\"begin\",\"id\":%d,\"th\":0}\n", id)
			fmt.Fprintf(f, "{\"op\":\"hang\",\"call\":%q,\"pan\":true,\"fr\":[]}\n", o.S("op"))
			f.Close()
		}
		os.Exit(0)
	})
	return func() { t.Stop() }
}

// Main runs the script file os.Args[1] and writes the trace to os.Args[2].
func Main() {
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	outf, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(outf, 1<<20)
	enc := json.NewEncoder(w)
	rd := bufio.NewReaderSize(in, 1<<20)
	dec := json.NewDecoder(rd)
	at, err := os.Create(os.Args[2] + ".at")
	if err != nil {
		panic(err)
	}
	for dec.More() {
		var s script
		if err := dec.Decode(&s); err != nil {
			fmt.Fprintln(os.Stderr, "driver: bad script:", err)
			os.Exit(3)
		}
		if s.Env == nil {
			s.Env = map[string]interface{}{}
		}
		at.WriteAt([]byte(fmt.Sprintf("%12d", s.ID)), 0)
		prepare(s.Env)
		var all [][]Ev
		if s.Doms != nil {
			if s.Alone {
				w.Flush()
				runAlone(&s, outf)
				continue
			}
			// equal histories are written once
			seen := map[string]bool{}
			for k := 0; k == 0 || k < s.Reps; k++ {
				for _, b := range runConc(&s) {
					j, err := json.Marshal(b.evs)
					if err != nil {
						panic(err)
					}
					if b.name[0] == 't' {
						n, _ := strconv.Atoi(b.name[1:])
						b.name = fmt.Sprintf("t%d", n+s.Name0)
					}
					if key := b.name + string(j); !seen[key] {
						seen[key] = true
						all = append(all, append([]Ev{{"op": "begin", "id": s.ID, "th": 0, "blk": b.name, "dom": b.dom, "rep": k}}, b.evs...))
					}
				}
			}
		} else if s.Threads != nil {
			all = make([][]Ev, len(s.Threads))
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range s.Threads {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					all[i] = runOps(s.Threads[i], s.Env, s.ID, i)
				}(i)
			}
			close(start)
			wg.Wait()
		} else {
			all = [][]Ev{runOps(s.Ops, s.Env, s.ID, 0)}
		}
		for _, evs := range all {
			for _, e := range evs {
				if err := enc.Encode(e); err != nil {
					panic(err)
				}
			}
		}
	}
	if err := w.Flush(); err != nil {
		panic(err)
	}
	if err := outf.Close(); err != nil {
		panic(err)
	}
}

var preparers []func(map[string]interface{})

// Prep registers a function that turns script environments into shared objects.
func Prep(f func(map[string]interface{})) { preparers = append(preparers, f) }

func prepare(env map[string]interface{}) {
	for _, f := range preparers {
		f(env)
	}
}

// Stream is an io.Reader over fixed bytes: it returns them in order, in pieces
// of at most Chunk bytes, and then fails.  Taken counts the bytes handed out.
type Stream struct {
	R     *Run
	Data  []byte
	Chunk int
	Taken int
}

type streamErr struct{}

func (streamErr) Error() string { return "rng failed" }

func (s *Stream) Read(p []byte) (int, error) {
	s.R.Yield()
	if len(s.Data) == 0 {
		return 0, streamErr{}
	}
	n := len(p)
	if s.Chunk > 0 && n > s.Chunk {
		n = s.Chunk
	}
	n = copy(p[:n], s.Data)
	s.Data = s.Data[n:]
	s.Taken += n
	return n, nil
}

// Counter gives an endless, deterministic byte stream (xorshift).
type Counter struct{ X uint64 }

func (c *Counter) Read(p []byte) (int, error) {
	for i := range p {
		c.X ^= c.X << 13
		c.X ^= c.X >> 7
		c.X ^= c.X << 17
		p[i] = byte(c.X >> 32)
	}
	return len(p), nil
}

// Keys returns the sorted keys of m.
func Keys(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// AllowSpare lets the callee write n bytes behind the last buffer handed out.
func (r *Run) AllowSpare(n int) {
	u := r.bufs[len(r.bufs)-1]
	if n > 0 && !u.nilS {
		u.lo = u.pre + len(u.s)
		u.wr = len(u.s) + n
	}
}

// Within tells whether b lies in a caller buffer of this call.
func (r *Run) Within(b []byte) bool {
	if len(b) == 0 {
		return true
	}
	for _, u := range r.bufs {
		for i := range u.back {
			if &u.back[i] == &b[0] {
				return true
			}
		}
	}
	return false
}

// Touched records whether b changed.
func Touched(e Ev, name string, b []byte) func() {
	was := append([]byte(nil), b...)
	e[name] = false
	return func() { e[name] = !bytes.Equal(was, b) }
}
