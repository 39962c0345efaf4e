package exec

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type killSentinel struct{}

// G is a goroutine of the program under analysis. Exactly one runs at a time.
type G struct {
	w      *W
	id     int
	resume chan struct{}
	wait   func() bool // nil: runnable
	what   string
	done   bool
	depth  int
	vc     vclock
	h      uint64 // hash of what the goroutine did and learned from others
}

func mix(h uint64, vs ...uint64) uint64 {
	for _, v := range vs {
		h = (h ^ v) * 0x9e3779b97f4a7c15
		h ^= h >> 29
		h = (h + v) * 0xbf58476d1ce4e5b9
		h ^= h >> 32
	}
	return h
}

// event orders an operation of the current goroutine after all earlier ones on the object with hash o.
func (w *W) event(o *uint64, kind uint64) {
	*o = mix(*o, w.cur.h, kind)
	w.cur.h = mix(w.cur.h, *o, kind)
}

// visited says that another path came to this scheduling decision in an equivalent state: the same goroutines with the same
// histories, the same data decisions, and no more preemptions left. In the absence of data races, which are looked for on every
// path, the state is a function of these.
func (w *W) visited(kind uint64) bool {
	k := mix(kind, uint64(len(w.gs)))
	for _, g := range w.gs {
		f := uint64(0)
		if g.done {
			f = 1
		} else if g.wait != nil {
			f = 2
		}
		k = mix(k, g.h, f)
	}
	if kind == 2 {
		k = mix(k, uint64(w.cur.id))
	}
	w.e.mu.Lock()
	defer w.e.mu.Unlock()
	if w.h.seen == nil {
		w.h.seen = map[uint64]int{}
	}
	if b, ok := w.h.seen[k]; ok && b >= w.preempt {
		return true
	}
	w.h.seen[k] = w.preempt
	return false
}

type vclock []int

func (v vclock) get(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v vclock) join(o vclock) vclock {
	n := len(v)
	if len(o) > n {
		n = len(o)
	}
	r := make(vclock, n)
	for i := range r {
		r[i] = v.get(i)
		if o.get(i) > r[i] {
			r[i] = o.get(i)
		}
	}
	return r
}

func (g *G) tick() vclock {
	c := g.vc.join(make(vclock, g.id+1))
	snap := append(vclock{}, c...)
	c[g.id]++
	g.vc = c
	return snap
}

type raceState struct {
	mem  map[*Value]*shadow
	sync map[*Value]*syncState
}

type shadow struct {
	wg, wc int // last write: goroutine, clock
	has    bool
	reads  map[int]int
}

// syncState holds the model of a sync object, keyed by its address.
type syncState struct {
	n       int // WaitGroup counter, RWMutex readers
	locked  bool
	done    bool
	waiting int
	vc      vclock
	h       uint64
	pool    []Value
	m       *MapV
}

func (w *W) syncOf(p Value) *syncState {
	q, ok := p.(*Value)
	if !ok || q == nil {
		w.nilPanic()
	}
	if w.clk.sync == nil {
		w.clk.sync = map[*Value]*syncState{}
	}
	s := w.clk.sync[q]
	if s == nil {
		s = &syncState{}
		w.clk.sync[q] = s
	}
	return s
}

func (w *W) raceAccess(p *Value, write bool) {
	if len(w.gs) < 2 || w.inits > 0 {
		return
	}
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			w.raceAccess(&x[i], write)
		}
		return
	case Array:
		for i := range x {
			w.raceAccess(&x[i], write)
		}
		return
	}
	if w.clk.mem == nil {
		w.clk.mem = map[*Value]*shadow{}
	}
	s := w.clk.mem[p]
	if s == nil {
		s = &shadow{}
		w.clk.mem[p] = s
	}
	g := w.cur
	me := g.vc.get(g.id)
	if s.has && s.wg != g.id && s.wc > g.vc.get(s.wg) {
		w.end("race", fmt.Sprintf("unordered accesses by goroutines %d and %d%s", s.wg, g.id, " at "+w.where()))
	}
	if write {
		for r, c := range s.reads {
			if r != g.id && c > g.vc.get(r) {
				w.end("race", fmt.Sprintf("unordered read by goroutine %d and write by %d", r, g.id))
			}
		}
		s.has, s.wg, s.wc = true, g.id, me
		s.reads = nil
		return
	}
	if s.reads == nil {
		s.reads = map[int]int{}
	}
	s.reads[g.id] = me
}

// acquire/release maintain happens-before.
func (w *W) acquire(vc vclock) { w.cur.vc = w.cur.vc.join(vc) }
func (w *W) release(vc *vclock) {
	*vc = vc.join(w.cur.tick())
}

// ---------- scheduling ----------

func (w *W) spawn(fr *frame, ci *callInfo, fv Value, args []Value) {
	w.spawnFn(func() { w.doCall(nil, ci, fv, args) })
	_ = fr
}

func (w *W) spawnFn(body func()) {
	if w.purel > 0 {
		panic(pureAbort{})
	}
	if len(w.gs) >= 64 {
		panic(unsupported("more than 64 goroutines"))
	}
	parent := w.cur
	g := &G{w: w, id: len(w.gs), resume: make(chan struct{}, 1)}
	if len(w.gs) == 1 {
		parent.vc = vclock{1}
	}
	snap := parent.tick()
	g.vc = snap.join(make(vclock, g.id+1))
	g.vc[g.id] = 1
	parent.h = mix(parent.h, 11, uint64(g.id))
	g.h = mix(parent.h, 12)
	w.gs = append(w.gs, g)
	go func() {
		<-g.resume
		defer func() {
			r := recover()
			g.done = true
			if w.killed {
				w.gs[0].resume <- struct{}{}
				return
			}
			if r != nil {
				if w.endErr == nil {
					w.endErr = r
				}
				w.killed = true
				w.cur = w.gs[0]
				w.gs[0].resume <- struct{}{}
				return
			}
			g.tick()
			// hand over
			func() {
				defer func() {
					if r := recover(); r != nil {
						if w.endErr == nil {
							w.endErr = r
						}
						w.killed = true
						w.cur = w.gs[0]
						w.gs[0].resume <- struct{}{}
					}
				}()
				n := w.pick(-1)
				w.cur = n
				w.depth = n.depth
				n.wait = nil
				n.resume <- struct{}{}
			}()
		}()
		if w.killed {
			panic(killSentinel{})
		}
		w.depth = 0
		body()
	}()
	w.yieldPoint()
}

// runnable lists goroutines that can run.
func (w *W) runnable() []*G {
	var l []*G
	for _, g := range w.gs {
		if !g.done && (g.wait == nil || g.wait()) {
			l = append(l, g)
		}
	}
	return l
}

// pick chooses the next goroutine; prefer < 0: any order.
func (w *W) pick(prefer int) *G {
	l := w.runnable()
	if len(l) == 0 {
		what := ""
		for _, g := range w.gs {
			if !g.done {
				what += fmt.Sprintf(" goroutine %d: %s;", g.id, g.what)
			}
		}
		w.end("deadlock", "all goroutines are blocked:"+what)
	}
	if len(l) == 1 || w.preempt < 0 {
		return l[0]
	}
	if !w.replaying() && w.visited(1) {
		w.end("visited", "")
	}
	return l[w.choose(len(l), "sched")]
}

func (w *W) switchTo(n *G) {
	me := w.cur
	if n == me {
		me.wait = nil
		return
	}
	me.depth = w.depth
	w.cur = n
	w.depth = n.depth
	n.wait = nil
	n.resume <- struct{}{}
	<-me.resume
	if w.killed {
		panic(killSentinel{})
	}
	w.depth = me.depth
}

// block suspends the current goroutine until cond holds.
func (w *W) block(what string, cond func() bool) {
	if w.purel > 0 {
		panic(pureAbort{})
	}
	for !cond() {
		w.cur.wait = cond
		w.cur.what = what
		w.switchTo(w.pick(-1))
	}
	w.cur.wait = nil
}

// yieldPoint is a possible preemption before a synchronising operation.
func (w *W) yieldPoint() {
	if w.inits > 0 {
		return
	}
	w.cur.h = mix(w.cur.h, 7)
	if len(w.gs) < 2 || w.preempt <= 0 {
		return
	}
	if w.purel > 0 {
		panic(pureAbort{})
	}
	l := w.runnable()
	var o []*G
	for _, g := range l {
		if g != w.cur {
			o = append(o, g)
		}
	}
	if len(o) == 0 {
		return
	}
	if !w.replaying() && w.visited(2) {
		w.end("visited", "")
	}
	k := w.choose(len(o)+1, "preempt")
	if k == 0 {
		return
	}
	if w.preempt < 1000 { // otherwise unbounded
		w.preempt--
	}
	w.switchTo(o[k-1])
}

func (w *W) killAll() {
	if len(w.gs) < 2 {
		return
	}
	w.killed = true
	for _, g := range w.gs[1:] {
		for !g.done {
			w.cur = g
			g.resume <- struct{}{}
			<-w.gs[0].resume
		}
	}
}

// ---------- channels ----------

type ChanV struct {
	cap    int
	buf    []chanMsg
	sendq  []*chanMsg
	nrecv  int
	closed bool
	cvc    vclock
	rvc    []vclock // clocks of past receives (buffered: k-th receive before send k+cap)
	nsent  int
	lastR  vclock
	h      uint64
}

type chanMsg struct {
	v     Value
	vc    vclock
	taken bool
	back  vclock
	backh uint64
	h     uint64
}

func (w *W) chanSend(c *ChanV, v Value) {
	if c == nil {
		w.block("send on nil channel", func() bool { return false })
	}
	w.yieldPoint()
	if c.closed {
		w.rtPanic("send on closed channel")
	}
	if c.cap > 0 {
		w.block("channel send", func() bool { return len(c.buf) < c.cap || c.closed })
		if c.closed {
			w.rtPanic("send on closed channel")
		}
		if k := c.nsent - c.cap; k >= 0 && k < len(c.rvc) {
			w.acquire(c.rvc[k])
		}
		c.nsent++
		c.h = mix(c.h, w.cur.h, 21)
		w.cur.h = mix(w.cur.h, 21)
		c.buf = append(c.buf, chanMsg{v: v, vc: w.cur.tick(), h: w.cur.h})
		return
	}
	c.h = mix(c.h, w.cur.h, 22)
	w.cur.h = mix(w.cur.h, 22)
	m := &chanMsg{v: v, vc: w.cur.tick(), h: w.cur.h}
	c.sendq = append(c.sendq, m)
	w.block("channel send", func() bool { return m.taken || c.closed })
	if !m.taken {
		w.rtPanic("send on closed channel")
	}
	w.cur.h = mix(w.cur.h, m.backh, 23)
	w.acquire(m.back)
}

func (w *W) chanReady(c *ChanV) bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }

func (w *W) chanRecv(c *ChanV, elem types.Type) (Value, bool) {
	if c == nil {
		w.block("receive from nil channel", func() bool { return false })
	}
	w.yieldPoint()
	c.nrecv++
	w.block("channel receive", func() bool { return w.chanReady(c) })
	c.nrecv--
	if len(c.buf) > 0 {
		m := c.buf[0]
		c.buf = append([]chanMsg{}, c.buf[1:]...)
		w.cur.h = mix(w.cur.h, m.h, 24)
		w.acquire(m.vc)
		c.rvc = append(c.rvc, w.cur.tick())
		return m.v, true
	}
	if len(c.sendq) > 0 {
		m := c.sendq[0]
		c.sendq = append([]*chanMsg{}, c.sendq[1:]...)
		w.cur.h = mix(w.cur.h, m.h, 24)
		w.acquire(m.vc)
		m.taken = true
		m.backh = w.cur.h
		m.back = w.cur.tick()
		return m.v, true
	}
	w.cur.h = mix(w.cur.h, c.h, 28)
	w.acquire(c.cvc)
	return w.zero(elem), false
}

func (w *W) chanClose(c *ChanV) {
	if c == nil {
		w.rtPanic("close of nil channel")
	}
	w.yieldPoint()
	if c.closed {
		w.rtPanic("close of closed channel")
	}
	c.closed = true
	c.h = mix(c.h, w.cur.h, 25)
	w.cur.h = mix(w.cur.h, 25)
	w.release(&c.cvc)
}

func (w *W) selectOp(fr *frame, x *ssa.Select, in *ins) Value {
	// operands: for each state Chan, then Send value when sending
	type st struct {
		ch   *ChanV
		send bool
		v    Value
		elem types.Type
	}
	var sts []st
	k := 0
	for _, s := range x.States {
		e := st{elem: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		e.ch, _ = w.get(fr, &in.op[k]).(*ChanV)
		if s.Dir == types.SendOnly {
			e.send = true
			e.v = copyVal(w.get(fr, &in.op[k+1]))
		}
		k += 2
		sts = append(sts, e)
	}
	w.yieldPoint()
	ready := func() []int {
		var r []int
		for i, s := range sts {
			if s.ch == nil {
				continue
			}
			if s.send {
				if s.ch.closed || s.ch.cap > 0 && len(s.ch.buf) < s.ch.cap || s.ch.cap == 0 && s.ch.nrecv > len(s.ch.sendq) {
					r = append(r, i)
				}
			} else if w.chanReady(s.ch) {
				r = append(r, i)
			}
		}
		return r
	}
	r := ready()
	nrecv := 0
	for _, s := range x.States {
		if s.Dir != types.SendOnly {
			nrecv++
		}
	}
	res := make(Tuple, 2+nrecv)
	ri := 2
	for _, s := range sts {
		if !s.send {
			res[ri] = w.zero(s.elem)
			ri++
		}
	}
	res[1] = w.ctx.False
	if len(r) == 0 {
		if !x.Blocking {
			w.cur.h = mix(w.cur.h, 27)
			res[0] = w.ctx.Const(64, ^uint64(0))
			return res
		}
		for _, s := range sts {
			if s.ch != nil && !s.send {
				s.ch.nrecv++
			}
		}
		w.block("select", func() bool { return len(ready()) > 0 })
		for _, s := range sts {
			if s.ch != nil && !s.send {
				s.ch.nrecv--
			}
		}
		r = ready()
	}
	i := r[0]
	if len(r) > 1 {
		i = r[w.choose(len(r), "select")]
	}
	res[0] = w.ctx.Const(64, uint64(i))
	w.cur.h = mix(w.cur.h, 26, uint64(i))
	s := sts[i]
	if s.send {
		w.chanSend(s.ch, s.v)
		return res
	}
	v, ok := w.chanRecv(s.ch, s.elem)
	ri = 2
	for j := 0; j < i; j++ {
		if !sts[j].send {
			ri++
		}
	}
	res[ri] = v
	res[1] = w.ctx.Bool(ok)
	return res
}
