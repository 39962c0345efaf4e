package exec

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

const maxAlloc = 1 << 26

// Config of a run.
type Config struct {
	Workers     int
	Deadline    time.Time
	Seed        int64
	Tier        int
	StepLimit   int64
	QueryMS     int
	PreciseMS   int
	MaxPaths    int
	SamplePaths int
	Debug       bool
	Replay      Replayer
}

// Replayer runs inputs against the natively compiled code.
type Replayer interface {
	// Run executes one input vector; race asks for the race-enabled build and repetition.
	Run(harness string, inputs []uint64, race bool) Outcome
	// Batch executes many vectors of one harness.
	Batch(harness string, vecs [][]uint64) []Outcome
}

// Outcome of a native run.
type Outcome struct {
	Kind string // ok, assert, panic, hang, deadlock, race, oom, assume, error
	Msg  string
	Obs  []uint64
}

func (o Outcome) Failing() bool {
	switch o.Kind {
	case "assert", "panic", "hang", "deadlock", "race", "oom":
		return true
	}
	return false
}

// Dec is one recorded decision.
type Dec struct {
	V      uint64 // chosen value (concretise / n-ary choice)
	Taken  bool
	Forced bool
	Nary   bool
}

// Violation is a confirmed one.
type Violation struct {
	Harness string
	Kind    string
	Msg     string
	Inputs  []uint64
	Labels  []string
	Native  Outcome
}

// HStats is per harness.
type HStats struct {
	Name          string
	Paths         int
	Ends          map[string]int
	Decisions     int64
	Steps         int64
	Asserts       int64
	AssertsSolver int64
	Covers        map[string]int
	Unconfirmed   map[string]int
	Inconclusive  map[string]int
	Unsupported   map[string]int
	Validated     int
	Mismatch      []string
	Busy          time.Duration
	Complete      bool
	Samples       []Sample
	NativeRuns    int
	Merged        int64
	Uncovered     []string
}

// Sample is a solved path.
type Sample struct {
	Inputs []uint64 `json:"inputs"`
	Labels []string `json:"labels"`
	End    string   `json:"end"`
	obs    []uint64
	want   bool
}

// Clean says that every path within the bounds was explored and every assertion on it decided.
func (s *HStats) Clean() bool {
	return s.Complete && len(s.Inconclusive) == 0 && len(s.Unsupported) == 0 && len(s.Unconfirmed) == 0 && len(s.Mismatch) == 0
}

type job struct {
	h      *hstate
	prefix []Dec
}

type hstate struct {
	fn    *ssa.Function
	st    *HStats
	jobs  []*job
	run   int // running paths
	paths int
	unc   map[string]int
	seen  map[uint64]int
	samp  []Sample
}

// Engine is shared by the workers.
type Engine struct {
	Prog *ssa.Program
	Cfg  Config

	mu     sync.Mutex
	cond   *sync.Cond
	hs     []*hstate
	viol   []Violation
	stop   bool
	Solver smt.Stats
	FP     smt.Stats
	Funcs  map[string]bool
	sizes  types.Sizes
	known  func(v *Violation) bool
	Known  map[string]int
}

func NewEngine(prog *ssa.Program, cfg Config) *Engine {
	e := &Engine{Prog: prog, Cfg: cfg, Funcs: map[string]bool{}, Known: map[string]int{}}
	e.cond = sync.NewCond(&e.mu)
	e.sizes = types.SizesFor("gc", "amd64")
	return e
}

// SetKnown installs a filter for listed known findings.
func (e *Engine) SetKnown(f func(v *Violation) bool) { e.known = f }

// Run explores the harness functions.
func (e *Engine) Run(fns []*ssa.Function) ([]*HStats, []Violation) {
	for _, f := range fns {
		h := &hstate{fn: f, unc: map[string]int{}, st: &HStats{Name: f.Name(), Ends: map[string]int{}, Covers: map[string]int{}, Unconfirmed: map[string]int{}, Inconclusive: map[string]int{}, Unsupported: map[string]int{}}}
		h.jobs = []*job{{h: h}}
		e.hs = append(e.hs, h)
	}
	debug.SetMemoryLimit(heapMax)
	var wg sync.WaitGroup
	for i := 0; i < e.Cfg.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := newW(e, i)
			defer w.close()
			for {
				j := e.take(w)
				if j == nil {
					return
				}
				t0 := time.Now()
				w.runPath(j)
				d := time.Since(t0)
				e.mu.Lock()
				j.h.run--
				j.h.st.Busy += d
				e.cond.Broadcast()
				e.mu.Unlock()
				w.maybeReset()
			}
		}(i)
	}
	wg.Wait()
	var out []*HStats
	for _, h := range e.hs {
		h.st.Complete = len(h.jobs) == 0 && h.run == 0 && !e.stop
		for _, c := range coversOf(h.fn) {
			if h.st.Covers[c] == 0 {
				h.st.Uncovered = append(h.st.Uncovered, c)
			}
		}
		e.validate(h)
		out = append(out, h.st)
	}
	return out, e.viol
}

func (e *Engine) take(w *W) *job {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.Cfg.Deadline) {
			if !e.stop {
				e.stop = true
				e.cond.Broadcast()
			}
			return nil
		}
		var best *hstate
		running := 0
		for _, h := range e.hs {
			running += h.run
			if len(h.jobs) == 0 {
				continue
			}
			if best == nil || float64(h.st.Busy)+float64(h.run)*5e7 < float64(best.st.Busy)+float64(best.run)*5e7 {
				best = h
			}
		}
		if best != nil && (running == 0 || liveHeap() < heapHigh) {
			n := len(best.jobs)
			k := n - 1
			if w.rng.Intn(6) == 0 {
				k = w.rng.Intn(n)
			}
			j := best.jobs[k]
			best.jobs[k] = best.jobs[n-1]
			best.jobs = best.jobs[:n-1]
			best.run++
			return j
		}
		if best == nil && running == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) push(h *hstate, prefix []Dec) {
	e.mu.Lock()
	h.jobs = append(h.jobs, &job{h: h, prefix: prefix})
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Engine) report(v Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.known != nil && e.known(&v) {
		e.Known[v.Harness+": "+v.Msg]++
		return
	}
	e.viol = append(e.viol, v)
	e.stop = true
	e.cond.Broadcast()
}

func (e *Engine) stopped() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.stop
}

// validate replays sampled paths natively and compares the observations.
func (e *Engine) validate(h *hstate) {
	if len(h.samp) == 0 || e.Cfg.Replay == nil {
		return
	}
	vecs := make([][]uint64, len(h.samp))
	for i, s := range h.samp {
		vecs[i] = s.Inputs
	}
	outs := e.Cfg.Replay.Batch(h.st.Name, vecs)
	for i, o := range outs {
		s := h.samp[i]
		h.st.NativeRuns++
		if o.Failing() {
			// a concrete failing run of the real code
			e.report(Violation{Harness: h.st.Name, Kind: o.Kind, Msg: o.Msg + " (native run of a sampled path)", Inputs: s.Inputs, Labels: s.Labels, Native: o})
			continue
		}
		if o.Kind != "ok" {
			h.st.Mismatch = append(h.st.Mismatch, fmt.Sprintf("native outcome %s %s for %v", o.Kind, o.Msg, s.Inputs))
			continue
		}
		same := len(o.Obs) == len(s.obs)
		for k := 0; same && k < len(o.Obs); k++ {
			if o.Obs[k] != s.obs[k] {
				same = false
			}
		}
		if !same {
			h.st.Mismatch = append(h.st.Mismatch, fmt.Sprintf("observations differ: engine %x native %x inputs %x", s.obs, o.Obs, s.Inputs))
			continue
		}
		h.st.Validated++
	}
}

// ---------- worker ----------

type input struct {
	label string
	t     *smt.Term
	hint  uint8 // 1 = float64, 2 = float32
}

// W is a worker: it owns terms, solver and the memory of the current path.
type W struct {
	e    *Engine
	id   int
	rng  *rand.Rand
	ctx  *smt.Ctx
	slv  *smt.Solver
	fp   *smt.Solver
	fns  map[*ssa.Function]*fn
	glob map[*ssa.Global]*Value
	init map[*ssa.Package]int
	mths map[mkey]*ssa.Function

	// path state
	h       *hstate
	prefix  []Dec
	trace   []Dec
	pc      []*smt.Term
	known   map[*smt.Term]bool
	model   smt.Model
	inputs  []input
	obs     []*smt.Term
	toks    map[string]tok
	ntok    int
	undoLog []func()
	stores  []storeRec
	logging bool
	steps   int64
	limit   int64
	depth   int
	vfs     map[string][]Value
	procs   int
	preempt int
	lemmas  bool
	files   map[*Value]*vfile
	nextVar int
	allocs  int64
	purel   int // >0: inside nested pure exploration
	npure   int
	pures   []*pureCtx
	nopure  bool
	jdecs   map[*Value]*jdecState
	curIns  *ins
	spec    int // >0: speculative execution
	nifc    int64
	simpN   int
	simpM   map[*smt.Term]*smt.Term

	// goroutines
	gs     []*G
	cur    *G
	killed bool
	endErr interface{}
	clk    raceState
	inits  int // package initialisers being run
}

type mkey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

type storeRec struct {
	p   *Value
	old Value
}

type tok struct {
	t     *smt.Term
	float bool
}

type pathEnd struct {
	kind, msg string
}

func newW(e *Engine, id int) *W {
	w := &W{e: e, id: id, rng: rand.New(rand.NewSource(e.Cfg.Seed*1000 + int64(id)))}
	w.reset()
	return w
}

func (w *W) reset() {
	w.close()
	w.ctx = smt.NewCtx()
	w.ctx.Fun = nativeFun
	w.slv = smt.NewSolver(w.ctx, false)
	w.fp = nil
	w.fns = map[*ssa.Function]*fn{}
	w.glob = map[*ssa.Global]*Value{}
	w.init = map[*ssa.Package]int{}
	w.mths = map[mkey]*ssa.Function{}
}

func (w *W) maybeReset() {
	if n := w.ctx.NumTerms(); n > 4000000 || n > 500000 && liveHeap() > heapHigh {
		w.reset()
	}
}

// drop lets go of what the finished path has built.
func (w *W) drop() {
	if cap(w.stores) > 1<<16 {
		w.stores = nil
	} else {
		clear(w.stores[:cap(w.stores)])
	}
	if cap(w.undoLog) > 1<<16 {
		w.undoLog = nil
	} else {
		clear(w.undoLog[:cap(w.undoLog)])
	}
	w.files, w.vfs, w.known, w.simpM, w.jdecs, w.toks = nil, nil, nil, nil, nil, nil
	w.gs, w.cur, w.clk, w.endErr, w.inits = nil, nil, raceState{}, nil, 0
}

// heapHigh is where no further path is started beside running ones; the limit set by Run makes the collector work harder
// from heapMax on.
const heapHigh, heapMax = 7 << 30, 12 << 30

func liveHeap() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	metrics.Read(s)
	if s[0].Value.Kind() != metrics.KindUint64 {
		return 0
	}
	return s[0].Value.Uint64()
}

func (w *W) close() {
	if w.slv != nil {
		w.e.mu.Lock()
		w.e.Solver.Add(w.slv.Stats)
		w.e.mu.Unlock()
		w.slv.Close()
		w.slv = nil
	}
	if w.fp != nil {
		w.e.mu.Lock()
		w.e.FP.Add(w.fp.Stats)
		w.e.mu.Unlock()
		w.fp.Close()
		w.fp = nil
	}
	if w.fns != nil {
		w.e.mu.Lock()
		for f := range w.fns {
			w.e.Funcs[f.String()] = true
		}
		w.e.mu.Unlock()
	}
}

func (w *W) undo(f func()) {
	if w.logging {
		w.undoLog = append(w.undoLog, f)
		w.stores = append(w.stores, storeRec{nil, len(w.undoLog) - 1})
	}
}

func (w *W) store(p *Value, v Value) {
	if w.logging {
		w.stores = append(w.stores, storeRec{p, *p})
	}
	*p = v
}

func (w *W) rollback(mark int) {
	for i := len(w.stores) - 1; i >= mark; i-- {
		r := w.stores[i]
		if r.p == nil {
			k := r.old.(int)
			w.undoLog[k]()
			w.undoLog = w.undoLog[:k]
		} else {
			*r.p = r.old
		}
	}
	w.stores = w.stores[:mark]
}

func (w *W) end(kind, msg string) {
	panic(pathEnd{kind, msg})
}

func (w *W) runPath(j *job) {
	w.h = j.h
	w.prefix = j.prefix
	w.trace = w.trace[:0]
	w.pc = w.pc[:0]
	w.known = map[*smt.Term]bool{}
	w.simpM = nil
	w.model = nil
	w.inputs = nil
	w.obs = nil
	w.toks = map[string]tok{}
	w.ntok = 0
	w.steps = 0
	w.limit = w.e.Cfg.StepLimit
	w.depth = 0
	w.vfs = map[string][]Value{}
	w.procs = 8
	w.preempt = 0
	w.lemmas = false
	w.files = map[*Value]*vfile{}
	w.nextVar = 0
	w.allocs = 0
	w.stores = w.stores[:0]
	w.undoLog = w.undoLog[:0]
	w.logging = true
	w.killed = false
	w.endErr = nil
	w.clk = raceState{}
	w.purel = 0
	w.spec = 0
	w.npure = 0
	w.pures = w.pures[:0]
	w.nopure = false
	w.jdecs = nil
	w.gs = nil
	g0 := &G{w: w, id: 0, resume: make(chan struct{}, 1)}
	w.gs = []*G{g0}
	w.cur = g0
	kind, msg := "done", ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			kind, msg = w.classify(r)
		}()
		w.callFn(j.h.fn, nil, nil)
	}()
	w.killAll()
	if w.endErr != nil && kind != "done" || w.endErr != nil && kind == "done" {
		kind, msg = w.classify(w.endErr)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				kind, msg = w.classify(r)
			}
		}()
		w.finish(kind, msg)
	}()
	w.logging = false
	w.rollback(0)
	w.drop()
	e := w.e
	e.mu.Lock()
	st := j.h.st
	st.Paths++
	st.Ends[kind]++
	st.Decisions += int64(len(w.trace))
	st.Steps += w.steps
	if kind == "unsupported" {
		st.Unsupported[msg]++
	}
	if kind == "limit" || kind == "internal" {
		st.Inconclusive[kind+": "+msg]++
	}
	j.h.paths++
	if e.Cfg.MaxPaths > 0 && j.h.paths >= e.Cfg.MaxPaths && len(j.h.jobs) > 0 {
		st.Inconclusive[fmt.Sprintf("path budget %d", e.Cfg.MaxPaths)]++
		j.h.jobs = nil
	}
	e.mu.Unlock()
	if e.Cfg.Debug {
		fmt.Fprintf(os.Stderr, "path %s #%d end=%s %s dec=%d steps=%d\n", j.h.st.Name, st.Paths, kind, msg, len(w.trace), w.steps)
	}
}

func (w *W) classify(r interface{}) (string, string) {
	switch x := r.(type) {
	case pathEnd:
		return x.kind, x.msg
	case unsupportedErr:
		return "unsupported", x.msg
	case *goPanic:
		return "panic", x.msg + w.where()
	case killSentinel:
		if w.endErr != nil {
			return w.classify(w.endErr)
		}
		return "internal", "killed"
	}
	if w.e.Cfg.Debug {
		panic(r)
	}
	return "internal", firstLine(fmt.Sprint(r))
}

// where is the source position of the instruction executed last.
func (w *W) where() string {
	if w.curIns == nil || w.curIns.i == nil {
		return ""
	}
	pos := w.curIns.i.Pos()
	if !pos.IsValid() {
		if v, ok := w.curIns.i.(ssa.Value); ok {
			pos = v.Pos()
		}
	}
	fn := ""
	if w.curIns.i.Parent() != nil {
		fn = w.curIns.i.Parent().Name()
	}
	p := w.e.Prog.Fset.Position(pos)
	f := p.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf(" @ %s:%d %s", f, p.Line, fn)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// finish handles the end of a path: candidate violations and samples.
func (w *W) finish(kind, msg string) {
	switch kind {
	case "done":
		w.sample(kind)
	case "panic":
		w.candidate("panic", msg, nil, false)
	case "deadlock":
		w.candidate("deadlock", msg, nil, false)
	case "race":
		w.candidate("race", msg, nil, true)
	case "limit":
		// possible hang: run the real code on an input of this path
		w.candidate("hang", msg, nil, false)
	case "alloc":
		w.candidate("oom", msg, nil, false)
	case "unsupported", "internal":
		// the path cannot be followed symbolically: run one concrete input of it
		w.candidate("unsupported", msg, nil, false)
	}
}

// ---------- inputs ----------

func (w *W) newVar(label string, width uint8, hint uint8) *smt.Term {
	n := fmt.Sprintf("n%d_%d", w.nextVar, width)
	w.nextVar++
	t := w.ctx.Var(n, width)
	w.inputs = append(w.inputs, input{label: label, t: t, hint: hint})
	return t
}

func (w *W) constInput(label string, v uint64) {
	w.inputs = append(w.inputs, input{label: label, t: w.ctx.Const(64, v)})
}

func (w *W) inputVars() []*smt.Term {
	var vs []*smt.Term
	for _, in := range w.inputs {
		if in.t.Op == smt.OpVar {
			vs = append(vs, in.t)
		}
	}
	return vs
}

func (w *W) inputValues(m smt.Model) ([]uint64, []string) {
	vals := make([]uint64, len(w.inputs))
	labels := make([]string, len(w.inputs))
	for i, in := range w.inputs {
		labels[i] = in.label
		if in.t.Op == smt.OpConst {
			vals[i] = in.t.C
		} else {
			vals[i] = m[in.t.Name]
		}
	}
	return vals, labels
}

// ---------- decisions ----------

func (w *W) replaying() bool { return len(w.trace) < len(w.prefix) }

func (w *W) addPC(c *smt.Term) {
	w.learn(c)
	w.pc = append(w.pc, c)
	if w.model != nil {
		if c.HasF {
			w.model = nil
		} else if ev := smt.NewEvaluator(w.ctx, w.model); !ev.Bool(c) {
			w.model = nil
		}
	}
}

func (w *W) learn(c *smt.Term) {
	w.known[c] = true
	w.known[w.ctx.Not(c)] = false
	switch c.Op {
	case smt.OpAnd:
		w.learn(c.A[0])
		w.learn(c.A[1])
	case smt.OpNot:
		if o := c.A[0]; o.Op == smt.OpOr {
			w.learn(w.ctx.Not(o.A[0]))
			w.learn(w.ctx.Not(o.A[1]))
		}
	}
}

func (w *W) check(extra *smt.Term, wantModel bool) (smt.Result, smt.Model) {
	var ex []*smt.Term
	if extra != nil {
		ex = []*smt.Term{extra}
		if extra.HasF && w.lemmas {
			ex = append(ex, w.lemmasFor(append(append([]*smt.Term{}, w.pc...), extra))...)
		}
	}
	var vars []*smt.Term
	if wantModel {
		vars = w.inputVars()
		if vars == nil {
			vars = []*smt.Term{}
		}
	}
	return w.slv.Check(w.pc, ex, w.e.Cfg.QueryMS, vars)
}

// fold enters a decision about data into the history of the current goroutine.
func (w *W) fold(taken bool, v uint64) {
	k := uint64(51)
	if taken {
		k = 52
	}
	w.cur.h = mix(w.cur.h, k, v)
}

// branch decides a condition, forking the path if both outcomes are possible.
func (w *W) branch(cond *smt.Term) bool {
	if cond.HasF && w.spec == 0 && w.purel == 0 {
		cond = w.simp(cond)
	}
	if cond.Op == smt.OpConst {
		return cond.C == 1
	}
	if v, ok := w.known[cond]; ok {
		return v
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	if w.purel > 0 {
		return w.pureBranch(cond)
	}
	not := w.ctx.Not(cond)
	if w.replaying() {
		d := w.prefix[len(w.trace)]
		w.trace = append(w.trace, d)
		c := cond
		if !d.Taken {
			c = not
		}
		if d.Forced {
			w.learn(c)
		} else {
			w.fold(d.Taken, 0)
			w.addPC(c)
		}
		return d.Taken
	}
	if w.e.Cfg.Deadline.Before(time.Now()) || w.e.stopped() {
		w.end("stopped", "")
	}
	// one side is known feasible when a model of the path is at hand
	satT, satF := smt.Unknown, smt.Unknown
	var mT, mF smt.Model
	if w.model != nil && !cond.HasF {
		if smt.NewEvaluator(w.ctx, w.model).Bool(cond) {
			satT, mT = smt.Sat, w.model
		} else {
			satF, mF = smt.Sat, w.model
		}
	}
	if satT != smt.Sat {
		satT, mT = w.check(cond, true)
		if satT == smt.Unknown {
			w.unknown()
		}
	}
	if satT == smt.Unsat && satF != smt.Sat {
		satF = smt.Sat // the path itself is feasible
	}
	if satF != smt.Sat {
		satF, mF = w.check(not, true)
		if satF == smt.Unknown {
			w.unknown()
		}
	}
	t, f := satT != smt.Unsat, satF != smt.Unsat
	switch {
	case t && f:
		first := true
		if w.rng.Intn(2) == 0 {
			first = false
		}
		alt := make([]Dec, len(w.trace)+1)
		copy(alt, w.trace)
		alt[len(w.trace)] = Dec{Taken: !first}
		w.e.push(w.h, alt)
		w.trace = append(w.trace, Dec{Taken: first})
		w.fold(first, 0)
		if first {
			w.model = mT
			w.addPC(cond)
		} else {
			w.model = mF
			w.addPC(not)
		}
		return first
	case t:
		w.trace = append(w.trace, Dec{Taken: true, Forced: true})
		w.learn(cond)
		if w.model == nil {
			w.model = mT
		}
		return true
	case f:
		w.trace = append(w.trace, Dec{Taken: false, Forced: true})
		w.learn(not)
		if w.model == nil {
			w.model = mF
		}
		return false
	}
	w.end("infeasible", "")
	return false
}

// simp replaces the conditions within a term of float operations that the path decides.
func (w *W) simp(t *smt.Term) *smt.Term {
	if !t.HasF {
		return t
	}
	if w.simpN != len(w.known) || w.simpM == nil {
		w.simpN, w.simpM = len(w.known), map[*smt.Term]*smt.Term{}
	}
	n := 0
	return w.simp1(t, &n)
}

func (w *W) simp1(t *smt.Term, n *int) *smt.Term {
	if t.Op == smt.OpConst || t.Op == smt.OpVar {
		return t
	}
	if r, ok := w.simpM[t]; ok {
		return r
	}
	*n++
	if *n > 20000 {
		return t
	}
	r := t
	if v, ok := w.known[t]; ok && t.W == 0 {
		r = w.ctx.Bool(v)
	} else {
		a := make([]*smt.Term, len(t.A))
		same := true
		if t.Op == smt.OpIte {
			a[0] = w.simp1(t.A[0], n)
			switch {
			case a[0].IsTrue():
				r = w.simp1(t.A[1], n)
				w.simpM[t] = r
				return r
			case a[0].IsFalse():
				r = w.simp1(t.A[2], n)
				w.simpM[t] = r
				return r
			}
		}
		for i, x := range t.A {
			if a[i] == nil {
				a[i] = w.simp1(x, n)
			}
			same = same && a[i] == x
		}
		if !same {
			r = w.ctx.Rebuild(t, a)
		}
	}
	w.simpM[t] = r
	return r
}

func (w *W) unknown() {
	w.e.mu.Lock()
	w.h.st.Inconclusive["solver gave no answer; both outcomes explored"]++
	w.e.mu.Unlock()
}

func (w *W) inconclusive(msg string) {
	w.e.mu.Lock()
	w.h.st.Inconclusive[msg]++
	w.e.mu.Unlock()
}

// choose is an n-ary nondeterministic choice.
func (w *W) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	if w.purel > 0 {
		panic(pureAbort{})
	}
	if w.replaying() {
		d := w.prefix[len(w.trace)]
		w.trace = append(w.trace, d)
		if label != "sched" && label != "preempt" {
			w.fold(true, d.V)
		}
		return int(d.V)
	}
	base := len(w.trace)
	for k := n - 1; k >= 1; k-- {
		alt := make([]Dec, base+1)
		copy(alt, w.trace)
		alt[base] = Dec{V: uint64(k), Nary: true}
		w.e.push(w.h, alt)
	}
	w.trace = append(w.trace, Dec{V: 0, Nary: true})
	if label != "sched" && label != "preempt" {
		w.fold(true, 0)
	}
	return 0
}

func constLeaves(t *smt.Term, n int) bool {
	for t.Op == smt.OpIte && n > 0 {
		if !constLeaves(t.A[1], n-1) {
			return false
		}
		t = t.A[2]
		n--
	}
	return t.Op == smt.OpConst
}

// pinned is the value of t when the path leaves only one.
func (w *W) pinned(t *smt.Term) *smt.Term {
	if t.Op == smt.OpConst || w.spec > 0 || w.purel > 0 || t.HasF || constLeaves(t, 40) {
		return t
	}
	if w.replaying() {
		d := w.prefix[len(w.trace)]
		w.trace = append(w.trace, d)
		if d.Taken {
			return w.ctx.Const(t.W, d.V)
		}
		return t
	}
	d := Dec{Forced: true}
	m := w.model
	if m == nil {
		if r, m2 := w.slv.Check(w.pc, nil, w.e.Cfg.QueryMS, append(w.inputVars(), smt.Vars(t)...)); r == smt.Sat {
			m = m2
		}
	}
	if m != nil {
		v := smt.NewEvaluator(w.ctx, m).Eval(t)
		if r, _ := w.check(w.ctx.Not(w.ctx.Eq(t, w.ctx.Const(t.W, v))), false); r == smt.Unsat {
			d.V, d.Taken = v, true
		}
	}
	w.trace = append(w.trace, d)
	if d.Taken {
		return w.ctx.Const(t.W, d.V)
	}
	return t
}

// concretize forks over the values of t.
func (w *W) concretize(t *smt.Term) uint64 {
	for n := 0; ; n++ {
		if t.Op == smt.OpConst {
			return t.C
		}
		if w.spec > 0 {
			panic(specAbort{})
		}
		if w.purel > 0 {
			panic(pureAbort{})
		}
		if n > 300 {
			w.inconclusive("more than 300 values of a concretised term")
			w.end("budget", "concretize")
		}
		var v uint64
		if w.replaying() {
			v = w.prefix[len(w.trace)].V
		} else {
			if w.model != nil && !t.HasF {
				v = smt.NewEvaluator(w.ctx, w.model).Eval(t)
			} else {
				r, m := w.slv.Check(w.pc, nil, w.e.Cfg.QueryMS, append(w.inputVars(), smt.Vars(t)...))
				if r == smt.Unsat {
					w.end("infeasible", "")
				}
				if r != smt.Sat {
					w.inconclusive("solver gave no value for a concretised term")
					w.end("budget", "concretize")
				}
				w.model = m
				v = smt.NewEvaluator(w.ctx, m).Eval(t)
				if t.HasF {
					panic(unsupported("concretising an abstract float result"))
				}
			}
		}
		c := w.ctx.Eq(t, w.ctx.Const(t.W, v))
		if w.replaying() {
			d := w.prefix[len(w.trace)]
			w.trace = append(w.trace, d)
			if d.Taken {
				if d.Forced {
					w.learn(c)
				} else {
					w.addPC(c)
				}
				w.fold(true, v)
				return v
			}
			w.addPC(w.ctx.Not(c))
			continue
		}
		cv, ok := w.known[c]
		if c.Op == smt.OpConst {
			cv, ok = c.C == 1, true
		}
		if ok {
			if cv {
				w.trace = append(w.trace, Dec{V: v, Taken: true, Forced: true})
				w.fold(true, v)
				return v
			}
			w.model = nil // stale
			continue
		}
		not := w.ctx.Not(c)
		r, _ := w.check(not, false)
		if r == smt.Unsat {
			w.trace = append(w.trace, Dec{V: v, Taken: true, Forced: true})
			w.learn(c)
			w.fold(true, v)
			return v
		}
		alt := make([]Dec, len(w.trace)+1)
		copy(alt, w.trace)
		alt[len(w.trace)] = Dec{V: v, Taken: false}
		w.e.push(w.h, alt)
		w.trace = append(w.trace, Dec{V: v, Taken: true})
		w.addPC(c)
		w.fold(true, v)
		return v
	}
}

func (w *W) concInt(t *smt.Term, signed bool) int64 {
	v := w.concretize(t)
	if signed {
		return w.ctx.Const(t.W, v).SVal()
	}
	return int64(v)
}

// assume restricts the path.
func (w *W) assume(c *smt.Term) {
	c = w.simp(c)
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		w.end("assume", "")
	}
	if v, ok := w.known[c]; ok {
		if v {
			return
		}
		w.end("assume", "")
	}
	if w.replaying() {
		// assumptions met before a recorded decision are known feasible
		w.addPC(c)
		return
	}
	if w.model != nil && !c.HasF && smt.NewEvaluator(w.ctx, w.model).Bool(c) {
		w.addPC(c)
		return
	}
	r, m := w.check(c, true)
	if r == smt.Unsat {
		w.end("assume", "")
	}
	w.model = m
	w.addPC(c)
}

// assert checks c on the current path.
func (w *W) assert(c *smt.Term, msg string) {
	w.e.mu.Lock()
	w.h.st.Asserts++
	w.e.mu.Unlock()
	c = w.simp(c)
	if c.IsTrue() {
		return
	}
	if v, ok := w.known[c]; ok && v {
		return
	}
	if w.replaying() {
		// already checked on the path that created this prefix
		w.addPC(c)
		return
	}
	if c.IsFalse() || w.known[c] == false && w.hasKnown(c) {
		w.candidate("assert", msg, nil, false)
		w.end("assertfail", msg)
	}
	not := w.ctx.Not(c)
	w.e.mu.Lock()
	w.h.st.AssertsSolver++
	w.e.mu.Unlock()
	r, _ := w.check(not, false)
	if r == smt.Unknown {
		r = w.oneShot(not)
	}
	if r == smt.Unsat {
		w.learn(c)
		return
	}
	if !w.candidate("assert", msg, not, false) && r == smt.Unknown {
		w.inconclusive("assertion not decided: " + msg)
	}
	// continue under the assertion
	r, m := w.check(c, true)
	if r == smt.Unsat {
		w.end("assertfail", msg)
	}
	w.model = m
	w.addPC(c)
}

// oneShot is the second attempt at an undecided goal.
func (w *W) oneShot(extra *smt.Term) smt.Result {
	left := time.Until(w.e.Cfg.Deadline)
	lim := time.Duration(w.e.Cfg.QueryMS) * 6 * time.Millisecond
	if left < lim {
		lim = left
	}
	if lim < time.Second {
		return smt.Unknown
	}
	goal := append(append([]*smt.Term{}, w.pc...), extra)
	if hasF(goal) && w.lemmas {
		goal = append(goal, w.lemmasFor(goal)...)
	}
	t0 := time.Now()
	r, _ := smt.OneShot(w.ctx, goal, lim, nil)
	e := w.e
	e.mu.Lock()
	e.Solver.Queries++
	switch r {
	case smt.Sat:
		e.Solver.Sat++
	case smt.Unsat:
		e.Solver.Unsat++
	default:
		e.Solver.Unknown++
	}
	e.Solver.Time += time.Since(t0)
	e.mu.Unlock()
	return r
}

func (w *W) hasKnown(c *smt.Term) bool { _, ok := w.known[c]; return ok }

func hasF(ts []*smt.Term) bool {
	for _, t := range ts {
		if t.HasF {
			return true
		}
	}
	return false
}

var niceFloats = []float64{1, 2, 3, 5, 0.5, -1, 7, 10, 1.25, -2.5, 0.1, 0.3, 100, -7, 1e-3, 13, 0.7, 1e6, -0.2, 3.75}

// candidate looks for inputs of the current path (with extra) and runs the
// real code on them; only a failing native run is a violation.
func (w *W) candidate(kind, msg string, extra *smt.Term, race bool) bool {
	e := w.e
	key := kind + ": " + msg
	e.mu.Lock()
	n := w.h.unc[key]
	w.h.unc[key]++
	e.mu.Unlock()
	limit := 12
	if kind == "unsupported" || kind == "hang" {
		limit = 60
	}
	if n >= limit || e.Cfg.Replay == nil || e.stopped() {
		w.unconfirmed(key)
		return false
	}
	goal := append([]*smt.Term{}, w.pc...)
	var ex []*smt.Term
	if extra != nil {
		ex = []*smt.Term{extra}
		goal = append(goal, extra)
	}
	if hasF(goal) && w.lemmas {
		ex = append(ex, w.lemmasFor(goal)...)
	}
	vars := w.inputVars()
	if vars == nil {
		vars = []*smt.Term{}
	}
	tried := map[string]bool{}
	try := func(m smt.Model, needEval bool) bool {
		if m == nil {
			return false
		}
		if needEval {
			ev := smt.NewEvaluator(w.ctx, m)
			for _, g := range goal {
				if !ev.Bool(g) {
					return false
				}
			}
		}
		vals, labels := w.inputValues(m)
		k := fmt.Sprint(vals)
		if tried[k] {
			return false
		}
		tried[k] = true
		o := e.Cfg.Replay.Run(w.h.st.Name, vals, race)
		if !race && !o.Failing() && len(w.gs) > 1 {
			o = e.Cfg.Replay.Run(w.h.st.Name, vals, true) // depends on the schedule: many runs
		}
		e.mu.Lock()
		w.h.st.NativeRuns++
		e.mu.Unlock()
		if o.Failing() {
			e.report(Violation{Harness: w.h.st.Name, Kind: kind, Msg: msg, Inputs: vals, Labels: labels, Native: o})
			return true
		}
		return false
	}
	r, m := w.slv.Check(w.pc, ex, e.Cfg.QueryMS*2, vars)
	if r == smt.Unsat {
		e.mu.Lock()
		w.h.unc[key]--
		e.mu.Unlock()
		return false
	}
	abstract := hasF(goal)
	if r == smt.Sat {
		if try(m, abstract) {
			return true
		}
		// other models: prefer ordinary float values
		for attempt := 0; attempt < 6; attempt++ {
			if m2 := w.hinted(ex, vars, attempt); m2 != nil {
				if try(m2, abstract && attempt < 4) {
					return true
				}
			}
			if e.stopped() {
				return true
			}
		}
	}
	if abstract {
		if w.fp == nil {
			w.fp = smt.NewSolver(w.ctx, true)
		}
		r, m = w.fp.Check(goal, nil, e.Cfg.PreciseMS, vars)
		if r == smt.Unsat {
			e.mu.Lock()
			w.h.unc[key]--
			e.mu.Unlock()
			return false
		}
		if r == smt.Sat && try(m, false) {
			return true
		}
	}
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "UNCONFIRMED", key, r)
		if m != nil {
			ev := smt.NewEvaluator(w.ctx, m)
			for i, g := range goal {
				fmt.Fprintln(os.Stderr, "  ", i, ev.Bool(g), g)
			}
			fmt.Fprintln(os.Stderr, m)
		}
	}
	w.unconfirmed(key)
	return false
}

func (w *W) unconfirmed(key string) {
	w.e.mu.Lock()
	w.h.st.Unconfirmed[key]++
	w.e.mu.Unlock()
}

// hinted finds a model in which float inputs take ordinary values where possible.
func (w *W) hinted(ex []*smt.Term, vars []*smt.Term, attempt int) smt.Model {
	goal := append(append([]*smt.Term{}, w.pc...), ex...)
	var fixed []*smt.Term
	fixed = append(fixed, ex...)
	var fl []input
	for _, in := range w.inputs {
		if in.hint != 0 && in.t.Op == smt.OpVar {
			fl = append(fl, in)
		}
	}
	if len(fl) == 0 {
		if attempt > 0 {
			return nil
		}
	}
	w.rng.Shuffle(len(fl), func(i, j int) { fl[i], fl[j] = fl[j], fl[i] })
	// fast path: all hints at once
	mk := func(in input, k int) *smt.Term {
		f := niceFloats[k%len(niceFloats)]
		if k >= len(niceFloats) {
			f += float64(k / len(niceFloats))
		}
		var c *smt.Term
		if in.hint == 2 {
			c = w.ctx.Const(32, f32bits(f))
		} else {
			c = w.ctx.F64(f)
		}
		return w.ctx.Eq(in.t, c)
	}
	if len(fl) > 40 {
		fl = fl[:40]
	}
	var rec func(l []input, k int)
	rec = func(l []input, k int) {
		if len(l) == 0 || w.e.stopped() {
			return
		}
		var hs []*smt.Term
		for i, in := range l {
			hs = append(hs, mk(in, k+i+attempt*3))
		}
		r, _ := w.slv.Check(w.pc, append(append([]*smt.Term{}, fixed...), hs...), 2000, nil)
		if r == smt.Sat {
			fixed = append(fixed, hs...)
			return
		}
		if len(l) == 1 {
			return
		}
		rec(l[:len(l)/2], k)
		rec(l[len(l)/2:], k+len(l)/2)
	}
	rec(fl, w.rng.Intn(7))
	_ = goal
	r, m := w.slv.Check(w.pc, fixed, w.e.Cfg.QueryMS, vars)
	if r != smt.Sat {
		return nil
	}
	return m
}

// sample keeps a solved path for native comparison.
func (w *W) sample(kind string) {
	e := w.e
	e.mu.Lock()
	n := len(w.h.samp)
	take := n < e.Cfg.SamplePaths && (w.h.paths < e.Cfg.SamplePaths/2 || w.rng.Intn(1+w.h.paths/8) == 0)
	stop := e.stop
	e.mu.Unlock()
	if !take || stop || len(w.gs) > 1 {
		return
	}
	vars := w.inputVars()
	if vars == nil {
		vars = []*smt.Term{}
	}
	var m smt.Model
	if hasF(w.pc) {
		return
	}
	// vary the model: ordinary floats half of the time
	if w.rng.Intn(2) == 0 {
		m = w.hinted(nil, vars, w.rng.Intn(3))
	}
	if m == nil {
		var r smt.Result
		r, m = w.slv.Check(w.pc, nil, e.Cfg.QueryMS, vars)
		if r != smt.Sat {
			return
		}
	}
	ev := smt.NewEvaluator(w.ctx, m)
	obs := make([]uint64, len(w.obs))
	for i, o := range w.obs {
		obs[i] = ev.Eval(o)
	}
	if ev.Bad {
		return
	}
	vals, labels := w.inputValues(m)
	s := Sample{Inputs: vals, Labels: labels, End: kind, obs: obs}
	e.mu.Lock()
	if len(w.h.samp) < e.Cfg.SamplePaths {
		w.h.samp = append(w.h.samp, s)
		if len(w.h.st.Samples) < 3 {
			w.h.st.Samples = append(w.h.st.Samples, s)
		}
	}
	e.mu.Unlock()
}

// FuncList returns the executed functions.
func (e *Engine) FuncList() []string {
	var l []string
	for f := range e.Funcs {
		l = append(l, f)
	}
	sort.Strings(l)
	return l
}

// coversOf lists the reachability marks in a harness and the harness functions it calls.
func coversOf(f *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	var out []string
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] || f.Pkg == nil || !strings.Contains(f.Pkg.Pkg.Path(), "/zzverif/") {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g.Name() == "Cover" && strings.HasSuffix(g.Pkg.Pkg.Path(), "/vf") {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						s := k.Value.ExactString()
						if u, err := strconv.Unquote(s); err == nil {
							out = append(out, u)
						}
					}
					continue
				}
				rec(g)
			}
		}
	}
	rec(f)
	return out
}
