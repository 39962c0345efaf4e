package smt

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Stats of solver use.
type Stats struct {
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
}

func (s *Stats) Add(o Stats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Time += o.Time
}

// Solver is a pipe to an SMT-LIB2 solver.
type Solver struct {
	C       *Ctx
	Precise bool // float arithmetic defined by the FP theory
	Stats   Stats
	Log     io.Writer

	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	defined map[uint32]bool
	funs    map[string]bool
	stack   []*Term // asserted frames
	timeout int
	path    string
	dead    bool
}

// SolverPath is the solver binary.
var SolverPath = "z3-new"

func NewSolver(c *Ctx, precise bool) *Solver {
	s := &Solver{C: c, Precise: precise, path: SolverPath}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.path, "-in", "-smt2", "-memory:4000")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		return
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[uint32]bool{}
	s.funs = map[string]bool{}
	s.stack = nil
	s.timeout = 0
	s.dead = false
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	s.send(prelude)
	if s.Precise {
		s.send(preludePrecise)
	} else {
		s.send(preludeUF)
	}
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.dead = true
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(str string) {
	s.in.WriteString(str)
	s.in.WriteByte('\n')
	if s.Log != nil {
		fmt.Fprintln(s.Log, str)
	}
}

const prelude = `
(define-fun nan64 ((x (_ BitVec 64))) Bool (bvugt (bvand x #x7fffffffffffffff) #x7ff0000000000000))
(define-fun nan32 ((x (_ BitVec 32))) Bool (bvugt (bvand x #x7fffffff) #x7f800000))
(define-fun key64 ((x (_ BitVec 64))) (_ BitVec 64) (ite (= ((_ extract 63 63) x) #b1) (bvneg (bvand x #x7fffffffffffffff)) x))
(define-fun key32 ((x (_ BitVec 32))) (_ BitVec 32) (ite (= ((_ extract 31 31) x) #b1) (bvneg (bvand x #x7fffffff)) x))
(define-fun flt64 ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (nan64 a)) (not (nan64 b)) (bvslt (key64 a) (key64 b))))
(define-fun fle64 ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (nan64 a)) (not (nan64 b)) (bvsle (key64 a) (key64 b))))
(define-fun feq64 ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (nan64 a)) (not (nan64 b)) (or (= a b) (= (bvand (bvor a b) #x7fffffffffffffff) #x0000000000000000))))
(define-fun flt32 ((a (_ BitVec 32)) (b (_ BitVec 32))) Bool (and (not (nan32 a)) (not (nan32 b)) (bvslt (key32 a) (key32 b))))
(define-fun fle32 ((a (_ BitVec 32)) (b (_ BitVec 32))) Bool (and (not (nan32 a)) (not (nan32 b)) (bvsle (key32 a) (key32 b))))
(define-fun feq32 ((a (_ BitVec 32)) (b (_ BitVec 32))) Bool (and (not (nan32 a)) (not (nan32 b)) (or (= a b) (= (bvand (bvor a b) #x7fffffff) #x00000000))))
`

const preludeUF = `
(declare-fun fadd64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun fmul64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun fdiv64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun fsqrt64 ((_ BitVec 64)) (_ BitVec 64))
(declare-fun fadd32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun fmul32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun fdiv32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun fsqrt32 ((_ BitVec 32)) (_ BitVec 32))
`

const preludePrecise = `
(define-fun fadd64 ((a (_ BitVec 64)) (b (_ BitVec 64))) (_ BitVec 64) (fp.to_ieee_bv (fp.add RNE ((_ to_fp 11 53) a) ((_ to_fp 11 53) b))))
(define-fun fmul64 ((a (_ BitVec 64)) (b (_ BitVec 64))) (_ BitVec 64) (fp.to_ieee_bv (fp.mul RNE ((_ to_fp 11 53) a) ((_ to_fp 11 53) b))))
(define-fun fdiv64 ((a (_ BitVec 64)) (b (_ BitVec 64))) (_ BitVec 64) (fp.to_ieee_bv (fp.div RNE ((_ to_fp 11 53) a) ((_ to_fp 11 53) b))))
(define-fun fsqrt64 ((a (_ BitVec 64))) (_ BitVec 64) (fp.to_ieee_bv (fp.sqrt RNE ((_ to_fp 11 53) a))))
(define-fun fadd32 ((a (_ BitVec 32)) (b (_ BitVec 32))) (_ BitVec 32) (fp.to_ieee_bv (fp.add RNE ((_ to_fp 8 24) a) ((_ to_fp 8 24) b))))
(define-fun fmul32 ((a (_ BitVec 32)) (b (_ BitVec 32))) (_ BitVec 32) (fp.to_ieee_bv (fp.mul RNE ((_ to_fp 8 24) a) ((_ to_fp 8 24) b))))
(define-fun fdiv32 ((a (_ BitVec 32)) (b (_ BitVec 32))) (_ BitVec 32) (fp.to_ieee_bv (fp.div RNE ((_ to_fp 8 24) a) ((_ to_fp 8 24) b))))
(define-fun fsqrt32 ((a (_ BitVec 32))) (_ BitVec 32) (fp.to_ieee_bv (fp.sqrt RNE ((_ to_fp 8 24) a))))
`

// macros emitted on first use (conversions are exact in both modes)
var lazyMacros = map[string]string{}

func init() {
	// f32 -> f64, exact. NaNs are quieted with payload kept, as CVTSS2SD does.
	sub := "#x0000000000000000"
	for k := 0; k < 23; k++ {
		// highest set bit of the 23-bit mantissa is k: value = m * 2^-149, exponent k-149
		exp := k - 149 + 1023
		frac := fmt.Sprintf("(concat ((_ extract %d 0) x) (_ bv0 %d))", k-1, 52-k)
		if k == 0 {
			frac = "(_ bv0 52)"
		}
		sub = fmt.Sprintf("(ite (= ((_ extract %d %d) x) #b1) (concat ((_ extract 31 31) x) (_ bv%d 11) %s) %s)", k, k, exp, frac, sub)
	}
	// zero keeps its sign; base of the chain above yields +0, fix for -0
	lazyMacros["f32to64"] = "(define-fun f32to64 ((x (_ BitVec 32))) (_ BitVec 64) " +
		"(ite (= ((_ extract 30 0) x) (_ bv0 31)) (concat ((_ extract 31 31) x) (_ bv0 63)) " +
		"(ite (= ((_ extract 30 23) x) #x00) " + sub +
		" (ite (= ((_ extract 30 23) x) #xff) " +
		"(concat ((_ extract 31 31) x) (_ bv2047 11) (ite (= ((_ extract 22 0) x) (_ bv0 23)) (_ bv0 52) (concat #b1 ((_ extract 21 0) x) (_ bv0 29)))) " +
		"(concat ((_ extract 31 31) x) (bvadd ((_ zero_extend 3) ((_ extract 30 23) x)) (_ bv896 11)) ((_ extract 22 0) x) (_ bv0 29))))))"
	lazyMacros["f64to32"] = "(define-fun f64to32 ((x (_ BitVec 64))) (_ BitVec 32) " +
		"(ite (nan64 x) (concat ((_ extract 63 63) x) #xff #b1 ((_ extract 50 29) x)) " +
		"(fp.to_ieee_bv ((_ to_fp 8 24) RNE ((_ to_fp 11 53) x)))))"
	lazyMacros["s64tof64"] = "(define-fun s64tof64 ((x (_ BitVec 64))) (_ BitVec 64) (fp.to_ieee_bv ((_ to_fp 11 53) RNE x)))"
	lazyMacros["u64tof64"] = "(define-fun u64tof64 ((x (_ BitVec 64))) (_ BitVec 64) (fp.to_ieee_bv ((_ to_fp_unsigned 11 53) RNE x)))"
	// f64 -> s64 truncation; out of range and NaN give 1<<63
	lazyMacros["f64tos64"] = "(define-fun f64tos64 ((x (_ BitVec 64))) (_ BitVec 64) " +
		"(let ((e ((_ extract 62 52) x)) (m (concat #b000000000001 ((_ extract 51 0) x)))) " +
		"(let ((e64 ((_ zero_extend 53) e))) " +
		"(ite (bvult e (_ bv1023 11)) #x0000000000000000 " +
		"(ite (bvuge e (_ bv1086 11)) #x8000000000000000 " +
		"(let ((mag (ite (bvuge e (_ bv1075 11)) (bvshl m (bvsub e64 (_ bv1075 64))) (bvlshr m (bvsub (_ bv1075 64) e64))))) " +
		"(ite (= ((_ extract 63 63) x) #b1) (bvneg mag) mag)))))))"
	lazyMacros["f64tos32"] = "(define-fun f64tos32 ((x (_ BitVec 64))) (_ BitVec 32) " +
		"(let ((e ((_ extract 62 52) x)) (m (concat #b000000000001 ((_ extract 51 0) x)))) " +
		"(let ((e64 ((_ zero_extend 53) e))) " +
		"(ite (bvult e (_ bv1023 11)) #x00000000 " +
		"(ite (bvuge e (_ bv1054 11)) #x80000000 " +
		"(let ((mag ((_ extract 31 0) (bvlshr m (bvsub (_ bv1075 64) e64))))) " +
		"(ite (= ((_ extract 63 63) x) #b1) (bvneg mag) mag)))))))"
	for i, m := range []string{"RTP", "RTN", "RTZ", "RNE"} {
		n := fmt.Sprintf("fround%d", i)
		lazyMacros[n] = fmt.Sprintf("(define-fun %s ((x (_ BitVec 64))) (_ BitVec 64) (ite (nan64 x) x (fp.to_ieee_bv (fp.roundToIntegral %s ((_ to_fp 11 53) x)))))", n, m)
	}
}

func (s *Solver) macro(name string) string {
	if !s.funs[name] {
		s.funs[name] = true
		s.send(lazyMacros[name])
	}
	return name
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *Solver) ref(t *Term) string {
	switch t.Op {
	case OpConst:
		if t.W == 0 {
			if t.C == 1 {
				return "true"
			}
			return "false"
		}
		if t.W%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.W/4), t.C)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.C, t.W)
	case OpVar:
		return t.Name
	}
	return "t" + strconv.Itoa(int(t.ID))
}

func (s *Solver) define(t *Term) {
	if t.Op == OpConst || s.defined[t.ID] {
		return
	}
	// iterative for deep terms
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.A) {
			a := f.t.A[f.i]
			f.i++
			if a.Op != OpConst && !s.defined[a.ID] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		if !s.defined[f.t.ID] {
			s.defined[f.t.ID] = true
			s.define1(f.t)
		}
		st = st[:len(st)-1]
	}
}

func (s *Solver) define1(t *Term) {
	if t.Op == OpVar {
		s.send("(declare-const " + t.Name + " " + sortOf(t.W) + ")")
		return
	}
	var h string
	switch t.Op {
	case OpExtract:
		h = fmt.Sprintf("(_ extract %d %d)", ehi(t), elo(t))
	case OpZExt:
		h = fmt.Sprintf("(_ zero_extend %d)", t.W-t.A[0].W)
	case OpSExt:
		h = fmt.Sprintf("(_ sign_extend %d)", t.W-t.A[0].W)
	case OpFLt, OpFLe, OpFEq:
		h = fmt.Sprintf("%s%d", opNames[t.Op], t.A[0].W)
	case OpFAdd, OpFMul, OpFDiv, OpFSqrt:
		h = fmt.Sprintf("%s%d", opNames[t.Op], t.W)
	case OpF32to64, OpF64to32, OpF64toS64, OpF64toS32, OpS64toF64, OpU64toF64:
		h = s.macro(opNames[t.Op])
	case OpFRound:
		h = s.macro(fmt.Sprintf("fround%d", t.C))
	case OpFun:
		h = "u_" + t.Name
		if !s.funs[h] {
			s.funs[h] = true
			var sb strings.Builder
			for _, a := range t.A {
				sb.WriteString(sortOf(a.W) + " ")
			}
			s.send("(declare-fun " + h + " (" + sb.String() + ") " + sortOf(t.W) + ")")
		}
	default:
		h = opNames[t.Op]
	}
	var sb strings.Builder
	sb.WriteString("(define-fun t")
	sb.WriteString(strconv.Itoa(int(t.ID)))
	sb.WriteString(" () ")
	sb.WriteString(sortOf(t.W))
	sb.WriteString(" (")
	sb.WriteString(h)
	for _, a := range t.A {
		sb.WriteByte(' ')
		sb.WriteString(s.ref(a))
	}
	sb.WriteString("))")
	s.send(sb.String())
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		s.send(fmt.Sprintf("(pop %d)", k))
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.define(pc[n])
		s.send("(push 1)")
		s.send("(assert " + s.ref(pc[n]) + ")")
		s.stack = append(s.stack, pc[n])
	}
}

// Check decides pc and extra. If vars is non-nil and the result is Sat, a model is returned.
func (s *Solver) Check(pc []*Term, extra []*Term, timeoutMS int, vars []*Term) (Result, Model) {
	if s.dead {
		s.start()
		if s.dead {
			return Unknown, nil
		}
	}
	t0 := time.Now()
	if len(s.defined) > 400000 {
		s.restart()
	}
	s.sync(pc)
	for _, e := range extra {
		s.define(e)
	}
	for _, v := range vars {
		s.define(v)
	}
	if timeoutMS != s.timeout {
		s.send(fmt.Sprintf("(set-option :timeout %d)", timeoutMS))
		s.timeout = timeoutMS
	}
	if len(extra) > 0 {
		s.send("(push 1)")
		for _, e := range extra {
			s.send("(assert " + s.ref(e) + ")")
		}
	}
	s.send("(check-sat)")
	s.in.Flush()
	res := Unknown
	// hard watchdog: the solver's own timeout is soft
	timer := time.AfterFunc(time.Duration(timeoutMS)*time.Millisecond*2+3*time.Second, func() { s.cmd.Process.Kill() })
	line := s.readLine()
	timer.Stop()
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
	default:
		// an error or a dead process: inconclusive
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver:", line)
		}
		s.Stats.Queries++
		s.Stats.Unknown++
		s.Stats.Time += time.Since(t0)
		s.restart()
		return Unknown, nil
	}
	var m Model
	if res == Sat && vars != nil {
		m = s.getModel(vars)
	}
	if !s.dead && len(extra) > 0 {
		s.send("(pop 1)")
	}
	s.Stats.Queries++
	switch res {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	s.Stats.Time += time.Since(t0)
	return res, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return "dead"
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		return l
	}
}

func (s *Solver) getModel(vars []*Term) Model {
	m := Model{}
	if len(vars) == 0 {
		return m
	}
	const chunk = 200
	for i := 0; i < len(vars); i += chunk {
		j := i + chunk
		if j > len(vars) {
			j = len(vars)
		}
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vars[i:j] {
			sb.WriteString(v.Name + " ")
		}
		sb.WriteString("))")
		s.send(sb.String())
		s.in.Flush()
		// read a balanced s-expression
		depth := 0
		var txt strings.Builder
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				s.dead = true
				return nil
			}
			depth += strings.Count(l, "(") - strings.Count(l, ")")
			txt.WriteString(l)
			if depth <= 0 && strings.TrimSpace(txt.String()) != "" {
				break
			}
		}
		parseValues(txt.String(), m)
	}
	return m
}

func parseValues(s string, m Model) {
	toks := strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(toks); i += 2 {
		v := toks[i+1]
		var x uint64
		switch {
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case strings.HasPrefix(v, "#x"):
			x, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, _ = strconv.ParseUint(v[2:], 2, 64)
		}
		m[toks[i]] = x
	}
}
