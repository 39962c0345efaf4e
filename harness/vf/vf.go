// Package vf is the harness library. The symbolic engine intercepts every
// exported function; the bodies below are their meaning in a native run, where
// the inputs come from a vector found by the solver.
package vf

import (
	"bufio"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type stop struct{ kind, msg string }

var (
	in   []uint64
	pos  int
	obs  []uint64
	dir  string
	tier int
	// started is the number of goroutines before the run.
	started int
)

func next(label string) uint64 {
	if pos >= len(in) {
		panic(stop{"error", "input vector exhausted at " + label})
	}
	v := in[pos]
	pos++
	return v
}

// Byte is an arbitrary byte.
func Byte(label string) byte { return byte(next(label)) }

// U16 is an arbitrary uint16.
func U16(label string) uint16 { return uint16(next(label)) }

// U32 is an arbitrary uint32.
func U32(label string) uint32 { return uint32(next(label)) }

// U64 is an arbitrary uint64.
func U64(label string) uint64 { return next(label) }

// I32 is an arbitrary int32.
func I32(label string) int32 { return int32(next(label)) }

// I64 is an arbitrary int64.
func I64(label string) int64 { return int64(next(label)) }

// F64 is an arbitrary float64, NaN and infinities included.
func F64(label string) float64 { return math.Float64frombits(next(label)) }

// F32 is an arbitrary float32.
func F32(label string) float32 { return math.Float32frombits(uint32(next(label))) }

// Bool is an arbitrary bool.
func Bool(label string) bool { return next(label) == 1 }

// Int is an arbitrary int within [lo, hi].
func Int(label string, lo, hi int) int {
	v := int(int64(next(label)))
	if v < lo || v > hi {
		panic(stop{"assume", label})
	}
	return v
}

// Choose is an arbitrary int within [0, n), one path each.
func Choose(label string, n int) int {
	if n <= 0 {
		panic(stop{"assume", label})
	}
	v := next(label)
	if v >= uint64(n) {
		panic(stop{"assume", label})
	}
	return int(v)
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(stop{"assume", ""})
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		panic(stop{"assert", msg})
	}
}

// Cover marks a point that the exploration has to reach.
func Cover(msg string) {}

// FloatTok is a decimal literal that reads back as f (finite f).
func FloatTok(f float64) string { return strconv.FormatFloat(f, 'g', 17, 64) }

// IntTok is a decimal literal that reads back as v.
func IntTok(v int64) string { return strconv.FormatInt(v, 10) }

// SameBits is bit equality; all NaNs are the same.
func SameBits(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}

// Same is equality of numbers; NaN is the same as NaN.
func Same(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a == b || a != a && b != b
}

// Close is equality up to the accumulated rounding of sums whose terms are bounded by scale.
func Close(a, b, scale float64) bool {
	if a == b || a != a && b != b {
		return true
	}
	return math.Abs(a-b) <= 1e-9*math.Abs(scale)
}

// Concrete splits the paths on the value of v.
func Concrete(v int) int { return v }

// Observe records a value for the comparison of the symbolic with the native run.
func Observe(f float64) {
	if f != f {
		f = math.NaN()
	}
	obs = append(obs, math.Float64bits(f))
}

// ObserveInt is Observe for integers.
func ObserveInt(v int) { obs = append(obs, uint64(v)) }

// Tier is 0 for quick and 1 for thorough runs.
func Tier() int { return tier }

// SetProcs sets the number of processors that the code under test sees.
func SetProcs(n int) { runtime.GOMAXPROCS(n) }

// Preempt bounds the preemptive context switches explored; -1 explores one schedule only.
func Preempt(n int) {}

// Lemmas allows the real-analysis facts about exp and rounding.
func Lemmas() {}

// Steps bounds the instructions that the rest of the run may take.
func Steps(n int) {}

// TempFile makes a file with the given contents.
func TempFile(name string, data []byte) string {
	p := TempName(name)
	if err := ioutil.WriteFile(p, data, 0600); err != nil {
		panic(stop{"error", err.Error()})
	}
	return p
}

// TempName is a path at which a file may be created.
func TempName(name string) string {
	if dir == "" {
		d, err := ioutil.TempDir("", "vf")
		if err != nil {
			panic(stop{"error", err.Error()})
		}
		dir = d
	}
	return filepath.Join(dir, name)
}

// ReadBack is the contents of a file.
func ReadBack(name string) []byte {
	b, err := ioutil.ReadFile(name)
	if err != nil {
		return nil
	}
	return b
}

// Goroutines is the number of goroutines started since the run began that do not end, given the time.
func Goroutines() int {
	n := 0
	for i := 0; i < 200; i++ {
		n = runtime.NumGoroutine() - started
		if n <= 0 {
			return 0
		}
		time.Sleep(10 * time.Millisecond)
	}
	return n
}

// OpenFiles is the number of files that the run opened and did not close.
func OpenFiles() int {
	fs, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		panic(stop{"error", err.Error()})
	}
	n := 0
	for _, f := range fs {
		t, err := os.Readlink("/proc/self/fd/" + f.Name())
		if err == nil && (dir != "" && strings.HasPrefix(t, dir+"/") || t == "/dev/full") {
			n++
		}
	}
	return n
}

func runOne(f func(), vec []uint64) (kind, msg string) {
	in, pos, obs = vec, 0, nil
	started = runtime.NumGoroutine()
	procs := runtime.GOMAXPROCS(0)
	kind = "ok"
	defer func() {
		runtime.GOMAXPROCS(procs)
		if dir != "" {
			if e := os.RemoveAll(dir); e != nil {
				fmt.Fprintln(os.Stderr, e)
			}
			dir = ""
		}
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				kind, msg = s.kind, s.msg
				return
			}
			kind, msg = "panic", fmt.Sprint(r)
			if e, ok := r.(error); ok {
				msg = e.Error()
			}
			for _, l := range strings.Split(string(debug.Stack()), "\n") {
				if i := strings.Index(l, "/repo/"); i >= 0 && !strings.Contains(l, "/zzverif/") {
					msg += " @ " + strings.Fields(l[i:])[0]
					break
				}
			}
		}
	}()
	f()
	return
}

// Main runs the vectors read from stdin: one line "harness hex hex ..." each.
func Main(hs map[string]func()) {
	if t := os.Getenv("VF_TIER"); t == "thorough" {
		tier = 1
	}
	if os.Getenv("VF_AS") != "" {
		n, _ := strconv.ParseUint(os.Getenv("VF_AS"), 10, 64)
		lim := syscall.Rlimit{Cur: n, Max: n}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	rep := 1
	if r := os.Getenv("VF_REPEAT"); r != "" {
		rep, _ = strconv.Atoi(r)
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	out := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		fs := strings.Fields(sc.Text())
		if len(fs) == 0 {
			continue
		}
		h := hs[fs[0]]
		if h == nil {
			fmt.Println("RESULT error \"no harness\"")
			continue
		}
		var vec []uint64
		for _, x := range fs[1:] {
			v, err := strconv.ParseUint(x, 16, 64)
			if err != nil {
				panic(err)
			}
			vec = append(vec, v)
		}
		kind, msg := "", ""
		for i := 0; i < rep; i++ {
			kind, msg = runOne(h, vec)
			if kind != "ok" {
				break
			}
		}
		fmt.Fprintf(out, "RESULT %s %q", kind, msg)
		for _, o := range obs {
			fmt.Fprintf(out, " %x", o)
		}
		fmt.Fprintln(out)
		out.Flush()
	}
}
