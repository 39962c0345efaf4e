// Package run loads /repo with the harness overlay and replays inputs natively.
package run

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	ex "gosym/exec"
)

const mod = "github.com/dmitryikh/leaves"

// Program is the loaded code.
type Program struct {
	Prog    *ssa.Program
	Dropped []string
	Doc     map[string]string
	repo    string
	home    string
	prop    string
	pkgs    []*ssa.Package
	names   []string // harness package names
	scratch string
	overlay string
}

func goEnv(scratch string) []string {
	e := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "CGO_ENABLED=1")
	return e
}

// Load loads the repository and the harness packages of one property.
func Load(repo, home, prop string) (*Program, error) {
	p := &Program{repo: repo, home: home, prop: prop, Doc: map[string]string{}}
	s, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	p.scratch = s
	ents, err := os.ReadDir(filepath.Join(home, "harness"))
	if err != nil {
		return nil, err
	}
	low := strings.ToLower(prop)
	var hp []string
	ov := map[string][]byte{}
	rep := map[string]string{}
	for _, d := range ents {
		n := d.Name()
		isH := strings.HasPrefix(n, low)
		if !d.IsDir() || !isH && len(n) == 3 && n[0] == 'p' || !isH && len(n) == 4 && n[0] == 'p' && n[1] >= '0' && n[1] <= '9' {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(home, "harness", n, "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			v := filepath.Join(repo, "zzverif", n, filepath.Base(f))
			ov[v] = b
			rep[v] = f
		}
		if isH {
			hp = append(hp, n)
		}
	}
	sort.Strings(hp)
	pats := []string{"./..."}
	for _, n := range hp {
		pats = append(pats, mod+"/zzverif/"+n)
	}
	var good []*packages.Package
	var errs []string
	for try := 0; ; try++ {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: goEnv(s)}
		ps, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		good, errs = nil, nil
		again := false
		var dropped []string
		for _, q := range ps {
			bad := ""
			var all []packages.Error
			packages.Visit([]*packages.Package{q}, nil, func(x *packages.Package) {
				if len(x.Errors) > 0 && bad == "" {
					bad = x.Errors[0].Error()
				}
				all = append(all, x.Errors...)
			})
			if bad != "" {
				if strings.Contains(q.PkgPath, "/zzverif/") {
					names, cut := blank(ov, all)
					for _, n := range names {
						p.Dropped = append(p.Dropped, n+": "+bad)
					}
					again = again || cut
					dropped = append(dropped, q.PkgPath+": "+bad)
				} else {
					errs = append(errs, q.PkgPath+": "+bad)
				}
				continue
			}
			good = append(good, q)
		}
		if again && try < 30 {
			continue
		}
		p.Dropped = append(p.Dropped, dropped...)
		break
	}
	if len(p.Dropped) > 0 {
		// the native twin is compiled from what is left of the files
		for v := range rep {
			f := filepath.Join(s, "h"+strconv.Itoa(len(rep))+strings.Replace(strings.TrimPrefix(v, repo), "/", "_", -1))
			if err := os.WriteFile(f, ov[v], 0644); err != nil {
				return nil, err
			}
			rep[v] = f
		}
	}
	prog, _ := ssautil.AllPackages(good, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	for _, q := range good {
		if !strings.Contains(q.PkgPath, "/zzverif/p") {
			continue
		}
		sp := prog.Package(q.Types)
		p.pkgs = append(p.pkgs, sp)
		p.names = append(p.names, q.PkgPath[strings.LastIndex(q.PkgPath, "/")+1:])
		for _, f := range q.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
					p.Doc[fd.Name.Name] = strings.TrimSpace(fd.Doc.Text())
				}
			}
		}
	}
	if len(p.pkgs) == 0 {
		return p, fmt.Errorf("no harness package loads: %v %v", p.Dropped, errs)
	}
	// native side
	var buf bytes.Buffer
	fmt.Fprintf(&buf, "package main\n\nimport (\n\t%q\n", mod+"/zzverif/vf")
	for _, n := range p.names {
		fmt.Fprintf(&buf, "\t%q\n", mod+"/zzverif/"+n)
	}
	fmt.Fprintf(&buf, ")\n\nfunc main() {\n\tvf.Main(map[string]func(){\n")
	for i, sp := range p.pkgs {
		for _, f := range harnessFns(sp) {
			fmt.Fprintf(&buf, "\t\t%q: %s.%s,\n", f.Name(), p.names[i], f.Name())
		}
	}
	fmt.Fprintf(&buf, "\t})\n}\n")
	mf := filepath.Join(s, "main.go")
	if err := os.WriteFile(mf, buf.Bytes(), 0644); err != nil {
		return nil, err
	}
	rep[filepath.Join(repo, "zzverif", "replay", "main.go")] = mf
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	p.overlay = filepath.Join(s, "overlay.json")
	return p, os.WriteFile(p.overlay, b, 0644)
}

// blank overwrites the declarations and imports of harness files in which there are errors; it returns the names of the
// harnesses among them and whether anything was overwritten.
func blank(ov map[string][]byte, errs []packages.Error) (names []string, cut bool) {
	for file, src := range ov {
		lines := map[int]bool{}
		for _, e := range errs {
			i := strings.LastIndex(e.Pos, ".go:")
			if i < 0 || e.Pos[:i+3] != file {
				continue
			}
			if n, err := strconv.Atoi(strings.Split(e.Pos[i+4:], ":")[0]); err == nil {
				lines[n] = true
			}
		}
		if len(lines) == 0 {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			continue
		}
		out := append([]byte{}, src...)
		wipe := func(n ast.Node) bool {
			from, to := fset.Position(n.Pos()), fset.Position(n.End())
			hit := false
			for l := from.Line; l <= to.Line; l++ {
				hit = hit || lines[l]
			}
			if hit {
				for i := from.Offset; i < to.Offset; i++ {
					if out[i] != '\n' {
						out[i] = ' '
					}
				}
				cut = true
			}
			return hit
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT && g.Lparen.IsValid() {
				for _, sp := range g.Specs {
					wipe(sp)
				}
				continue
			}
			if wipe(d) {
				if fd, ok := d.(*ast.FuncDecl); ok && strings.HasPrefix(fd.Name.Name, "H") {
					names = append(names, fd.Name.Name)
				}
			}
		}
		ov[file] = out
	}
	return
}

func harnessFns(sp *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for n, m := range sp.Members {
		f, ok := m.(*ssa.Function)
		if ok && strings.HasPrefix(n, "H") && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// Harnesses are the entry points.
func (p *Program) Harnesses(only string) []*ssa.Function {
	var out []*ssa.Function
	for _, sp := range p.pkgs {
		for _, f := range harnessFns(sp) {
			if only == "" || strings.Contains(f.Name(), only) {
				out = append(out, f)
			}
		}
	}
	return out
}

// Close removes the scratch files.
func (p *Program) Close() {
	if strings.Contains(p.scratch, "gosym") {
		os.RemoveAll(p.scratch)
	}
}

// Replayer builds and runs the native twin.
type Replayer struct {
	p    *Program
	tier string
	mu   sync.Mutex
	bin  [2]string
	err  [2]error
	done [2]bool
	sem  chan struct{}
}

func (p *Program) Replayer(tier string) *Replayer {
	return &Replayer{p: p, tier: tier, sem: make(chan struct{}, 8)}
}

// Build makes the native binary.
func (r *Replayer) Build(race bool) error {
	k := 0
	if race {
		k = 1
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.done[k] {
		return r.err[k]
	}
	r.done[k] = true
	out := filepath.Join(r.p.scratch, "replay"+strconv.Itoa(k))
	args := []string{"build", "-overlay", r.p.overlay, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, mod+"/zzverif/replay")
	c := exec.Command("go", args...)
	c.Dir = r.p.repo
	c.Env = goEnv(r.p.scratch)
	if b, err := c.CombinedOutput(); err != nil {
		r.err[k] = fmt.Errorf("%v: %s", err, b)
		return r.err[k]
	}
	r.bin[k] = out
	return nil
}

// Run executes one vector.
func (r *Replayer) Run(h string, in []uint64, race bool) ex.Outcome {
	rep := 1
	if race {
		rep = 60
	}
	os1 := r.exec(h, [][]uint64{in}, race, rep, 20*time.Second)
	return os1[0]
}

// Batch executes many vectors.
func (r *Replayer) Batch(h string, vecs [][]uint64) []ex.Outcome {
	out := r.exec(h, vecs, false, 1, 30*time.Second)
	if len(out) == len(vecs) {
		return out
	}
	out = nil
	for _, v := range vecs {
		out = append(out, r.Run(h, v, false))
	}
	return out
}

func (r *Replayer) exec(h string, vecs [][]uint64, race bool, rep int, limit time.Duration) []ex.Outcome {
	fail := func(kind, msg string) []ex.Outcome { return []ex.Outcome{{Kind: kind, Msg: msg}} }
	if err := r.Build(race); err != nil {
		return fail("error", err.Error())
	}
	r.sem <- struct{}{}
	defer func() { <-r.sem }()
	k := 0
	if race {
		k = 1
	}
	tmp, err := os.MkdirTemp(r.p.scratch, "run")
	if err != nil {
		return fail("error", err.Error())
	}
	defer os.RemoveAll(tmp)
	var buf bytes.Buffer
	for _, v := range vecs {
		buf.WriteString(h)
		for _, x := range v {
			fmt.Fprintf(&buf, " %x", x)
		}
		buf.WriteByte('\n')
	}
	c := exec.Command(r.bin[k])
	c.Dir = tmp
	c.Stdin = &buf
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &limited{b: &se}
	c.Env = append(os.Environ(), "TMPDIR="+tmp, "VF_TIER="+r.tier, "GORACE=exitcode=66 halt_on_error=1", "GOTRACEBACK=single", "VF_REPEAT="+strconv.Itoa(rep))
	if !race {
		c.Env = append(c.Env, "VF_AS=8000000000")
	}
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := c.Start(); err != nil {
		return fail("error", err.Error())
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	hung := false
	select {
	case err = <-done:
	case <-time.After(limit):
		hung = true
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		<-done
	}
	var out []ex.Outcome
	for _, l := range strings.Split(so.String(), "\n") {
		if !strings.HasPrefix(l, "RESULT ") {
			continue
		}
		o, ok := parse(l)
		if ok {
			out = append(out, o)
		}
	}
	if len(out) == len(vecs) && err == nil {
		return out
	}
	if len(vecs) > 1 {
		return nil
	}
	st := se.String()
	first := func(pre string) string {
		i := strings.Index(st, pre)
		if i < 0 {
			return ""
		}
		l := st[i:]
		if j := strings.IndexByte(l, '\n'); j >= 0 {
			l = l[:j]
		}
		return l
	}
	site := ""
	for _, l := range strings.Split(st, "\n") {
		if i := strings.Index(l, "/repo/"); i >= 0 && !strings.Contains(l, "/zzverif/") {
			site = " @ " + strings.Fields(l[i:])[0]
			break
		}
	}
	switch {
	case hung:
		return fail("hang", fmt.Sprintf("no result within %v", limit))
	case strings.Contains(st, "WARNING: DATA RACE"):
		return fail("race", "data race reported by the race detector"+site)
	case strings.Contains(st, "all goroutines are asleep"):
		return fail("deadlock", "all goroutines are asleep"+site)
	case strings.Contains(st, "fatal error: concurrent map"):
		return fail("race", first("fatal error: ")+site)
	case strings.Contains(st, "out of memory") || strings.Contains(st, "cannot allocate memory"):
		return fail("oom", first("fatal error: ")+site)
	case strings.Contains(st, "panic: "):
		return fail("panic", first("panic: ")+site)
	case strings.Contains(st, "fatal error: "):
		return fail("panic", first("fatal error: ")+site)
	}
	return fail("error", fmt.Sprintf("%v: %.300s", err, st))
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func parse(l string) (ex.Outcome, bool) {
	var o ex.Outcome
	l = strings.TrimPrefix(l, "RESULT ")
	i := strings.IndexByte(l, ' ')
	if i < 0 {
		return o, false
	}
	o.Kind = l[:i]
	l = l[i+1:]
	q, err := strconv.QuotedPrefix(l)
	if err != nil {
		return o, false
	}
	o.Msg, _ = strconv.Unquote(q)
	for _, x := range strings.Fields(l[len(q):]) {
		v, err := strconv.ParseUint(x, 16, 64)
		if err != nil {
			return o, false
		}
		o.Obs = append(o.Obs, v)
	}
	return o, true
}
