package smt

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"strings"
	"time"
)

// OneShot decides the conjunction of goals with fresh, non-incremental solver
// processes (z3-new, z3, cvc5); the first definite answer counts.
func OneShot(c *Ctx, goals []*Term, timeout time.Duration, vars []*Term) (Result, Model) {
	script := func(logic string) string {
		var buf bytes.Buffer
		s := &Solver{C: c, in: bufio.NewWriter(&buf), defined: map[uint32]bool{}, funs: map[string]bool{}}
		s.send("(set-option :produce-models true)")
		if logic != "" {
			s.send("(set-logic " + logic + ")")
		}
		s.send(prelude)
		s.send(preludeUF)
		for _, g := range goals {
			s.define(g)
			s.send("(assert " + s.ref(g) + ")")
		}
		for _, v := range vars {
			s.define(v)
		}
		s.send("(check-sat)")
		if len(vars) > 0 {
			var sb strings.Builder
			for _, v := range vars {
				sb.WriteString(v.Name + " ")
			}
			s.send("(get-value (" + sb.String() + "))")
		}
		s.in.Flush()
		return buf.String()
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type ans struct {
		r Result
		m Model
	}
	ch := make(chan ans, 4)
	n := 0
	start := func(in string, name string, args ...string) {
		n++
		go func() {
			cmd := exec.CommandContext(ctx, name, args...)
			cmd.Stdin = strings.NewReader(in)
			out, _ := cmd.Output()
			t := string(out)
			line := strings.TrimSpace(t)
			rest := ""
			if i := strings.IndexByte(line, '\n'); i >= 0 {
				line, rest = strings.TrimSpace(line[:i]), line[i:]
			}
			switch line {
			case "sat":
				m := Model{}
				parseValues(rest, m)
				ch <- ans{Sat, m}
			case "unsat":
				ch <- ans{Unsat, nil}
			default:
				ch <- ans{Unknown, nil}
			}
		}()
	}
	s1 := script("")
	start(s1, "z3-new", "-in", "-smt2", "-memory:4000")
	start(s1, "z3", "-in", "-smt2", "-memory:4000")
	if !strings.Contains(s1, "fp.to_ieee_bv") {
		start(script("QF_UFBV"), "cvc5", "--produce-models", fmt.Sprintf("--tlimit=%d", timeout/time.Millisecond))
	}
	for i := 0; i < n; i++ {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}
