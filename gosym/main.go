// Command gosym decides properties of /repo by symbolic execution.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"gosym/exec"
	"gosym/run"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	}
	os.Exit(2)
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type knownEntry struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Match    string   `json:"match"` // text of the assertion or panic, a substring
	Site     string   `json:"site"`  // substring of the native outcome
	Inputs   []string `json:"inputs"`
	What     string   `json:"what"`
	Fixed    string   `json:"fixed,omitempty"`
}

func loadKnown(dir, prop string) []knownEntry {
	var all struct {
		Findings []knownEntry `json:"findings"`
	}
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		return nil
	}
	var out []knownEntry
	for _, k := range all.Findings {
		if k.Property == prop && k.Fixed == "" {
			out = append(out, k)
		}
	}
	return out
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", env("VERIF_TIER", "quick"), "quick or thorough")
	only := fs.String("only", "", "harness name filter")
	budget := fs.Int("budget", 0, "seconds of exploration")
	debug := fs.Bool("debug", false, "trace paths")
	workers := fs.Int("workers", 8, "workers")
	verbose := fs.Bool("v", false, "print the harness statistics")
	keep := fs.Bool("noevidence", false, "do not write evidence")
	maxp := fs.Int("maxpaths", 0, "")
	fs.Parse(args)
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	home := env("VERIF_HOME", "/verif")
	repo := env("VERIF_REPO", "/repo")
	t0 := time.Now()
	if *budget == 0 {
		*budget = 120
		if *tier == "thorough" {
			*budget = 720
		}
	}
	p, err := run.Load(repo, home, *prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	defer p.Close()
	for _, d := range p.Dropped {
		fmt.Println("NOT-ENCODED:", d)
	}
	fns := p.Harnesses(*only)
	if len(fns) == 0 {
		fmt.Fprintln(os.Stderr, "no harness could be encoded")
		return 2
	}
	r := p.Replayer(*tier)
	tn := 0
	if *tier == "thorough" {
		tn = 1
	}
	if err := r.Build(false); err != nil {
		fmt.Fprintln(os.Stderr, "native build:", err)
		return 2
	}
	cfg := exec.Config{Workers: *workers, Deadline: time.Now().Add(time.Duration(*budget) * time.Second), Seed: seed, Tier: tn,
		StepLimit: 3000000, QueryMS: 5000, PreciseMS: 10000, SamplePaths: 40, Debug: *debug, Replay: r, MaxPaths: *maxp}
	e := exec.NewEngine(p.Prog, cfg)
	known := loadKnown(home, *prop)
	match := func(k knownEntry, h, msg, native string) bool {
		return k.Harness == h && (k.Match == "" || strings.Contains(msg, k.Match) || strings.Contains(native, k.Match)) &&
			(k.Site == "" || strings.Contains(native, k.Site))
	}
	for _, k := range known {
		var in []uint64
		for _, s := range k.Inputs {
			v, _ := strconv.ParseUint(strings.TrimPrefix(s, "0x"), 16, 64)
			in = append(in, v)
		}
		o := r.Run(k.Harness, in, false)
		if o.Failing() && match(k, k.Harness, o.Msg, o.Kind+" "+o.Msg) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
		}
	}
	e.SetKnown(func(v *exec.Violation) bool {
		for _, k := range known {
			if match(k, v.Harness, v.Msg, v.Native.Kind+" "+v.Native.Msg) {
				return true
			}
		}
		return false
	})
	stats, viol := e.Run(fns)
	wall := time.Since(t0)
	if !*keep {
		writeEvidence(home, *prop, *tier, seed, p, e, stats, viol, wall, *budget)
	}
	if *verbose {
		printStats(stats, e)
	}
	paths, inc := 0, 0
	for _, s := range stats {
		paths += s.Paths
		if !s.Clean() {
			inc++
		}
	}
	fmt.Printf("property %s: %d harnesses, %d paths, %d incomplete, %d solver queries (%.1fs), wall %.1fs\n", *prop, len(stats), paths, inc,
		e.Solver.Queries, e.Solver.Time.Seconds(), wall.Seconds())
	if len(viol) == 0 {
		return 0
	}
	v := viol[0]
	dir := filepath.Join(home, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	file := filepath.Join(dir, *prop+".json")
	type inp struct {
		Label string `json:"label"`
		Hex   string `json:"hex"`
		Float string `json:"as_float64,omitempty"`
	}
	var ins []inp
	for i, x := range v.Inputs {
		ins = append(ins, inp{Label: v.Labels[i], Hex: fmt.Sprintf("%x", x), Float: floatNote(x)})
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"property": *prop, "harness": v.Harness, "tier": *tier, "kind": v.Kind, "message": v.Msg,
		"native": v.Native.Kind + ": " + v.Native.Msg, "inputs": ins, "rerun": "bash /verif/check.sh replay " + file}, "", " ")
	os.WriteFile(file, append(b, '\n'), 0644)
	fmt.Printf("%s: %s %s\n  native run: %s %s\n", v.Harness, v.Kind, v.Msg, v.Native.Kind, v.Native.Msg)
	for i := range ins {
		if i < 40 {
			fmt.Printf("  %s = %s %s\n", ins[i].Label, ins[i].Hex, ins[i].Float)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, file)
	return 1
}

func printStats(stats []*exec.HStats, e *exec.Engine) {
	for _, s := range stats {
		fmt.Printf("%-28s paths %-6d complete %-5v dec %d steps %d asserts %d/%d busy %.1fs merged %d valid %d native %d\n", s.Name, s.Paths, s.Complete, s.Decisions, s.Steps, s.AssertsSolver, s.Asserts, s.Busy.Seconds(), s.Merged, s.Validated, s.NativeRuns)
		pm("ends", s.Ends)
		pm("covers", s.Covers)
		pm("inconclusive", s.Inconclusive)
		pm("unconfirmed", s.Unconfirmed)
		pm("unsupported", s.Unsupported)
		for i, m := range s.Mismatch {
			if i < 3 {
				fmt.Println("   MISMATCH", m)
			}
		}
		if len(s.Uncovered) > 0 {
			fmt.Println("   UNCOVERED", s.Uncovered)
		}
	}
	fmt.Printf("solver %+v fp %+v\n", e.Solver, e.FP)
}

func pm(n string, m map[string]int) {
	if len(m) == 0 {
		return
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Printf("   %s:", n)
	for _, k := range ks {
		fmt.Printf(" [%s]=%d", k, m[k])
	}
	fmt.Println()
}

func replay(args []string) int {
	if len(args) < 1 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Property, Harness, Kind, Tier string
		Inputs                        []struct{ Hex string }
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p, err := run.Load(env("VERIF_REPO", "/repo"), env("VERIF_HOME", "/verif"), f.Property)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer p.Close()
	var in []uint64
	for _, x := range f.Inputs {
		v, _ := strconv.ParseUint(x.Hex, 16, 64)
		in = append(in, v)
	}
	o := p.Replayer(f.Tier).Run(f.Harness, in, f.Kind == "race")
	fmt.Println(f.Harness, o.Kind, o.Msg)
	if o.Failing() {
		return 1
	}
	return 0
}
