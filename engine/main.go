// Command vengine decides one property of the repository by symbolic execution
// of its current source and SMT solving.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"vengine/smt"
	"vengine/sym"
)

type harness struct {
	name string
	doc  string
	dir  map[string]string
}

func (h *harness) int(k string, def int) int {
	if s, ok := h.dir[k]; ok {
		if n, err := strconv.Atoi(s); err == nil {
			return n
		}
	}
	return def
}
func (h *harness) has(k string) bool { _, ok := h.dir[k]; return ok }

func discover(files []*ast.File) []*harness {
	var out []*harness
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H_") {
				continue
			}
			h := &harness{name: fd.Name.Name, dir: map[string]string{}}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(strings.TrimPrefix(c.Text, "//"), " ")
					if strings.HasPrefix(t, "vf:") {
						for _, w := range strings.Fields(t[3:]) {
							k, v, _ := strings.Cut(w, "=")
							h.dir[k] = v
						}
					} else {
						h.doc += strings.TrimSpace(t) + " "
					}
				}
			}
			h.doc = strings.TrimSpace(h.doc)
			out = append(out, h)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
}

// buildNative compiles the harnesses with the real code.
func buildNative(hdir, pkg, tmp string, hs []*harness, race bool) (string, error) {
	var b strings.Builder
	b.WriteString("package main\n\nimport \"vh/vf\"\n\nfunc main() {\n\tvf.Main(map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&b, "\t\t%q: %s,\n", h.name, h.name)
	}
	b.WriteString("\t})\n}\n")
	mainf := filepath.Join(tmp, "zz_main.go")
	if err := os.WriteFile(mainf, []byte(b.String()), 0o644); err != nil {
		return "", err
	}
	rep := map[string]string{filepath.Join(hdir, pkg, "zz_main.go"): mainf}
	for f, src := range sym.Overlay(hdir, "./"+pkg) {
		t := filepath.Join(tmp, "zz_"+strings.ReplaceAll(filepath.Base(f), ".go", ".txt"))
		if err := os.WriteFile(t, src, 0o644); err != nil {
			return "", err
		}
		rep[f] = t
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(tmp, "native")
	args := []string{"build", "-overlay", ovf, "-o", bin}
	if race {
		bin += "_race"
		args = []string{"build", "-race", "-overlay", ovf, "-o", bin}
	}
	cmd := exec.Command("go", append(args, "./"+pkg)...)
	cmd.Dir = hdir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

var replayN int
var replayMu sync.Mutex

func replay(bin, raceBin, tmp string, h *harness, tier string, m map[string]string) *sym.ReplayOut {
	tries := h.int("tries", 1)
	var last *sym.ReplayOut
	for i := 0; i < tries; i++ {
		b := bin
		if raceBin != "" && i%2 == 1 {
			b = raceBin
		}
		o := replay1(b, tmp, h, tier, m, i)
		last = o
		if len(o.Fails) > 0 || o.Panic != "" || o.Hang || o.Race || o.Err != "" || o.AssumeFail != "" {
			return o
		}
	}
	return last
}

func replay1(bin, tmp string, h *harness, tier string, m map[string]string, try int) *sym.ReplayOut {
	replayMu.Lock()
	replayN++
	n := replayN
	replayMu.Unlock()
	mf := filepath.Join(tmp, fmt.Sprintf("m%d.json", n))
	of := filepath.Join(tmp, fmt.Sprintf("o%d.json", n))
	b, _ := json.Marshal(m)
	os.WriteFile(mf, b, 0o644)
	td := filepath.Join(tmp, fmt.Sprintf("d%d", n))
	os.Mkdir(td, 0o755)
	defer os.RemoveAll(td)
	defer os.Remove(mf)
	defer os.Remove(of)
	to := time.Duration(h.int("rtimeout", 20)) * time.Second
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "VF_HARNESS="+h.name, "VF_MODEL="+mf, "VF_OUT="+of, "VERIF_TIER="+tier, "VF_TMP="+td, fmt.Sprintf("VF_TRY=%d", try), "GORACE=halt_on_error=0 exitcode=66")
	if n := h.int("ncpu", 0); n > 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("VF_NCPU=%d", n))
	}
	var se bytes.Buffer
	cmd.Stderr = &se
	cmd.Stdout = &se
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	out := &sym.ReplayOut{}
	if ctx.Err() != nil {
		out.Hang = true
		return out
	}
	if strings.Contains(se.String(), "WARNING: DATA RACE") {
		out.Race = true
		out.Stderr = tail(se.String(), 3000)
	}
	if strings.Contains(se.String(), "all goroutines are asleep - deadlock") {
		out.Hang = true
		out.Stderr = tail(se.String(), 2000)
		return out
	}
	rb, rerr := os.ReadFile(of)
	if rerr != nil {
		// crashed without writing a result: an uncaught panic in a goroutine
		s := se.String()
		if i := strings.Index(s, "panic: "); i >= 0 {
			out.Panic = firstLine(s[i:])
			return out
		}
		if i := strings.Index(s, "fatal error: "); i >= 0 {
			out.Panic = firstLine(s[i:])
			return out
		}
		out.Err = fmt.Sprintf("%v: %s", err, tail(s, 300))
		return out
	}
	var res struct {
		Fails      []string
		Panic      string
		AssumeFail string
		Obs        map[string]string
		Done       bool
	}
	if err := json.Unmarshal(rb, &res); err != nil {
		out.Err = err.Error()
		return out
	}
	out.Fails, out.Panic, out.AssumeFail, out.Done = res.Fails, res.Panic, res.AssumeFail, res.Done
	out.Obs = map[string]float64{}
	for k, v := range res.Obs {
		f, _ := strconv.ParseFloat(v, 64)
		out.Obs[k] = f
	}
	return out
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"` // a violated assertion label, or a prefix ending in *
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadKnown(f, prop string) []known {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop && k.Fixed == "" {
			out = append(out, k)
		}
	}
	return out
}

func main() {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := fs.String("only", "", "run only this harness (prefix)")
	root := fs.String("root", "/verif", "root")
	verbose := fs.Bool("v", false, "print every verification condition")
	noEv := fs.Bool("noevidence", false, "do not write evidence")
	if len(os.Args) == 3 && os.Args[1] == "replay" {
		os.Exit(replayFile(os.Args[2]))
	}
	if len(os.Args) < 2 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: vengine check -prop ID")
		os.Exit(2)
	}
	fs.Parse(os.Args[2:])
	if *tier != "thorough" {
		*tier = "quick"
	}
	c := &check{prop: *prop, tier: *tier, only: *only, root: *root, verbose: *verbose, noEv: *noEv}
	os.Exit(c.run())
}

type check struct {
	prop, tier, only, root string
	verbose, noEv          bool
	start                  time.Time
	seed                   int64
	inconcl                []string
}

func (c *check) inconclusive(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	c.inconcl = append(c.inconcl, s)
	fmt.Println("INCONCLUSIVE:", s)
}

func (c *check) run() int {
	c.start = time.Now()
	c.seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.seed = s
	}
	hdir := filepath.Join(c.root, "harness")
	pkg := strings.ToLower(c.prop)
	tmp, err := os.MkdirTemp("", "vengine-"+pkg+"-")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	ev := &evidence{c: c}
	eng, err := sym.Load(hdir, "./"+pkg)
	if err != nil {
		c.inconclusive("%v", err)
		ev.write(nil, nil)
		return 0
	}
	all := discover(eng.Files)
	var hs []*harness
	race := false
	for _, h := range all {
		if c.only != "" && !strings.HasPrefix(h.name, c.only) {
			continue
		}
		if h.dir["tier"] == "thorough" && c.tier != "thorough" {
			continue
		}
		if h.has("race") {
			race = true
		}
		hs = append(hs, h)
	}
	bin, err := buildNative(hdir, pkg, tmp, all, false)
	if err != nil {
		c.inconclusive("%v", err)
		ev.write(nil, nil)
		return 0
	}
	raceBin := ""
	if race {
		raceBin, err = buildNative(hdir, pkg, tmp, all, true)
		if err != nil {
			fmt.Println("note: no race-detector build:", err)
			raceBin = ""
		}
	}
	thorough := c.tier == "thorough"
	total, last := 420*time.Second, 560*time.Second
	if thorough {
		total, last = 90*time.Minute, 100*time.Minute
	}
	began := time.Now()
	pool := smt.NewPool(8, last)
	runs := make([]*sym.Run, len(hs))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i, h := range hs {
		vcms := h.int("vc", 12000)
		budget := time.Duration(h.int("budget", 150)) * time.Second
		if thorough {
			vcms *= 6
			budget *= 8
		}
		o := sym.Options{
			FPMode: h.has("fp"), Thorough: thorough, Unwind: h.int("unwind", 12), MaxDepth: h.int("depth", 200),
			MaxSteps: h.int("steps", 400000), ConcLimit: h.int("conc", 64), PreemptBound: h.int("preempt", 2), MaxThreads: h.int("threads", 8),
			NumCPU: h.int("ncpu", 2), NoRace: h.has("norace"), NoSettle: h.has("nosettle"), AllowPanic: h.has("allowpanic"),
			TimeBudget: budget, FeasMs: h.int("feas", 250), Merge: h.int("merge", 0) != 0, Witnesses: h.int("wit", 6), Seed: c.seed, MaxPaths: h.int("paths", 0),
			Name: h.name, RandOpen: h.has("randopen"),
		}
		if thorough {
			o.Unwind = h.int("unwind_t", o.Unwind)
			o.PreemptBound = h.int("preempt_t", o.PreemptBound)
			o.Witnesses *= 4
			o.FeasMs *= 2
		}
		if o.FPMode {
			o.VCStages = []smt.Stage{{Cfgs: []string{"z3new", "cvc5fp"}, Ms: vcms}, {Cfgs: []string{"z3fp", "z3old"}, Ms: vcms}}
		} else {
			o.VCStages = []smt.Stage{{Cfgs: []string{"z3new"}, Ms: 1200}, {Cfgs: []string{"z3new", "z3old", "cvc5", "z3nls"}, Ms: vcms}}
		}
		if s, ok := h.dir["solvers"]; ok {
			o.VCStages = append([]smt.Stage{{Cfgs: strings.Split(s, ","), Ms: vcms}}, o.VCStages...)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if left := total - time.Since(began); o.TimeBudget > left {
				o.TimeBudget = left
			}
			r := sym.NewRun(eng, pool, h.name, o)
			rb := ""
			if h.has("race") {
				rb = raceBin
			}
			r.Replay = func(m map[string]string) *sym.ReplayOut { return replay(bin, rb, tmp, h, c.tier, m) }
			err := r.Go(h.name)
			mu.Lock()
			defer mu.Unlock()
			runs[i] = r
			if err != nil {
				c.inconclusive("%s: %v", h.name, err)
			}
			c.report(h, r)
		}()
	}
	wg.Wait()
	// verdict
	kn := loadKnown(filepath.Join(c.root, "known-findings.txt"), c.prop)
	usedK := map[int]bool{}
	seen := map[string]int{}
	viol := 0
	for i, h := range hs {
		for _, vc := range runs[i].VCs() {
			if vc.Verdict != "violated" {
				continue
			}
			k := matchKnown(kn, h.name, vc)
			if k >= 0 {
				if !usedK[k] {
					usedK[k] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, kn[k].What)
				}
				continue
			}
			viol++
			seen[h.name+"|"+vc.Label]++
			if seen[h.name+"|"+vc.Label] > 2 {
				continue // same assertion, other path
			}
			path := c.writeReplay(h, vc, viol)
			fmt.Printf("violated: %s: %s (%s)\n", h.name, vc.Label, vc.Where)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
		}
	}
	ev.write(hs, runs)
	fmt.Printf("%s %s: %d harnesses, %d queries, solver time %.1fs, wall %.1fs, violations %d\n", c.prop, c.tier, len(hs), pool.Stats.Queries, pool.Stats.Time.Seconds(), time.Since(c.start).Seconds(), viol)
	if viol > 0 {
		return 1
	}
	return 0
}

func matchKnown(kn []known, h string, vc *sym.VC) int {
	for i, k := range kn {
		if k.Harness != h {
			continue
		}
		// every failing assertion of the replay must be covered
		labels := []string{vc.Label}
		if vc.Replay != nil && len(vc.Replay.Fails) > 0 {
			labels = vc.Replay.Fails
		}
		ok := true
		for _, l := range labels {
			if l != k.Label && !(strings.HasSuffix(k.Label, "*") && strings.HasPrefix(l, strings.TrimSuffix(k.Label, "*"))) {
				ok = false
			}
		}
		if ok {
			return i
		}
	}
	return -1
}

func (c *check) report(h *harness, r *sym.Run) {
	s := r.Summary()
	fmt.Printf("%-28s paths %d, VCs %d (trivial %d, discharged %d, violated %d, unreproduced %d, unknown %d), witnesses %d/%d, %.1fs\n",
		h.name, s.Paths, s.VCs+s.Trivial, s.Trivial, s.Discharged, s.Violated, s.Unreproduced, s.Unknown, s.WitOK, s.Wit, s.Wall.Seconds())
	for k, n := range r.Incompl() {
		c.inconclusive("%s: %s (x%d)", h.name, k, n)
	}
	for k, n := range r.Unsupp() {
		c.inconclusive("%s: unsupported: %s (x%d)", h.name, k, n)
	}
	seen := map[string]int{}
	shown := 0
	for _, vc := range r.VCs() {
		if vc.Verdict == "unknown" || vc.Verdict == "unreproduced" {
			seen[vc.Verdict+": "+vc.Label]++
		}
		if vc.Verdict == "unreproduced" {
			shown++
		}
		if c.verbose || vc.Verdict == "violated" || vc.Verdict == "unreproduced" && c.only != "" && shown <= 2 {
			fmt.Printf("   %-12s %-40s %s %.1fs %s", vc.Verdict, vc.Label, vc.Solver, vc.Dur.Seconds(), vc.Where)
			if vc.Model != nil {
				b, _ := json.Marshal(vc.Model)
				fmt.Printf("\n      model %s", b)
			}
			if vc.Replay != nil {
				fmt.Printf("\n      native: fails=%q panic=%q assume=%q hang=%v race=%v err=%q", vc.Replay.Fails, vc.Replay.Panic, vc.Replay.AssumeFail, vc.Replay.Hang, vc.Replay.Race, vc.Replay.Err)
			}
			fmt.Println()
		}
	}
	for k, n := range seen {
		c.inconclusive("%s: %s (x%d)", h.name, k, n)
	}
	if s.WitOK == 0 && s.Violated == 0 && !h.has("nowit") {
		c.inconclusive("%s: no completed path was confirmed natively", h.name)
	}
	for _, w := range r.Wits() {
		if !w.OK && (c.verbose || c.only != "" || strings.Contains(w.Note, "native")) {
			fmt.Printf("   witness: %s: %s", h.name, w.Note)
			if c.verbose {
				b, _ := json.Marshal(w.Model)
				fmt.Printf(" %s", b)
			}
			fmt.Println()
		}
	}
}

func (c *check) writeReplay(h *harness, vc *sym.VC, n int) string {
	dir := filepath.Join(c.root, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.prop, n))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": c.prop, "harness": h.name, "assertion": vc.Label, "kind": vc.Kind, "where": vc.Where, "inputs": vc.Model,
		"native_result": vc.Replay, "solver": vc.Solver, "schedule": vc.Sched,
		"how_to_replay": fmt.Sprintf("cd /verif && ./replay.sh %s", p),
	}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

// ---- evidence

type evidence struct{ c *check }

func (e *evidence) write(hs []*harness, runs []*sym.Run) {
	c := e.c
	if c.noEv || c.only != "" {
		return
	}
	states, trans, wit, oblig, disch, viol, triv := 0, 0, 0, 0, 0, 0, 0
	queries := 0
	var solver float64
	fns := map[string]bool{}
	assume := map[string]bool{}
	var per []interface{}
	var samples []interface{}
	for i, h := range hs {
		r := runs[i]
		if r == nil {
			continue
		}
		s := r.Summary()
		states += s.States
		trans += s.Instr
		wit += s.WitOK
		oblig += s.VCs + s.Trivial
		disch += s.Discharged + s.Trivial
		triv += s.Trivial
		viol += s.Violated
		for _, f := range r.Functions() {
			fns[f] = true
		}
		for _, n := range r.Notes() {
			assume[n] = true
		}
		bounds := map[string]interface{}{"loop_iterations": r.Unwind, "call_depth": r.MaxDepth, "arithmetic": "exact reals (idealised floats)"}
		if r.FPMode {
			bounds["arithmetic"] = "IEEE-754 binary64/binary32, bit-precise"
		}
		if s.Threads > 1 {
			bounds["goroutines"] = r.MaxThreads
			bounds["preemptions"] = r.PreemptBound
			bounds["numcpu"] = r.NumCPU
		}
		per = append(per, map[string]interface{}{
			"harness": h.name, "claim": h.doc, "paths": s.Paths, "states": s.States, "instructions": s.Instr, "verification_conditions": s.VCs + s.Trivial,
			"closed_by_simplification": s.Trivial, "discharged_by_solver": s.Discharged, "violated": s.Violated, "unreproduced": s.Unreproduced, "unknown": s.Unknown,
			"feasibility_queries": s.Feas, "feasibility_unknown": s.FeasUnknown, "witnesses_replayed": s.WitOK, "witnesses": s.Wit, "inputs": r.InputNames(), "bounds": bounds,
			"wall_s": round(s.Wall.Seconds()), "incomplete": r.Incompl(), "unsupported": r.Unsupp(), "reached": r.Reached(),
		})
		n := 0
		for _, w := range r.Wits() {
			if w.OK && n < 1 {
				n++
				samples = append(samples, map[string]interface{}{"harness": h.name, "path_witness_replayed_natively": w.Model, "values_compared": w.Cmp})
			}
		}
		if len(runs) > 0 {
			queries, solver = r.PoolStats()
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	var fl, al []string
	for f := range fns {
		fl = append(fl, f)
	}
	for a := range assume {
		al = append(al, a)
	}
	sort.Strings(fl)
	sort.Strings(al)
	al = append([]string{
		"real-mode harnesses: float64/float32 arithmetic is exact real arithmetic with NaN and infinities tracked; rounding, overflow and underflow are outside the claim",
		"fp harnesses: IEEE-754 arithmetic is bit-precise",
		"transcendental functions are represented by contracts (sin^2+cos^2=1, sqrt(x)^2=x, monotonicity, exact values at special points)",
		"input ranges and sizes are those stated in the harness source; anything outside them is outside the claim",
	}, al...)
	out := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "wall_s": round(time.Since(c.start).Seconds()), "violations": viol,
		"assumptions": al,
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": wit, "samples": samples,
			"verification_conditions": oblig, "verification_conditions_discharged": disch, "closed_by_simplification": triv,
			"solver_queries": queries, "solver_time_s": round(solver), "functions_encoded": fl, "harnesses": per, "inconclusive": c.inconcl,
		},
	}
	b, _ := json.MarshalIndent(out, "", " ")
	dir := filepath.Join(c.root, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.prop+".json"), b, 0o644)
}

func round(x float64) float64 { return float64(int(x*100+0.5)) / 100 }

// replayFile reruns a recorded counterexample against the current tree.
func replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rec struct {
		Property, Harness, Assertion, Kind string
		Inputs                             map[string]string
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		fmt.Println(err)
		return 2
	}
	hdir := "/verif/harness"
	pkg := strings.ToLower(rec.Property)
	eng, err := sym.Load(hdir, "./"+pkg)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "vreplay-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	all := discover(eng.Files)
	for _, h := range all {
		if h.name != rec.Harness {
			continue
		}
		bin, err := buildNative(hdir, pkg, tmp, all, false)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		rb := ""
		if h.has("race") {
			rb, _ = buildNative(hdir, pkg, tmp, all, true)
		}
		o := replay(bin, rb, tmp, h, "quick", rec.Inputs)
		js, _ := json.MarshalIndent(o, "", " ")
		fmt.Printf("%s\n", js)
		if len(o.Fails) > 0 || o.Panic != "" || o.Hang || o.Race {
			return 1
		}
		return 0
	}
	fmt.Println("no harness", rec.Harness)
	return 2
}
