package sym

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"vengine/smt"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the loaded program.
type Engine struct {
	prog       *ssa.Program
	Main       *ssa.Package
	vf         *ssa.Package
	extra      []*ssa.Package // vh/sys, vh/web if imported
	runtimeErr types.Type
	mu         sync.Mutex
	built      map[*ssa.Package]bool
	LoadErrs   []string
	Files      []*ast.File
}

// Overlay is the source of the viewer as package vh/view, if the harness imports it.
func Overlay(dir, pattern string) map[string][]byte {
	fs, _ := filepath.Glob(filepath.Join(dir, pattern, "*.go"))
	uses := false
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		uses = uses || bytes.Contains(b, []byte("\"vh/view\""))
	}
	if !uses {
		return nil
	}
	repo := "/repo"
	if b, err := os.ReadFile(filepath.Join(dir, "go.mod")); err == nil {
		if m := regexp.MustCompile(`(?m)^replace .* => (\S+)`).FindSubmatch(b); m != nil {
			repo = string(m[1])
		}
	}
	out := map[string][]byte{}
	fs, _ = filepath.Glob(filepath.Join(repo, "cmd/bruteray-view/*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		b = regexp.MustCompile(`(?m)^package main\b`).ReplaceAll(b, []byte("package view"))
		b = bytes.ReplaceAll(b, []byte("\"golang.org/x/exp/shiny/driver\""), []byte("\"vh/view/driver\""))
		out[filepath.Join(dir, "view", "zz_"+filepath.Base(f))] = b
	}
	return out
}

// Load loads and type-checks the harness package in dir.
func Load(dir, pattern string) (*Engine, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOSUMDB=off"),
	}
	cfg.Overlay = Overlay(dir, pattern)
	pkgs, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return &Engine{LoadErrs: errs}, fmt.Errorf("harness does not type-check against the current tree: %s", errs[0])
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, Main: ps[0], built: map[*ssa.Package]bool{}, Files: pkgs[0].Syntax}
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == "vh/vf" {
			e.vf = p
			p.Build()
		}
		if p.Pkg.Path() == "vh/sys" || p.Pkg.Path() == "vh/web" || p.Pkg.Path() == "vh/view" {
			e.extra = append(e.extra, p)
			p.Build()
		}
		if isRepo(p.Pkg.Path()) || allowedStd[p.Pkg.Path()] || initStdPkgs[p.Pkg.Path()] {
			p.Build()
		}
	}
	if e.vf == nil {
		return nil, fmt.Errorf("vf package not loaded")
	}
	e.Main.Build()
	obj := types.NewTypeName(token.NoPos, nil, "runtimeError", nil)
	e.runtimeErr = types.NewNamed(obj, types.NewStruct(nil, nil), nil)
	return e, nil
}

func (e *Engine) build(fn *ssa.Function) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
}

var models = map[string]string{
	"sort.Slice":           "SortSlice",
	"sort.SliceStable":     "SortSlice",
	"sort.Sort":            "SortSort",
	"sort.Stable":          "SortSort",
	"fmt.Fprintf":          "Fprintf",
	"fmt.Fprint":           "Fprint",
	"fmt.Fprintln":         "Fprintln",
	"fmt.Errorf":           "Errorf",
	"(*sync.Once).Do":      "OnceDo",
	"(*sync.Pool).Get":     "PoolGet",
	"(*sync.Pool).Put":     "PoolPut",
	"(*sync.WaitGroup).Go": "WGGo",
}

// extraModels are models in vh/sys and vh/web, in force if the harness imports the package.
var extraModels = map[string]string{
	"vh/sys.Path": "PathM", "vh/sys.WriteFile": "WriteFileM", "vh/sys.FullFile": "FullFileM", "vh/sys.ReadFile": "ReadFileM",
	"vh/sys.WriteImage": "WriteImageM", "vh/sys.ReadImage": "ReadImageM", "vh/sys.Args": "ArgsM", "vh/sys.Exits": "ExitsM", "vh/sys.Quality": "QualityM",
	"os.Open": "OpenM", "os.Create": "CreateM", "os.Mkdir": "MkdirM", "os.MkdirAll": "MkdirAllM", "(*os.File).Read": "ReadM", "(*os.File).Write": "WriteM", "(*os.File).Close": "CloseM",
	"image.Decode": "DecodeM", "image/png.Encode": "EncodeM", "image/jpeg.Encode": "EncodeJPEGM",
	"flag.Int": "IntM", "flag.String": "StringM", "flag.Bool": "BoolM", "flag.Float64": "Float64M", "flag.Parse": "ParseM",
	"vh/web.Serve": "ServeM", "vh/web.Get": "GetM", "vh/web.Raw": "RawM",
	"net/http.NewServeMux": "NewServeMuxM", "(*net/http.ServeMux).Handle": "HandleM", "(*net/http.ServeMux).HandleFunc": "HandleFuncM",
	"(*net/http.Server).ListenAndServe": "ListenAndServeM", "net/http.ListenAndServe": "ListenAndServeTopM", "net/http.Error": "ErrorM",
	"encoding/json.NewDecoder": "NewDecoderM", "(*encoding/json.Decoder).Decode": "JSONDecodeM", "encoding/json.Unmarshal": "UnmarshalM",
	"vh/web.Fake": "FakeM", "net/http.Get": "HTTPGetM", "net/http.NewRequest": "NewRequestM", "(*net/http.Client).Do": "DoM",
	"encoding/json.NewEncoder": "JSONEncoderM", "(*encoding/json.Encoder).Encode": "JSONEncodeM",
	"encoding/gob.NewDecoder": "GobDecoderM", "(*encoding/gob.Decoder).Decode": "GobDecodeM",
	"image/draw.Draw": "DrawM", "io/ioutil.ReadAll": "ReadAllM", "vh/view.Tag": "TagM",
	"encoding/gob.NewEncoder": "NewEncoderM", "(*encoding/gob.Encoder).Encode": "GobEncodeM",
	"flag.Parsed": "ParsedM", "flag.NArg": "NArgM", "flag.Args": "RestM",
}

func (e *Engine) model(name string) *ssa.Function {
	if m, ok := models[name]; ok {
		return e.vf.Func(m)
	}
	if m, ok := extraModels[name]; ok {
		for _, p := range e.extra {
			if f := p.Func(m); f != nil {
				return f
			}
		}
	}
	return nil
}

var allowedStd = map[string]bool{
	"errors": true, "io": true, "bufio": true, "bytes": true, "strings": true, "strconv": true, "sort": true,
	"math": true, "math/bits": true, "unicode/utf8": true, "slices": true, "cmp": true, "maps": true,
	"image": true, "image/color": true, "path": true, "internal/bytealg": true, "internal/stringslite": true, "iter": true,
	"math/rand": false, "unicode": true, "encoding/binary": true, "internal/byteorder": true,
}

func isRepo(path string) bool {
	return strings.HasPrefix(path, "github.com/barnex/bruteray") || strings.HasPrefix(path, "vh/")
}

func fnPkg(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func blockedPkg(fn *ssa.Function) string {
	p := fnPkg(fn)
	if p == "" || isRepo(p) || allowedStd[p] {
		return ""
	}
	if fn.Name() == "init" && fn.Synthetic != "" {
		return ""
	}
	if fn.Synthetic != "" {
		return ""
	}
	return p
}

var initStdPkgs = map[string]bool{"io": true, "bufio": true, "strconv": true, "bytes": true, "image/color": true}

// stubCall intercepts package initialisers.
func (r *Run) stubCall(st *State, fn *ssa.Function, args []Value) Value {
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 && fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		if isRepo(p) || initStdPkgs[p] {
			return nil
		}
		return &Tuple{}
	}
	return nil
}

func (r *Run) stubGlobal(st *State, g *ssa.Global) Value { return nil }

// Input is a symbolic input of a harness.
type Input struct {
	Name          string
	Kind          string
	T             *smt.Term
	NaN, Inf, Neg *smt.Term
	Parts         []*smt.Term
	Lo, Hi        float64
}

// Options of a harness run.
type Options struct {
	FPMode       bool
	Thorough     bool
	Unwind       int
	MaxDepth     int
	MaxSteps     int
	ConcLimit    int
	PreemptBound int
	MaxThreads   int
	NumCPU       int
	NoRace       bool
	NoSettle     bool
	AllowPanic   bool
	TimeBudget   time.Duration
	RandOpen     bool // random numbers are not (almost) zero
	VCStages     []smt.Stage
	FeasMs       int
	Merge        bool // if-conversion of simple diamonds
	Witnesses    int
	Seed         int64
	MaxPaths     int
	Name         string
}

// Run explores one harness.
type Run struct {
	Options
	E              *Engine
	prog           *ssa.Program
	c              *smt.Ctx
	pool           *smt.Pool
	infos          map[*ssa.Function]*fnInfo
	consts         map[*ssa.Const]Value
	globals        map[*ssa.Global]int
	zero           *smt.Term
	invOf          map[*smt.Term]*smt.Term
	sc             map[string]*scPair
	scOrder        []string
	exps, logs     [][2]*smt.Term
	pows           map[*smt.Term]*powRec
	powList        []*powRec
	fpPows         []*powRec
	weakOf         map[*smt.Term]*smt.Term
	inputs         []Input
	inputBounds    map[string]string
	inputVars      map[*smt.Term]bool
	tokens         []Value
	varSets        map[*smt.Term]bitset
	varIdx         map[*smt.Term]int
	feasCache      map[string]bool
	feasStages     []smt.Stage
	feasStagesLong []smt.Stage
	simpDeep       bool
	reached        map[string]int

	nstates, nForks, nSched, nFeas, nFeasUnknown, nInstr, nAssumeKilled int
	nPaths, nTriv                                                       int
	solverTime                                                          time.Duration
	fns                                                                 map[string]bool
	incompl                                                             map[string]int
	unsupp                                                              map[string]int
	notes                                                               map[string]bool

	vcs     []*VC
	wits    []*Witness
	wg      sync.WaitGroup
	Replay  func(model map[string]string) *ReplayOut
	start   time.Time
	wall    time.Duration
	inInit  bool
	raceLoc map[string]bool
	vcLabel map[string]int
	vcFail  map[string]bool
	vcMu    sync.Mutex
}

// VC is one verification condition.
type VC struct {
	Label, Kind, Where string
	exact, full        []*smt.Term
	robust             []*smt.Term
	Res                smt.Result
	Verdict            string // discharged | violated | unreproduced | unknown
	Model              map[string]string
	Replay             *ReplayOut
	Solver             string
	Dur                time.Duration
	Sched              []int
}

// Witness is a completed path, whose model is replayed natively.
type Witness struct {
	pc    []*smt.Term
	obs   []Obs
	OK    bool
	Model map[string]string
	Note  string
	Cmp   int
	Sched []int
}

// ReplayOut is the outcome of running the harness natively on a model.
type ReplayOut struct {
	Fails      []string           // failed assertion labels
	Panic      string             // panic message
	AssumeFail string             // an assumption that does not hold natively
	Obs        map[string]float64 // observed values
	Done       bool
	Hang       bool
	Race       bool
	Err        string
	Stderr     string `json:",omitempty"`
}

func NewRun(e *Engine, pool *smt.Pool, name string, o Options) *Run {
	o.Name = name
	r := &Run{Options: o, E: e, prog: e.prog, c: smt.NewCtx(), pool: pool,
		infos: map[*ssa.Function]*fnInfo{}, consts: map[*ssa.Const]Value{}, globals: map[*ssa.Global]int{},
		invOf: map[*smt.Term]*smt.Term{}, sc: map[string]*scPair{}, pows: map[*smt.Term]*powRec{},
		weakOf: map[*smt.Term]*smt.Term{}, inputBounds: map[string]string{}, inputVars: map[*smt.Term]bool{}, varSets: map[*smt.Term]bitset{},
		varIdx: map[*smt.Term]int{}, feasCache: map[string]bool{}, reached: map[string]int{},
		fns: map[string]bool{}, incompl: map[string]int{}, unsupp: map[string]int{}, notes: map[string]bool{},
		raceLoc: map[string]bool{}, vcLabel: map[string]int{}, vcFail: map[string]bool{}, simpDeep: true,
	}
	r.zero = r.c.RealC(new(big.Rat))
	main := "z3new"
	if o.FPMode {
		r.feasStages = []smt.Stage{{Cfgs: []string{"z3new"}, Ms: o.FeasMs}}
		r.feasStagesLong = []smt.Stage{{Cfgs: []string{"z3new", "cvc5fp"}, Ms: o.FeasMs * 8}}
	} else {
		r.feasStages = []smt.Stage{{Cfgs: []string{main}, Ms: o.FeasMs}}
		r.feasStagesLong = []smt.Stage{{Cfgs: []string{main, "z3old", "cvc5"}, Ms: o.FeasMs * 8}}
	}
	return r
}

func (r *Run) incomplete(f string, a ...interface{}) {
	r.incompl[fmt.Sprintf(f, a...)]++
}

func (r *Run) note(f string, a ...interface{}) { r.notes[fmt.Sprintf(f, a...)] = true }

func (r *Run) noteFn(fn *ssa.Function) {
	p := fnPkg(fn)
	if strings.HasPrefix(p, "github.com/barnex/bruteray") {
		n := fnName(fn)
		if !r.fns[n] {
			r.fns[n] = true
		}
	}
}

// Go explores the harness function.
func (r *Run) Go(fnName string) error {
	r.start = time.Now()
	fn := r.E.Main.Func(fnName)
	if fn == nil {
		return fmt.Errorf("no harness function %s", fnName)
	}
	st := &State{r: r, nobj: 0}
	r.nstates = 1
	st.ths = []*Thread{{id: 0}}
	// package initialisation
	if in := r.E.Main.Func("init"); in != nil {
		r.inInit = true
		st.push(in, nil, nil, -1)
		ok := r.explore(st, func(s *State) { st = s })
		r.inInit = false
		if !ok {
			return fmt.Errorf("package initialisation could not be executed: %v", keys(r.unsupp))
		}
		r.fns = map[string]bool{}
		r.nInstr = 0
		r.nPaths = 0
	}
	st.ths = []*Thread{{id: 0}}
	st.cur = 0
	st.steps = 0
	st.push(fn, nil, nil, -1)
	r.explore(st, r.completed)
	r.wg.Wait()
	r.wall = time.Since(r.start)
	return nil
}

func keys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (r *Run) explore(st *State, done func(*State)) bool {
	work := []*State{st}
	finished := 0
	deadline := r.start.Add(r.TimeBudget)
	for len(work) > 0 {
		if time.Now().After(deadline) {
			r.incomplete("time budget %v exhausted with %d states pending", r.TimeBudget, len(work))
			break
		}
		if r.MaxPaths > 0 && r.nPaths >= r.MaxPaths {
			r.incomplete("path budget %d exhausted", r.MaxPaths)
			break
		}
		s := work[len(work)-1]
		work = work[:len(work)-1]
		next := r.runState(s, func(s *State) { finished++; done(s) }, deadline)
		// explore the first successor first
		for i := len(next) - 1; i >= 0; i-- {
			work = append(work, next[i])
		}
	}
	return finished > 0
}

// runState runs a state until it forks or ends.
func (r *Run) runState(s *State, done func(*State), deadline time.Time) (next []*State) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case killSignal:
			case unsupported:
				r.unsupp[x.what+" at "+s.where()]++
			case forkSignal, throwSignal:
				r.unsupp[fmt.Sprintf("signal outside an instruction: %T", e)]++
			default:
				msg := fmt.Sprintf("engine: %v at %s", e, safeWhere(s))
				if os.Getenv("VENGINE_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%s\n%s\n", msg, debug.Stack())
				}
				r.unsupp[msg]++
			}
			next = nil
		}
	}()
	for n := 0; ; n++ {
		if n&1023 == 1023 && time.Now().After(deadline) {
			return []*State{s}
		}
		t := s.th()
		if len(t.frames) == 0 {
			if t.pan != nil {
				if t.pan.exit {
					r.nPaths++
					return nil
				}
				if r.inInit {
					r.unsupp["panic during package initialisation: "+t.pan.msg]++
					return nil
				}
				r.panicVC(s, t.pan)
				r.nPaths++
				return nil
			}
			if s.cur == 0 {
				r.nPaths++
				done(s)
				return nil
			}
			out := s.reschedule()
			if len(out) == 1 && out[0] == s {
				continue
			}
			if out == nil {
				r.deadlockVC(s)
				return nil
			}
			return out
		}
		if t.wait != "" && !s.canRun(t) {
			out := s.reschedule()
			if len(out) == 1 && out[0] == s {
				continue
			}
			if out == nil {
				r.deadlockVC(s)
				return nil
			}
			return out
		}
		forks := s.step()
		if s.dead {
			return forks
		}
		s.noSw = false
	}
}

func safeWhere(s *State) (w string) {
	defer func() {
		if recover() != nil {
			w = "?"
		}
	}()
	return s.where()
}

// ---- verification conditions

func (r *Run) strengthen(pc []*smt.Term) []*smt.Term {
	out := make([]*smt.Term, len(pc))
	for i, l := range pc {
		out[i] = l
		if l.Op == "not" {
			if w, ok := r.weakOf[l.Args[0]]; ok {
				out[i] = r.c.Not(w)
			}
		} else if w, ok := r.weakOf[r.c.Not(l)]; ok {
			out[i] = r.c.Not(w)
		}
	}
	return out
}

func (r *Run) assertVC(st *State, cond *smt.Term, label string) {
	r.vcLabel[label]++
	t := st.simp(cond)
	if t.IsTrue() {
		r.nTriv++
		return
	}
	c := r.c
	neg := c.Not(t)
	full := append(append([]*smt.Term{}, st.pc...), neg)
	rob := append(r.strengthen(st.pc), c.Not(r.weak(cond)))
	ex := full
	if !neg.IsConst() {
		ex = append(st.slice(neg), neg)
	}
	vc := &VC{Label: label, Kind: "assert", Where: st.where(), exact: ex, full: full, robust: rob, Sched: st.sched}
	r.submit(vc, st)
	if t.IsFalse() {
		panic(killSignal{"assertion false"})
	}
	st.learn(t)
}

func (r *Run) panicVC(st *State, p *panicV) {
	if r.AllowPanic {
		return
	}
	label := "no panic: " + p.msg
	if len(label) > 120 {
		label = label[:120]
	}
	r.vcLabel[label]++
	full := append([]*smt.Term{}, st.pc...)
	vc := &VC{Label: label, Kind: "panic", Where: p.at, exact: full, full: full, robust: r.strengthen(full), Sched: st.sched}
	r.submit(vc, st)
}

func (r *Run) deadlockVC(st *State) {
	w := ""
	for _, t := range st.ths {
		if !t.done && len(t.frames) > 0 {
			w += fmt.Sprintf("goroutine %d waits (%s); ", t.id, t.wait)
		}
	}
	r.nPaths++
	full := append([]*smt.Term{}, st.pc...)
	r.vcLabel["no deadlock"]++
	r.submit(&VC{Label: "no deadlock", Kind: "deadlock", Where: w, exact: full, full: full, robust: full, Sched: st.sched}, st)
}

func (r *Run) raceVC(st *State, a access, write bool) {
	here := st.where()
	key := a.where + "|" + here
	if r.raceLoc[key] {
		return
	}
	r.raceLoc[key] = true
	full := append([]*smt.Term{}, st.pc...)
	r.vcLabel["no data race"]++
	r.submit(&VC{Label: "no data race", Kind: "race", Where: a.where + " / " + here, exact: full, full: full, robust: full, Sched: st.sched}, st)
}

func (r *Run) submit(vc *VC, st *State) {
	r.vcs = append(r.vcs, vc)
	r.wg.Add(1)
	inputs := append([]Input(nil), st.ins...)
	go func() {
		defer r.wg.Done()
		r.solveVC(vc, inputs)
	}()
}

func (r *Run) solveVC(vc *VC, inputs []Input) {
	t0 := time.Now()
	defer func() { vc.Dur = time.Since(t0) }()
	key := vc.Kind + vc.Label
	r.vcMu.Lock()
	failed := r.vcFail[key]
	r.vcMu.Unlock()
	if failed {
		vc.Verdict = "duplicate" // this label is already violated
		return
	}
	stages := r.VCStages
	q := smt.MakeQuery(vc.exact, nil)
	a := r.pool.Solve(q, stages, false)
	vc.Res = a.Res
	vc.Solver = a.Solver
	if a.Res == smt.Unsat {
		vc.Verdict = "discharged"
		return
	}
	// look for a counterexample that the real code reproduces
	rng := rand.New(rand.NewSource(r.Seed + int64(len(vc.full))))
	try := func(as []*smt.Term, extra string, ms int) bool {
		q := smt.MakeQuery(as, obsOf(inputs))
		q.Text += extra
		cfgs := []string{"z3new", "z3old"}
		if r.FPMode {
			cfgs = []string{"z3new", "cvc5fp"}
		}
		a := r.pool.Solve(q, []smt.Stage{{Cfgs: cfgs, Ms: ms}}, true)
		if a.Res != smt.Sat {
			if a.Res == smt.Unsat && extra == "" && len(as) == len(vc.full) && sameTerms(as, vc.full) {
				vc.Res = smt.Unsat
			}
			return false
		}
		vc.Res = smt.Sat
		m := r.modelInputs(inputs, a)
		out := r.Replay(m)
		if vc.Model == nil {
			vc.Model, vc.Replay = m, out
		}
		if reproduces(vc, out) {
			vc.Model, vc.Replay = m, out
			vc.Verdict = "violated"
			vc.Solver = a.Solver
			return true
		}
		return false
	}
	ms := 6000
	if r.Thorough {
		ms = 30000
	}
	hit := try(vc.robust, "", ms) || try(vc.full, "", ms)
	if vc.Res == smt.Unsat && !hit {
		vc.Verdict = "discharged"
		return
	}
	for k := 0; k < 10 && !hit; k++ {
		hit = try(vc.robust, randomFix(rng, inputs, k), ms/3)
	}
	if hit {
		r.vcMu.Lock()
		r.vcFail[key] = true
		r.vcMu.Unlock()
		return
	}
	if vc.Res == smt.Sat {
		vc.Verdict = "unreproduced"
	} else {
		vc.Verdict = "unknown"
	}
}

func sameTerms(a, b []*smt.Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func reproduces(vc *VC, o *ReplayOut) bool {
	if o == nil || o.AssumeFail != "" || o.Err != "" {
		return false
	}
	switch vc.Kind {
	case "assert":
		// another assertion of the same harness failing, or a panic, is a
		// violation of the same property too
		return len(o.Fails) > 0 || o.Panic != ""
	case "panic":
		return o.Panic != "" || len(o.Fails) > 0
	case "deadlock":
		return o.Hang
	case "race":
		return o.Race
	}
	return false
}

// randomFix pins a random subset of the inputs to random values.
func randomFix(rng *rand.Rand, inputs []Input, k int) string {
	var b strings.Builder
	p := []float64{0.3, 0.6, 0.15, 0.8, 0.5, 0.4, 0.7, 0.9, 0.2, 0.95}[k%10]
	for _, in := range inputs {
		if rng.Float64() > p || len(in.Parts) > 0 {
			continue
		}
		switch in.Kind {
		case "float", "rand":
			if in.T.Sort != smt.Real {
				continue
			}
			lo, hi := in.Lo, in.Hi
			if math.IsInf(lo, 0) {
				lo = -10
			}
			if math.IsInf(hi, 0) {
				hi = 10
			}
			if hi-lo > 8 {
				lo, hi = math.Max(lo, -4), math.Min(hi, 4)
				if lo >= hi {
					lo, hi = in.Lo, in.Hi
				}
			}
			v := lo + (hi-lo)*rng.Float64()
			v = math.Round(v*64) / 64
			if v < in.Lo || v > in.Hi {
				continue
			}
			fmt.Fprintf(&b, "(assert (= |%s| %s))\n", in.T.Name, smtReal(v))
		case "bool":
			fmt.Fprintf(&b, "(assert (= |%s| %v))\n", in.T.Name, rng.Intn(2) == 0)
		}
	}
	// only vars that occur in the query may be mentioned: guarded by declaration below
	return b.String()
}

func smtReal(v float64) string {
	r := new(big.Rat).SetFloat64(math.Abs(v))
	s := fmt.Sprintf("(/ %s.0 %s.0)", r.Num(), r.Denom())
	if v < 0 {
		return "(- " + s + ")"
	}
	return s
}

// obsOf makes every input variable occur in the query so that it is declared
// and has a model value.
func obsOf(inputs []Input) []*smt.Term {
	var out []*smt.Term
	for _, in := range inputs {
		out = append(out, in.T)
		out = append(out, in.Parts...)
		if in.NaN != nil {
			out = append(out, in.NaN, in.Inf, in.Neg)
		}
	}
	return out
}

// modelInputs converts a model to native input values.
func (r *Run) modelInputs(inputs []Input, a smt.Answer) map[string]string {
	m := map[string]string{}
	f := func(t *smt.Term) float64 {
		v, ok := a.Vars[t.Name]
		if !ok {
			return 0
		}
		return v.Float()
	}
	num := func(x float64) string { return fmt.Sprintf("%.17g", x) }
	for _, in := range inputs {
		v, ok := a.Vars[in.T.Name]
		if !ok {
			continue
		}
		switch in.Kind {
		case "float", "rand":
			x := v.Float()
			if x < in.Lo {
				x = in.Lo
			}
			if x > in.Hi {
				x = in.Hi
			}
			m[in.Name] = num(x)
		case "angle":
			m[in.Name] = num(r.angleValue(in, a))
		case "int", "byte":
			if v.Kind == "bv" {
				if in.Kind == "byte" {
					m[in.Name] = fmt.Sprint(v.U)
				} else {
					m[in.Name] = fmt.Sprint(int64(v.U))
				}
			} else {
				m[in.Name] = v.R.Num().String()
			}
		case "bool":
			m[in.Name] = fmt.Sprint(v.B)
		case "any":
			nan, inf, neg := a.Vars[in.NaN.Name], a.Vars[in.Inf.Name], a.Vars[in.Neg.Name]
			switch {
			case nan.B:
				m[in.Name] = "NaN"
			case inf.B && neg.B:
				m[in.Name] = "-Inf"
			case inf.B:
				m[in.Name] = "+Inf"
			default:
				m[in.Name] = num(v.Float())
				if v.Float() == 0 && neg.B {
					m[in.Name] = "-0"
				}
			}
		case "unit3":
			for _, p := range in.Parts {
				m[p.Name] = num(f(p))
			}
		}
	}
	return m
}

func (r *Run) angleValue(in Input, a smt.Answer) float64 {
	for _, k := range r.scOrder {
		p := r.sc[k]
		kk, b, ok := r.c.LinearIn(p.arg, in.T)
		if !ok || p.s.Op != "var" {
			continue
		}
		s, okS := a.Vars[p.s.Name]
		co, okC := a.Vars[p.c.Name]
		if !okS || !okC {
			continue
		}
		x := math.Atan2(s.Float(), co.Float())
		kf, _ := kk.Float64()
		bf, _ := b.Float64()
		return (x - bf) / kf
	}
	return a.Vars[in.T.Name].Float()
}

// completed is called for every path that ran to the end of the harness.
func (r *Run) completed(st *State) {
	if len(r.wits) >= r.Witnesses {
		// reservoir: keep the first half and then spread
		return
	}
	w := &Witness{pc: append([]*smt.Term{}, st.pc...), obs: st.obs, Sched: st.sched}
	r.wits = append(r.wits, w)
	r.wg.Add(1)
	inputs := append([]Input(nil), st.ins...)
	// observed terms
	var terms []*smt.Term
	type ref struct {
		name string
		k    int // index into terms
		kind int // 0 scalar, 1 real float (nan, inf, neg, v)
	}
	var refs []ref
	for _, o := range st.obs {
		switch v := o.V.(type) {
		case *Flt:
			if v.FP != nil {
				refs = append(refs, ref{o.Name, len(terms), 0})
				terms = append(terms, v.FP)
			} else {
				refs = append(refs, ref{o.Name, len(terms), 1})
				terms = append(terms, v.NaN, v.Inf, v.V)
			}
		case *smt.Term:
			refs = append(refs, ref{o.Name, len(terms), 0})
			terms = append(terms, v)
		}
	}
	go func() {
		defer r.wg.Done()
		obs := append(obsOf(inputs), terms...)
		q := smt.MakeQuery(w.pc, obs)
		cfgs := []string{"z3new", "z3old"}
		if r.FPMode {
			cfgs = []string{"z3new", "cvc5fp"}
		}
		a := r.pool.Solve(q, []smt.Stage{{Cfgs: cfgs, Ms: 5000}}, true)
		if a.Res != smt.Sat {
			w.Note = "no model within the time limit (" + a.Res.String() + ")"
			return
		}
		w.Model = r.modelInputs(inputs, a)
		out := r.Replay(w.Model)
		switch {
		case out.Err != "":
			w.Note = "replay error: " + out.Err
			return
		case out.AssumeFail != "":
			w.Note = "assumption not met after rounding: " + out.AssumeFail
			return
		case out.Panic != "":
			w.Note = "native panic: " + out.Panic
			return
		case len(out.Fails) > 0:
			w.Note = "native assertion failure: " + out.Fails[0]
			return
		}
		vals := a.Obs[len(obsOf(inputs)):]
		w.OK = true
		for _, rf := range refs {
			nv, ok := out.Obs[rf.name]
			if !ok {
				w.OK = false
				w.Note = "value " + rf.name + " not observed natively"
				continue
			}
			var sv float64
			if rf.kind == 1 {
				if vals[rf.k].B {
					sv = math.NaN()
				} else if vals[rf.k+1].B {
					if math.IsInf(nv, 0) {
						w.Cmp++
						continue
					}
					sv = math.Inf(1)
				} else {
					sv = vals[rf.k+2].Float()
				}
			} else {
				x := vals[rf.k]
				if x.Kind == "bool" {
					sv = 0
					if x.B {
						sv = 1
					}
				} else {
					sv = x.Float()
				}
			}
			if math.IsNaN(sv) && math.IsNaN(nv) || sv == nv || math.Abs(sv-nv) <= 1e-5*(1+math.Abs(sv)+math.Abs(nv)) {
				w.Cmp++
				continue
			}
			w.OK = false
			w.Note = fmt.Sprintf("%s: model %v, native %v", rf.name, sv, nv)
		}
	}()
}
