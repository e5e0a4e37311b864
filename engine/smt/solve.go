package smt

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"math/big"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Val is a model value.
type Val struct {
	Kind string // "bool" "num" "fp" "bv" "?"
	B    bool
	R    *big.Rat
	F    float64
	U    uint64
	Raw  string
}

func (v Val) Float() float64 {
	switch v.Kind {
	case "num":
		f, _ := v.R.Float64()
		return f
	case "fp":
		return v.F
	case "bv":
		return float64(int64(v.U))
	}
	return math.NaN()
}

// Answer of one query.
type Answer struct {
	Res    Result
	Vars   map[string]Val
	Obs    []Val
	Solver string
	Dur    time.Duration
}

// Stats are shared by all queries of a run.
type Stats struct {
	sync.Mutex
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	Longest  time.Duration
	BySolver map[string]int
}

// Pool bounds the number of concurrently running solver processes.
type Pool struct {
	base  context.Context
	sem   chan struct{}
	Stats Stats
	Dump  string // directory to dump slow queries into (debugging)
	dumpN int
}

// NewPool runs up to n solvers at a time; queries are unknown after the deadline.
func NewPool(n int, d time.Duration) *Pool {
	p := &Pool{sem: make(chan struct{}, n)}
	p.base, _ = context.WithTimeout(context.Background(), d)
	p.Stats.BySolver = map[string]int{}
	return p
}

// Engine configurations.
type Config struct {
	Name string
	Args func(ms int) []string
	Pre  string
	Chk  string
}

func z3args(bin string, extra ...string) func(int) []string {
	return func(ms int) []string {
		a := []string{bin, "-in", "-smt2", "-memory:3500", fmt.Sprintf("-t:%d", ms), fmt.Sprintf("-T:%d", ms/1000+2)}
		return append(a, extra...)
	}
}

const z3pre = "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n"

var Configs = map[string]Config{
	"z3new":    {Name: "z3new", Args: z3args("z3-new"), Pre: z3pre, Chk: "(check-sat)"},
	"z3old":    {Name: "z3old", Args: z3args("z3"), Pre: z3pre, Chk: "(check-sat)"},
	"z3seed":   {Name: "z3seed", Args: z3args("z3-new", "smt.random_seed=7", "nlsat.seed=7"), Pre: z3pre, Chk: "(check-sat)"},
	"z3oldnls": {Name: "z3oldnls", Args: z3args("z3"), Pre: z3pre, Chk: "(check-sat-using (then simplify propagate-values solve-eqs purify-arith elim-term-ite solve-eqs tseitin-cnf qfnra-nlsat))"},
	"z3nls":    {Name: "z3nls", Args: z3args("z3-new"), Pre: z3pre, Chk: "(check-sat-using (then simplify propagate-values solve-eqs purify-arith elim-term-ite solve-eqs tseitin-cnf qfnra-nlsat))"},
	"cvc5": {Name: "cvc5", Args: func(ms int) []string {
		return []string{"prlimit", "--as=6000000000", "cvc5", "--lang=smt2", "--produce-models", "--nl-cov", fmt.Sprintf("--tlimit=%d", ms)}
	}, Pre: "(set-logic ALL)\n", Chk: "(check-sat)"},
	"cvc5fp": {Name: "cvc5fp", Args: func(ms int) []string {
		return []string{"prlimit", "--as=6000000000", "cvc5", "--lang=smt2", "--produce-models", "--fp-exp", fmt.Sprintf("--tlimit=%d", ms)}
	}, Pre: "(set-logic ALL)\n", Chk: "(check-sat)"},
	"z3fp": {Name: "z3fp", Args: z3args("z3-new"), Pre: z3pre, Chk: "(check-sat-using (then simplify propagate-values fpa2bv simplify propagate-values solve-eqs bit-blast sat))"},
}

// Query is a rendered query.
type Query struct {
	Text   string
	Vars   []*Term
	ObsRef []string
}

func MakeQuery(asserts, obs []*Term) *Query {
	t, v, o := ScriptObs(asserts, obs)
	return &Query{Text: t, Vars: v, ObsRef: o}
}

// Run solves q with one configuration.
func (p *Pool) run(ctx context.Context, cfg Config, q *Query, ms int, model bool) Answer {
	select {
	case p.sem <- struct{}{}:
	case <-ctx.Done():
		return Answer{}
	}
	defer func() { <-p.sem }()
	var b strings.Builder
	b.WriteString(cfg.Pre)
	b.WriteString(q.Text)
	b.WriteString(cfg.Chk)
	b.WriteByte('\n')
	var items []string
	if model {
		for _, v := range q.Vars {
			items = append(items, quote(v.Name))
		}
		items = append(items, q.ObsRef...)
		if len(items) > 0 {
			b.WriteString("(get-value (" + strings.Join(items, " ") + "))\n")
		}
	}
	b.WriteString("(exit)\n")
	args := cfg.Args(ms)
	cctx, cancel := context.WithTimeout(ctx, time.Duration(ms+1500)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(cctx, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(b.String())
	cmd.WaitDelay = time.Second
	var out bytes.Buffer
	cmd.Stdout = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	o := out.String()
	a := Answer{Solver: cfg.Name, Dur: d}
	line, rest := o, ""
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		line, rest = o[:i], o[i+1:]
	}
	switch strings.TrimSpace(line) {
	case "sat":
		a.Res = Sat
		if model {
			a.Vars = map[string]Val{}
			vals := parseValues(rest)
			if len(vals) == len(items) {
				for i, v := range q.Vars {
					a.Vars[v.Name] = vals[i]
				}
				a.Obs = vals[len(q.Vars):]
			} else if len(items) > 0 {
				a.Vars = nil
			}
		}
	case "unsat":
		a.Res = Unsat
	}
	if ctx.Err() == nil || a.Res != Unknown {
		p.Stats.Lock()
		p.Stats.Queries++
		p.Stats.Time += d
		if d > p.Stats.Longest {
			p.Stats.Longest = d
		}
		switch a.Res {
		case Sat:
			p.Stats.Sat++
		case Unsat:
			p.Stats.Unsat++
		default:
			p.Stats.Unknown++
		}
		p.Stats.BySolver[cfg.Name]++
		p.Stats.Unlock()
	}
	return a
}

// Stage is a set of configurations raced in parallel.
type Stage struct {
	Cfgs []string
	Ms   int
}

// Solve runs the stages in order until one gives a definite answer.
func (p *Pool) Solve(q *Query, stages []Stage, model bool) Answer {
	return p.SolveCtx(p.base, q, stages, model)
}

func (p *Pool) SolveCtx(parent context.Context, q *Query, stages []Stage, model bool) Answer {
	var last Answer
	if parent.Err() != nil || p.base.Err() != nil {
		return last
	}
	for _, st := range stages {
		ctx, cancel := context.WithCancel(parent)
		ch := make(chan Answer, len(st.Cfgs))
		for _, n := range st.Cfgs {
			cfg, ok := Configs[n]
			if !ok {
				panic("no solver config " + n)
			}
			go func() { ch <- p.run(ctx, cfg, q, st.Ms, model) }()
		}
		done := false
		for range st.Cfgs {
			a := <-ch
			last.Dur += a.Dur
			if !done && a.Res != Unknown && !(model && a.Res == Sat && a.Vars == nil && len(q.Vars) > 0) {
				d := last.Dur
				last = a
				last.Dur = d
				done = true
				cancel()
			}
		}
		cancel()
		if done {
			return last
		}
		if parent.Err() != nil {
			return last
		}
	}
	return last
}

// ---- model parsing

type sx struct {
	atom string
	list []*sx
}

func parseSx(s string) []*sx {
	var stack [][]*sx
	var cur []*sx
	i := 0
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == '(':
			stack = append(stack, cur)
			cur = nil
			i++
		case ch == ')':
			n := &sx{list: cur}
			if len(stack) == 0 {
				return cur
			}
			cur = append(stack[len(stack)-1], n)
			stack = stack[:len(stack)-1]
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return cur
			}
			cur = append(cur, &sx{atom: s[i : i+j+2]})
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			cur = append(cur, &sx{atom: s[i:j]})
			i = j
		}
	}
	return cur
}

func parseValues(s string) []Val {
	top := parseSx(s)
	if len(top) == 0 || top[0].list == nil {
		return nil
	}
	var out []Val
	for _, p := range top[0].list {
		if len(p.list) != 2 {
			return nil
		}
		out = append(out, parseVal(p.list[1]))
	}
	return out
}

func parseVal(e *sx) Val {
	if e.list == nil {
		a := e.atom
		switch {
		case a == "true" || a == "false":
			return Val{Kind: "bool", B: a == "true"}
		case strings.HasPrefix(a, "#x"):
			u, _ := strconv.ParseUint(a[2:], 16, 64)
			return Val{Kind: "bv", U: u}
		case strings.HasPrefix(a, "#b"):
			u, _ := strconv.ParseUint(a[2:], 2, 64)
			return Val{Kind: "bv", U: u}
		}
		a = strings.TrimSuffix(a, "?")
		if r, ok := new(big.Rat).SetString(a); ok {
			return Val{Kind: "num", R: r}
		}
		return Val{Kind: "?", Raw: e.atom}
	}
	if len(e.list) == 0 {
		return Val{Kind: "?"}
	}
	h := e.list[0].atom
	switch h {
	case "-":
		if len(e.list) == 2 {
			v := parseVal(e.list[1])
			if v.Kind == "num" {
				return Val{Kind: "num", R: new(big.Rat).Neg(v.R)}
			}
		}
	case "/":
		if len(e.list) == 3 {
			x, y := parseVal(e.list[1]), parseVal(e.list[2])
			if x.Kind == "num" && y.Kind == "num" && y.R.Sign() != 0 {
				return Val{Kind: "num", R: new(big.Rat).Quo(x.R, y.R)}
			}
		}
	case "fp":
		if len(e.list) == 4 {
			s, x, m := e.list[1].atom, e.list[2].atom, e.list[3].atom
			bits := func(a string) (uint64, int) {
				if strings.HasPrefix(a, "#x") {
					u, _ := strconv.ParseUint(a[2:], 16, 64)
					return u, 4 * (len(a) - 2)
				}
				u, _ := strconv.ParseUint(a[2:], 2, 64)
				return u, len(a) - 2
			}
			sb, _ := bits(s)
			xb, xw := bits(x)
			mb, mw := bits(m)
			if xw == 11 {
				return Val{Kind: "fp", F: math.Float64frombits(sb<<63 | xb<<52 | mb)}
			}
			_ = mw
			return Val{Kind: "fp", F: float64(math.Float32frombits(uint32(sb<<31 | xb<<23 | mb)))}
		}
	case "_":
		switch e.list[1].atom {
		case "+zero":
			return Val{Kind: "fp", F: 0}
		case "-zero":
			return Val{Kind: "fp", F: math.Copysign(0, -1)}
		case "+oo":
			return Val{Kind: "fp", F: math.Inf(1)}
		case "-oo":
			return Val{Kind: "fp", F: math.Inf(-1)}
		case "NaN":
			return Val{Kind: "fp", F: math.NaN()}
		}
		if strings.HasPrefix(e.list[1].atom, "bv") {
			u, _ := strconv.ParseUint(e.list[1].atom[2:], 10, 64)
			return Val{Kind: "bv", U: u}
		}
	case "root-obj":
	}
	return Val{Kind: "?", Raw: fmt.Sprint(h)}
}
