package sym

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"vengine/smt"

	"golang.org/x/tools/go/ssa"
)

// Frame of an interpreted function.
type Frame struct {
	fn     *ssa.Function
	info   *fnInfo
	regs   []Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	bind   []Value
	defers []deferred
	visits map[int]int

	retReg     int  // register of the caller receiving the result, -1 none
	isDefer    bool // running as a deferred call
	runDefers  bool // frame is executing RunDefers
	unwinding  bool // frame is unwinding because of a panic
	recovered  bool // recover() was called by a deferred function of this frame
	goexit     bool
	threadExit bool
}

type deferred struct {
	fn   Value // *Func
	args []Value
	call *ssa.CallCommon
}

type fnInfo struct {
	idx map[ssa.Value]int
	n   int
}

// Thread is a goroutine.
type Thread struct {
	id     int
	frames []*Frame
	pan    *panicV // active panic
	wait   string  // "" = runnable, else what it waits for
	waitCh []waitOp
	done   bool
	clk    []int // vector clock
	name   string
}

type panicV struct {
	val  Value
	msg  string
	at   string
	exit bool // os.Exit / log.Fatal
}

type waitOp struct {
	ch   int
	send bool
}

// Obs is an observed value.
type Obs struct {
	Name string
	V    Value
}

// State is one symbolic execution state.
type State struct {
	r     *Run
	id    int
	pc    []*smt.Term
	facts PMap // term id -> *smt.Term (True/False)
	conc  PMap // term id -> constant *smt.Term
	mem   PMap // object id -> Value
	objT  PMap // object id -> name (debug)
	nobj  int
	ths   []*Thread
	cur   int
	obs   []Obs
	ins   []Input // inputs declared on this path
	steps int
	locks map[string]*lockState
	wgs   map[string]int
	onces map[string]bool
	hb    map[string][]int    // happens-before clocks of sync objects
	acc   map[int]*accessList // race detection
	preem int                 // preemptive switches used
	sched []int               // schedule (thread ids at choice points)
	names map[string]int      // per-path counters
	side  map[string]Value    // side storage for stubs
	tags  map[string]bool
	noSw  bool // do not offer a switch at the next instruction (already chosen)
	nVC   int
	dead  bool
}

type lockState struct {
	w  int // holder thread+1, 0 none
	rd int
}

func (st *State) clone() *State {
	n := *st
	st.r.nstates++
	n.id = st.r.nstates
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.obs = st.obs[:len(st.obs):len(st.obs)]
	n.ins = st.ins[:len(st.ins):len(st.ins)]
	n.sched = st.sched[:len(st.sched):len(st.sched)]
	n.ths = make([]*Thread, len(st.ths))
	for i, t := range st.ths {
		c := *t
		c.clk = append([]int(nil), t.clk...)
		c.frames = make([]*Frame, len(t.frames))
		for j, f := range t.frames {
			g := *f
			g.regs = append([]Value(nil), f.regs...)
			g.defers = append([]deferred(nil), f.defers...)
			if f.visits != nil {
				g.visits = make(map[int]int, len(f.visits))
				for k, v := range f.visits {
					g.visits[k] = v
				}
			}
			c.frames[j] = &g
		}
		n.ths[i] = &c
	}
	cp := func(m map[string]int) map[string]int {
		if m == nil {
			return nil
		}
		o := make(map[string]int, len(m))
		for k, v := range m {
			o[k] = v
		}
		return o
	}
	n.wgs, n.names = cp(st.wgs), cp(st.names)
	if st.onces != nil {
		n.onces = map[string]bool{}
		for k, v := range st.onces {
			n.onces[k] = v
		}
	}
	if st.tags != nil {
		n.tags = map[string]bool{}
		for k, v := range st.tags {
			n.tags[k] = v
		}
	}
	if st.side != nil {
		n.side = map[string]Value{}
		for k, v := range st.side {
			n.side[k] = v
		}
	}
	if st.locks != nil {
		n.locks = map[string]*lockState{}
		for k, v := range st.locks {
			c := *v
			n.locks[k] = &c
		}
	}
	if st.hb != nil {
		n.hb = map[string][]int{}
		for k, v := range st.hb {
			n.hb[k] = v
		}
	}
	if st.acc != nil {
		n.acc = make(map[int]*accessList, len(st.acc))
		for k, v := range st.acc {
			n.acc[k] = v.clone()
		}
	}
	return &n
}

func (st *State) th() *Thread { return st.ths[st.cur] }
func (st *State) fr() *Frame  { t := st.th(); return t.frames[len(t.frames)-1] }

// ---- path condition

// assume adds a literal to the path condition.
func (st *State) assume(t *smt.Term) {
	t = st.simp(t)
	if t.IsTrue() {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	st.pc = append(st.pc[:len(st.pc):len(st.pc)], t)
	st.learn(t)
}

// learn records a fact implied by the path condition.
func (st *State) learn(t *smt.Term) {
	c := st.r.c
	if t.Op == "and" {
		for _, a := range t.Args {
			st.learn(a)
		}
		return
	}
	if t.Op == "not" && t.Args[0].Op == "or" {
		for _, a := range t.Args[0].Args {
			st.learn(c.Not(a))
		}
		return
	}
	if t.Op == "not" {
		st.facts = st.facts.Set(t.Args[0].ID, c.False)
		// not (a<=b): b<a so b<=a and a!=b
		if u := t.Args[0]; u.Op == "<=" && len(u.Args) == 2 {
			st.facts = st.facts.Set(c.App("<=", smt.Bool, u.Args[1], u.Args[0]).ID, c.True)
			e := c.Eq(u.Args[0], u.Args[1])
			if !e.IsConst() {
				st.facts = st.facts.Set(e.ID, c.False)
			}
		}
		return
	}
	st.facts = st.facts.Set(t.ID, c.True)
	if t.Op == "=" {
		a, b := t.Args[0], t.Args[1]
		if b.IsConst() && a.Sort != smt.Bool {
			st.conc = st.conc.Set(a.ID, b)
		} else if a.IsConst() && b.Sort != smt.Bool {
			st.conc = st.conc.Set(b.ID, a)
		}
		if b.IsConst() && a.Sort == smt.Real && len(st.r.sc) > 0 {
			st.learnSinCos(a, b)
		} else if a.IsConst() && b.Sort == smt.Real && len(st.r.sc) > 0 {
			st.learnSinCos(b, a)
		}
		if a.Sort.IsNum() {
			st.facts = st.facts.Set(c.App("<=", smt.Bool, a, b).ID, c.True)
			st.facts = st.facts.Set(c.App("<=", smt.Bool, b, a).ID, c.True)
		}
	}
}

// learnSinCos fixes the sine and cosine of an angle that became known.
func (st *State) learnSinCos(a, k *smt.Term) {
	c := st.r.c
	key, sg := c.PolyKey(a)
	p, ok := st.r.sc[key]
	if !ok {
		return
	}
	s, co := st.r.sincos(k)
	if sg < 0 {
		s = c.Neg(s)
	}
	if p.s.Op == "var" {
		st.assume(c.Eq(p.s, s))
		st.assume(c.Eq(p.c, co))
	}
}

// simp simplifies a boolean by known facts.
func (st *State) simp(t *smt.Term) *smt.Term {
	if t.IsConst() {
		return t
	}
	if v, ok := st.facts.Get(t.ID); ok {
		return v.(*smt.Term)
	}
	c := st.r.c
	switch t.Op {
	case "not":
		x := st.simp(t.Args[0])
		if x != t.Args[0] {
			return c.Not(x)
		}
	case "and", "or":
		ch := false
		as := make([]*smt.Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = st.simp(a)
			ch = ch || as[i] != a
		}
		if ch {
			if t.Op == "and" {
				return c.And(as...)
			}
			return c.Or(as...)
		}
	case "ite":
		g := st.simp(t.Args[0])
		if g.IsTrue() {
			return st.simp(t.Args[1])
		}
		if g.IsFalse() {
			return st.simp(t.Args[2])
		}
	case "=":
		if t.Args[0].Sort == smt.Bool {
			x, y := st.simp(t.Args[0]), st.simp(t.Args[1])
			if x != t.Args[0] || y != t.Args[1] {
				return c.Eq(x, y)
			}
			return t
		}
		x, y := st.simpNum(t.Args[0]), st.simpNum(t.Args[1])
		if x != t.Args[0] || y != t.Args[1] {
			return c.Eq(x, y)
		}
	case "<=":
		x, y := st.simpNum(t.Args[0]), st.simpNum(t.Args[1])
		if x != t.Args[0] || y != t.Args[1] {
			return c.Le(x, y)
		}
	}
	return t
}

func (st *State) simpNum(t *smt.Term) *smt.Term {
	if t.IsConst() {
		return t
	}
	if v, ok := st.conc.Get(t.ID); ok {
		return v.(*smt.Term)
	}
	c := st.r.c
	switch t.Op {
	case "ite":
		g := st.simp(t.Args[0])
		if g.IsTrue() {
			return st.simpNum(t.Args[1])
		}
		if g.IsFalse() {
			return st.simpNum(t.Args[2])
		}
	case "+", "*", "div", "mod", "to_int", "to_real":
		if t.Sort.IsNum() && st.r.simpDeep {
			as := make([]*smt.Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				as[i] = st.simpNum(a)
				ch = ch || as[i] != a
			}
			if ch {
				switch t.Op {
				case "+":
					return c.Add(as[0], as[1])
				case "*":
					return c.Mul(as[0], as[1])
				case "div":
					return c.IntDivE(as[0], as[1])
				case "mod":
					return c.IntModE(as[0], as[1])
				case "to_int":
					return c.ToInt(as[0])
				case "to_real":
					return c.ToReal(as[0])
				}
			}
		}
	case "-":
		if t.Sort.IsNum() && st.r.simpDeep {
			if len(t.Args) == 1 {
				a := st.simpNum(t.Args[0])
				if a != t.Args[0] {
					return c.Neg(a)
				}
			} else {
				a, b := st.simpNum(t.Args[0]), st.simpNum(t.Args[1])
				if a != t.Args[0] || b != t.Args[1] {
					return c.Sub(a, b)
				}
			}
		}
	}
	return t
}

// slice returns the literals of the path condition connected to t by shared variables.
func (st *State) slice(ts ...*smt.Term) []*smt.Term {
	r := st.r
	want := bitset{}
	for _, t := range ts {
		want = want.or(r.varsOf(t))
	}
	used := make([]bool, len(st.pc))
	for ch := true; ch; {
		ch = false
		for i, l := range st.pc {
			if used[i] {
				continue
			}
			v := r.varsOf(l)
			if v.meets(want) {
				used[i] = true
				want = want.or(v)
				ch = true
			}
		}
	}
	var out []*smt.Term
	for i, l := range st.pc {
		if used[i] {
			out = append(out, l)
		}
	}
	return out
}

// infeasible reports that pc && t is unsatisfiable (solver says unsat).
func (st *State) infeasible(t *smt.Term) bool {
	if t.IsFalse() {
		return true
	}
	if t.IsTrue() {
		return false
	}
	r := st.r
	as := append(st.slice(t), t)
	key := queryKey(as)
	if v, ok := r.feasCache[key]; ok {
		return v
	}
	q := smt.MakeQuery(as, nil)
	r.nFeas++
	a := r.pool.Solve(q, r.feasStages, false)
	r.solverTime += a.Dur
	if a.Res == smt.Unknown {
		r.nFeasUnknown++
	}
	v := a.Res == smt.Unsat
	r.feasCache[key] = v
	return v
}

func queryKey(as []*smt.Term) string {
	ids := make([]int, len(as))
	for i, a := range as {
		ids[i] = a.ID
	}
	sort.Ints(ids)
	return fmt.Sprint(ids)
}

type forkSignal struct{ states []*State }
type killSignal struct{ why string }
type unsupported struct{ what string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// branch decides a condition, forking the state if both outcomes are feasible.
func (st *State) branch(cond *smt.Term) bool {
	cond = st.simp(cond)
	if cond.IsConst() {
		return cond.B
	}
	r := st.r
	c := r.c
	nc := c.Not(cond)
	if st.infeasible(cond) {
		st.learn(nc)
		return false
	}
	if st.infeasible(nc) {
		st.learn(cond)
		return true
	}
	a, b := st.clone(), st.clone()
	a.assume(cond)
	b.assume(nc)
	r.nForks++
	panic(forkSignal{[]*State{a, b}})
}

// concretize forks over the feasible values of an integer term.
func (st *State) concInt(t *smt.Term) int64 {
	t = st.simpNum(t)
	if t.IsConst() {
		if t.Sort.IsBV() {
			return t.SVal()
		}
		return t.R.Num().Int64()
	}
	if v, ok := st.conc.Get(t.ID); ok {
		t = v.(*smt.Term)
		if t.Sort.IsBV() {
			return t.SVal()
		}
		return t.R.Num().Int64()
	}
	r := st.r
	c := r.c
	var outs []*State
	limit := r.ConcLimit
	if t.Sort == smt.Int && t.Lo != nil && t.Hi != nil {
		lo := new(big.Int).Div(t.Lo.Num(), t.Lo.Denom())
		hi := new(big.Int).Div(t.Hi.Num(), t.Hi.Denom())
		n := new(big.Int).Sub(hi, lo)
		if n.IsInt64() && n.Int64() < int64(limit) {
			for v := lo.Int64(); v <= hi.Int64(); v++ {
				e := c.Eq(t, c.IntC(v))
				if st.simp(e).IsFalse() || st.infeasible(e) {
					continue
				}
				s := st.clone()
				s.assume(e)
				s.conc = s.conc.Set(t.ID, c.IntC(v))
				outs = append(outs, s)
			}
			r.nForks += len(outs)
			panic(forkSignal{outs})
		}
	}
	block := st.slice(t)
	for {
		q := smt.MakeQuery(block, []*smt.Term{t})
		a := r.pool.Solve(q, r.feasStagesLong, true)
		r.solverTime += a.Dur
		r.nFeas++
		if a.Res == smt.Unsat {
			break
		}
		if a.Res == smt.Unknown || len(a.Obs) != 1 {
			r.incomplete("concretisation of a symbolic index undecided at %s", st.where())
			break
		}
		if len(outs) >= limit {
			r.incomplete("more than %d values for a symbolic index at %s", limit, st.where())
			break
		}
		var k *smt.Term
		if t.Sort.IsBV() {
			k = c.BVC(t.Sort.Width(), a.Obs[0].U)
		} else {
			k = c.IntBig(a.Obs[0].R.Num())
		}
		s := st.clone()
		s.assume(c.Eq(t, k))
		s.conc = s.conc.Set(t.ID, k)
		outs = append(outs, s)
		block = append(block, c.Not(c.Eq(t, k)))
	}
	r.nForks += len(outs)
	panic(forkSignal{outs})
}

// ---- memory

func (st *State) alloc(v Value) *Ptr {
	st.nobj++
	st.mem = st.mem.Set(st.nobj, v)
	return &Ptr{Obj: st.nobj}
}

func (st *State) load(p *Ptr) Value {
	if p.Obj == 0 {
		st.throw("nil pointer dereference")
	}
	if p.Obj == zeroSizeObj {
		return &Struct{}
	}
	st.access(p, false)
	v, ok := st.mem.Get(p.Obj)
	if !ok {
		unsup("load of unknown object %d", p.Obj)
	}
	for _, i := range p.Path {
		v = child(v, i)
	}
	return v
}

func child(v Value, i int) Value {
	switch v := v.(type) {
	case *Struct:
		return v.F[i]
	case *Array:
		return v.Get(i)
	}
	unsup("path into %T", v)
	return nil
}

const zeroSizeObj = 1 << 40

func (st *State) store(p *Ptr, x Value) {
	if p.Obj == 0 {
		st.throw("nil pointer dereference")
	}
	if p.Obj == zeroSizeObj {
		return
	}
	st.access(p, true)
	v, ok := st.mem.Get(p.Obj)
	if !ok {
		unsup("store to unknown object")
	}
	st.mem = st.mem.Set(p.Obj, update(v, p.Path, x))
}

func update(v Value, path []int, x Value) Value {
	if len(path) == 0 {
		return x
	}
	i := path[0]
	switch v := v.(type) {
	case *Struct:
		f := append([]Value(nil), v.F...)
		f[i] = update(f[i], path[1:], x)
		return &Struct{f}
	case *Array:
		return v.Set(i, update(v.Get(i), path[1:], x))
	}
	unsup("update path into %T", v)
	return nil
}

func (st *State) sliceElem(s *Slice, i int) *Ptr { return s.Arr.sub(s.Off + i) }

// sliceGet reads elements without bounds checks.
func (st *State) sliceVals(s *Slice) []Value {
	if s.Len == 0 {
		return nil
	}
	arr := st.load(s.Arr).(*Array)
	out := make([]Value, s.Len)
	for i := range out {
		out[i] = arr.Get(s.Off + i)
	}
	return out
}

func (st *State) makeSlice(vals []Value, def Value, capacity int) *Slice {
	if capacity < len(vals) {
		capacity = len(vals)
	}
	a := &Array{N: capacity, Def: def}
	for i, v := range vals {
		a.M = a.M.Set(i, v)
	}
	p := st.alloc(a)
	return &Slice{Arr: p, Len: len(vals), Cap: capacity}
}

// ---- zero values

func (r *Run) zeroOf(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return &Ptr{}
		case u.Info()&types.IsBoolean != 0:
			return r.c.False
		case u.Info()&types.IsInteger != 0:
			return r.intConst(u, 0)
		case u.Info()&types.IsFloat != 0:
			return r.fltConst(fltWidth(u), 0)
		case u.Info()&types.IsString != 0:
			return &Str{}
		case u.Info()&types.IsComplex != 0:
			return Opaque{"complex"}
		case u.Kind() == types.UntypedNil:
			return &Ptr{}
		}
	case *types.Pointer:
		return &Ptr{}
	case *types.Slice:
		return &Slice{}
	case *types.Map:
		return &MapV{}
	case *types.Chan:
		return &ChanV{}
	case *types.Interface:
		return &Iface{}
	case *types.Signature:
		return &Func{}
	case *types.Struct:
		s := &Struct{F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = r.zeroOf(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return &Array{N: int(u.Len()), Def: r.zeroOf(u.Elem())}
	case *types.Tuple:
		tu := &Tuple{}
		for i := 0; i < u.Len(); i++ {
			tu.V = append(tu.V, r.zeroOf(u.At(i).Type()))
		}
		return tu
	}
	unsup("zero value of %v", t)
	return nil
}

func fltWidth(b *types.Basic) int {
	if b.Kind() == types.Float32 {
		return 32
	}
	return 64
}

func intInfo(t types.Type) (w int, signed bool) {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	unsup("integer type %v", t)
	return 0, false
}

func (r *Run) intConst(t types.Type, v int64) *smt.Term {
	w, signed := intInfo(t)
	if r.FPMode {
		return r.c.BVC(w, uint64(v))
	}
	if !signed && v < 0 {
		return r.c.IntBig(new(big.Int).SetUint64(uint64(v)))
	}
	return r.c.IntC(v)
}

func (r *Run) mkInt(v int) *smt.Term {
	if r.FPMode {
		return r.c.BVC(64, uint64(v))
	}
	return r.c.IntC(int64(v))
}

// ---- bitsets over variable ids

type bitset []uint64

func (b bitset) or(o bitset) bitset {
	if len(o) > len(b) {
		b, o = o, b
	}
	n := append(bitset(nil), b...)
	for i, w := range o {
		n[i] |= w
	}
	return n
}
func (b bitset) meets(o bitset) bool {
	for i := 0; i < len(b) && i < len(o); i++ {
		if b[i]&o[i] != 0 {
			return true
		}
	}
	return false
}
func (b bitset) set(i int) bitset {
	for len(b) <= i/64 {
		b = append(b, 0)
	}
	b[i/64] |= 1 << uint(i%64)
	return b
}

// varsOf is the set of variables in the cone of t (definitions included).
func (r *Run) varsOf(t *smt.Term) bitset {
	if b, ok := r.varSets[t]; ok {
		return b
	}
	var b bitset
	for _, v := range smt.Vars([]*smt.Term{t}) {
		i, ok := r.varIdx[v]
		if !ok {
			i = len(r.varIdx)
			r.varIdx[v] = i
		}
		b = b.set(i)
	}
	r.varSets[t] = b
	return b
}
