package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"unicode/utf8"

	"vengine/smt"

	"golang.org/x/tools/go/ssa"
)

func (r *Run) info(fn *ssa.Function) *fnInfo {
	if i, ok := r.infos[fn]; ok {
		return i
	}
	i := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		i.idx[v] = i.n
		i.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, dup := i.idx[v]; !dup {
					add(v)
				}
			}
		}
	}
	r.infos[fn] = i
	return i
}

func (st *State) where() string {
	t := st.th()
	if len(t.frames) == 0 {
		return "?"
	}
	f := st.fr()
	pos := token.NoPos
	if f.ip < len(f.block.Instrs) {
		pos = f.block.Instrs[f.ip].Pos()
	}
	s := f.fn.String()
	for i := len(t.frames) - 1; i >= 0 && pos == token.NoPos; i-- {
		g := t.frames[i]
		if g.ip < len(g.block.Instrs) {
			pos = g.block.Instrs[g.ip].Pos()
		}
	}
	if pos != token.NoPos {
		p := st.r.prog.Fset.Position(pos)
		s += fmt.Sprintf(" (%s:%d)", p.Filename, p.Line)
	}
	return s
}

func (st *State) push(fn *ssa.Function, args []Value, bind []Value, retReg int) {
	r := st.r
	if fn.Blocks == nil {
		r.E.build(fn)
	}
	if fn.Blocks == nil {
		unsup("function without body: %s", fn)
	}
	r.noteFn(fn)
	inf := r.info(fn)
	f := &Frame{fn: fn, info: inf, regs: make([]Value, inf.n), block: fn.Blocks[0], retReg: retReg, bind: bind}
	if len(args) != len(fn.Params) {
		unsup("arity mismatch calling %s", fn)
	}
	for i, p := range fn.Params {
		f.regs[inf.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[inf.idx[p]] = bind[i]
	}
	t := st.th()
	if len(t.frames) > r.MaxDepth {
		r.incomplete("call depth bound %d exceeded in %s", r.MaxDepth, fn)
		panic(killSignal{"depth"})
	}
	t.frames = append(t.frames, f)
}

func (st *State) get(f *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return st.r.constVal(v)
	case *ssa.Global:
		return st.global(v)
	case *ssa.Function:
		return &Func{Fn: v}
	case *ssa.Builtin:
		return &Func{Intr: "builtin." + v.Name()}
	}
	i, ok := f.info.idx[v]
	if !ok {
		unsup("no register for %v", v)
	}
	return f.regs[i]
}

func (st *State) set(f *Frame, v ssa.Value, x Value) { f.regs[f.info.idx[v]] = x }

func (st *State) global(g *ssa.Global) *Ptr {
	r := st.r
	id, ok := r.globals[g]
	if !ok {
		id = 1000000 + len(r.globals)
		r.globals[g] = id
	}
	if _, ok := st.mem.Get(id); !ok {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		var v Value
		if gv := r.stubGlobal(st, g); gv != nil {
			v = gv
		} else {
			v = r.zeroOf(t)
		}
		st.mem = st.mem.Set(id, v)
	}
	return &Ptr{Obj: id}
}

func (r *Run) constVal(k *ssa.Const) Value {
	if v, ok := r.consts[k]; ok {
		return v
	}
	v := r.constVal1(k)
	r.consts[k] = v
	return v
}

func (r *Run) constVal1(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return r.zeroOf(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsup("constant of type %v", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return r.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsInteger != 0:
		iv := constant.ToInt(k.Value)
		w, _ := intInfo(b)
		s := iv.ExactString()
		z, _ := new(big.Int).SetString(s, 10)
		if r.FPMode {
			m := new(big.Int).And(z, new(big.Int).SetUint64(^uint64(0)))
			return r.c.BVC(w, m.Uint64())
		}
		return r.c.IntBig(z)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		return r.fltConst(fltWidth(b), f)
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return &Str{S: constant.StringVal(k.Value)}
		}
		n, _ := constant.Int64Val(k.Value)
		return &Str{S: string(rune(n))}
	case b.Info()&types.IsComplex != 0:
		return Opaque{"complex"}
	}
	unsup("constant %v", k)
	return nil
}

// throw raises a runtime panic in the current thread.
func (st *State) throw(msg string) {
	panic(throwSignal{&Iface{T: st.r.E.runtimeErr, V: &Str{S: "runtime error: " + msg}}, msg})
}

type throwSignal struct {
	val Value
	msg string
}

// step executes one instruction. It returns successor states if the state forked.
func (st *State) step() (forks []*State) {
	defer func() {
		if e := recover(); e != nil {
			switch s := e.(type) {
			case forkSignal:
				forks = s.states
				st.dead = true
			case throwSignal:
				st.startPanic(s.val, s.msg)
			default:
				panic(e)
			}
		}
	}()
	st.steps++
	t := st.th()
	if len(t.frames) == 0 {
		return nil
	}
	f := t.frames[len(t.frames)-1]
	if f.unwinding || f.runDefers {
		st.stepDefers(f)
		return nil
	}
	in := f.block.Instrs[f.ip]
	st.exec(f, in)
	return nil
}

func (st *State) startPanic(val Value, msg string) {
	t := st.th()
	t.pan = &panicV{val: val, msg: msg, at: st.where()}
	f := st.fr()
	f.unwinding = true
}

// stepDefers runs the next deferred call of a frame that is unwinding or at RunDefers.
func (st *State) stepDefers(f *Frame) {
	t := st.th()
	if f.unwinding && f.recovered {
		// a deferred function recovered the panic: return from f
		f.recovered = false
		f.unwinding = false
		t.pan = nil
		if len(f.defers) > 0 {
			// run the remaining defers normally, then return
			f.runDefers = true
			f.goexit = true
			return
		}
		st.finishRecovered(f)
		return
	}
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		st.invokeDeferred(d)
		return
	}
	if f.runDefers {
		f.runDefers = false
		if f.goexit {
			f.goexit = false
			st.finishRecovered(f)
			return
		}
		f.ip++
		return
	}
	// unwinding and no more defers: propagate
	t.frames = t.frames[:len(t.frames)-1]
	if len(t.frames) == 0 {
		return // reported by the scheduler loop
	}
	g := st.fr()
	if f.isDefer {
		// the panic in a deferred call replaces the former one and continues unwinding in g
		g.runDefers = false
	}
	g.unwinding = true
}

func (st *State) finishRecovered(f *Frame) {
	if f.fn.Recover != nil {
		f.prev = f.block
		f.block = f.fn.Recover
		f.ip = 0
		return
	}
	// no named results: return zero values
	res := f.fn.Signature.Results()
	switch res.Len() {
	case 0:
		st.ret(f, nil)
	case 1:
		st.ret(f, st.r.zeroOf(res.At(0).Type()))
	default:
		st.ret(f, st.r.zeroOf(res))
	}
}

func (st *State) invokeDeferred(d deferred) {
	fv := d.fn.(*Func)
	if fv.Fn == nil && fv.Intr == "" {
		st.throw("nil func in defer")
	}
	if fv.Intr != "" {
		st.unpopped(d, func() bool {
			st.builtinOrIntr(strings.TrimPrefix(fv.Intr, "builtin."), fv, d.args, d.call, -1)
			return true
		})
		return
	}
	name := fnName(fv.Fn)
	if h := intrinsics[name]; h != nil {
		st.unpopped(d, func() bool {
			_, again := h(st, d.args, d.call).(retryLater)
			return !again
		})
		return
	}
	if m := st.r.E.model(name); m != nil {
		st.push(m, d.args, nil, -1)
	} else {
		st.push(fv.Fn, d.args, fv.Bind, -1)
	}
	st.fr().isDefer = true
}

// unpopped runs an intrinsic deferred call while it is still on the list of deferred calls, so
// that states forked from inside it run it again; it is popped once it is done (or panicked).
func (st *State) unpopped(d deferred, run func() bool) {
	f := st.fr()
	f.defers = append(f.defers[:len(f.defers):len(f.defers)], d)
	n := len(f.defers)
	done := true
	defer func() {
		if done {
			f.defers = f.defers[:n-1]
		}
	}()
	defer func() {
		if e := recover(); e != nil {
			if _, fork := e.(forkSignal); fork {
				done = false
			}
			panic(e)
		}
	}()
	done = run()
}

type retryLater struct{}

// ret returns from frame f with value v.
func (st *State) ret(f *Frame, v Value) {
	t := st.th()
	t.frames = t.frames[:len(t.frames)-1]
	if len(t.frames) == 0 {
		t.done = true
		st.threadExited(t)
		return
	}
	g := st.fr()
	if f.isDefer {
		return
	}
	if f.retReg >= 0 {
		g.regs[f.retReg] = v
	}
	g.ip++
}

func (st *State) jump(f *Frame, to *ssa.BasicBlock) {
	from := f.block
	// phis evaluated simultaneously
	var pi int = -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	n := 0
	var vals []Value
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, st.get(f, ph.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		st.set(f, to.Instrs[i].(*ssa.Phi), vals[i])
	}
	f.prev = from
	f.block = to
	f.ip = n
}

// mergeDiamond executes "if c {x = a} else {x = b}" without forking when both
// sides only choose between already computed numbers or booleans.
func (st *State) mergeDiamond(f *Frame, cond *smt.Term) bool {
	b := f.block
	empty := func(s *ssa.BasicBlock) (*ssa.BasicBlock, bool) {
		if len(s.Preds) != 1 {
			return nil, false
		}
		for _, in := range s.Instrs {
			switch in.(type) {
			case *ssa.DebugRef, *ssa.Jump:
			default:
				return nil, false
			}
		}
		if len(s.Succs) != 1 {
			return nil, false
		}
		return s.Succs[0], true
	}
	t, e := b.Succs[0], b.Succs[1]
	if t == e {
		return false
	}
	var join, tp, ep *ssa.BasicBlock
	tj, tok := empty(t)
	ej, eok := empty(e)
	switch {
	case tok && tj == e:
		join, tp, ep = e, t, b
	case eok && ej == t:
		join, tp, ep = t, b, e
	case tok && eok && tj == ej:
		join, tp, ep = tj, t, e
	default:
		return false
	}
	idx := func(p *ssa.BasicBlock) int {
		for i, q := range join.Preds {
			if q == p {
				return i
			}
		}
		return -1
	}
	ti, ei := idx(tp), idx(ep)
	if ti < 0 || ei < 0 || join.Dominates(b) {
		return false
	}
	var vals []Value
	n := 0
	for _, in := range join.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		x, y := st.get(f, ph.Edges[ti]), st.get(f, ph.Edges[ei])
		n++
		switch a := x.(type) {
		case *Flt:
			bb, ok := y.(*Flt)
			if !ok {
				return false
			}
			vals = append(vals, st.r.fite(cond, a, bb))
		case *smt.Term:
			bb, ok := y.(*smt.Term)
			if !ok || a.Sort != bb.Sort {
				return false
			}
			vals = append(vals, st.r.c.Ite(cond, a, bb))
		default:
			return false
		}
	}
	if n == 0 {
		return false
	}
	// decide the condition if the path condition does
	if st.infeasible(cond) || st.infeasible(st.r.c.Not(cond)) {
		return false
	}
	for i := 0; i < n; i++ {
		st.set(f, join.Instrs[i].(*ssa.Phi), vals[i])
	}
	f.prev = tp
	f.block = join
	f.ip = n
	return true
}

func (st *State) exec(f *Frame, in ssa.Instruction) {
	r := st.r
	r.nInstr++
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		st.set(f, in, st.alloc(r.zeroOf(t)))
	case *ssa.BinOp:
		st.set(f, in, st.binop(in.Op, st.get(f, in.X), st.get(f, in.Y), in.X.Type(), in.Y.Type(), in.Type()))
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			st.recv(f, in)
			return
		}
		st.set(f, in, st.unop(in, st.get(f, in.X)))
	case *ssa.ChangeInterface, *ssa.ChangeType:
		v := in.(ssa.Value)
		ops := in.Operands(nil)
		st.set(f, v, st.get(f, *ops[0]))
	case *ssa.Convert:
		st.set(f, in, st.convert(st.get(f, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		st.set(f, in, st.convert(st.get(f, in.X), in.X.Type(), in.Type()))
	case *ssa.Extract:
		tv := st.get(f, in.Tuple)
		if isOpaque(tv) {
			unsup("extract from opaque result")
		}
		st.set(f, in, tv.(*Tuple).V[in.Index])
	case *ssa.Field:
		st.set(f, in, child(st.get(f, in.X), in.Field))
	case *ssa.FieldAddr:
		p := st.ptr(st.get(f, in.X))
		if p.Obj == 0 {
			st.throw("nil pointer dereference")
		}
		st.set(f, in, p.sub(in.Field))
	case *ssa.Index:
		x := st.get(f, in.X)
		switch x := x.(type) {
		case *Array:
			i := st.index(st.get(f, in.Index), x.N)
			st.set(f, in, x.Get(i))
		case *Str:
			i := st.index(st.get(f, in.Index), x.Len())
			st.set(f, in, st.strByte(x, i))
		default:
			unsup("index of %T", x)
		}
	case *ssa.IndexAddr:
		x := st.get(f, in.X)
		switch x := x.(type) {
		case *Ptr: // pointer to array
			if x.Obj == 0 {
				st.throw("nil pointer dereference")
			}
			at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			i := st.index(st.get(f, in.Index), int(at.Len()))
			st.set(f, in, x.sub(i))
		case *Slice:
			i := st.index(st.get(f, in.Index), x.Len)
			st.set(f, in, st.sliceElem(x, i))
		default:
			unsup("indexaddr of %T", x)
		}
	case *ssa.Lookup:
		st.lookup(f, in)
	case *ssa.MakeInterface:
		v := st.get(f, in.X)
		st.set(f, in, &Iface{T: in.X.Type(), V: v})
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		b := make([]Value, len(in.Bindings))
		for i, x := range in.Bindings {
			b[i] = st.get(f, x)
		}
		st.set(f, in, &Func{Fn: fn, Bind: b})
	case *ssa.MakeMap:
		st.nobj++
		st.mem = st.mem.Set(st.nobj, &MapObj{})
		st.set(f, in, &MapV{Obj: st.nobj})
	case *ssa.MakeChan:
		n := int(st.concInt(st.get(f, in.Size).(*smt.Term)))
		st.nobj++
		st.mem = st.mem.Set(st.nobj, &ChanObj{Cap: n, ElemT: in.Type().Underlying().(*types.Chan).Elem()})
		st.set(f, in, &ChanV{Obj: st.nobj})
	case *ssa.MakeSlice:
		n := st.concInt(st.get(f, in.Len).(*smt.Term))
		c := st.concInt(st.get(f, in.Cap).(*smt.Term))
		if n < 0 || c < n {
			st.throw("makeslice: len out of range")
		}
		if c > 1<<28 {
			unsup("huge make")
		}
		def := r.zeroOf(in.Type().Underlying().(*types.Slice).Elem())
		s := st.makeSlice(nil, def, int(c))
		s.Len = int(n)
		st.set(f, in, s)
	case *ssa.MapUpdate:
		st.mapUpdate(st.get(f, in.Map).(*MapV), st.get(f, in.Key), st.get(f, in.Value), in.Map.Type())
	case *ssa.Next:
		st.next(f, in)
	case *ssa.Range:
		x := st.get(f, in.X)
		it := &iterV{}
		switch x := x.(type) {
		case *Str:
			it.Str = x
		case *MapV:
			it.M = x
			if x.Obj != 0 {
				mo, _ := st.mem.Get(x.Obj)
				for _, e := range mo.(*MapObj).Ents {
					it.Ks = append(it.Ks, e.K)
				}
			}
		default:
			unsup("range over %T", x)
		}
		st.nobj++
		st.mem = st.mem.Set(st.nobj, it)
		st.set(f, in, &Ptr{Obj: st.nobj})
	case *ssa.Slice:
		st.set(f, in, st.sliceOp(f, in))
	case *ssa.SliceToArrayPointer:
		s := st.get(f, in.X).(*Slice)
		at := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if int(at.Len()) > s.Len {
			st.throw("slice to array pointer: length")
		}
		if s.Off != 0 {
			unsup("SliceToArrayPointer with offset")
		}
		st.set(f, in, s.Arr)
	case *ssa.Store:
		st.store(st.ptr(st.get(f, in.Addr)), st.get(f, in.Val))
	case *ssa.TypeAssert:
		st.typeAssert(f, in)
	case *ssa.Jump:
		st.backEdge(f, f.block.Succs[0], false)
		st.jump(f, f.block.Succs[0])
		return
	case *ssa.If:
		cond := st.get(f, in.Cond)
		ct, ok := cond.(*smt.Term)
		if !ok {
			unsup("branch on %T", cond)
		}
		wasConst := st.simp(ct).IsConst()
		if r.Merge && !wasConst && st.mergeDiamond(f, ct) {
			return
		}
		to := 1
		if st.branch(ct) {
			to = 0
		}
		st.backEdge(f, f.block.Succs[to], !wasConst)
		st.jump(f, f.block.Succs[to])
		return
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
			st.ret(f, nil)
		case 1:
			st.ret(f, st.get(f, in.Results[0]))
		default:
			tu := &Tuple{}
			for _, x := range in.Results {
				tu.V = append(tu.V, st.get(f, x))
			}
			st.ret(f, tu)
		}
		return
	case *ssa.RunDefers:
		f.runDefers = true
		return
	case *ssa.Panic:
		v := st.get(f, in.X)
		panic(throwSignal{v, "panic: " + st.panicText(v)})
	case *ssa.Call:
		st.callInstr(f, &in.Call, f.info.idx[in])
		return
	case *ssa.Defer:
		d := deferred{call: &in.Call}
		if in.Call.IsInvoke() {
			fn, recv := st.resolveInvoke(f, &in.Call)
			d.fn = fn
			d.args = append([]Value{recv}, st.args(f, in.Call.Args)...)
		} else {
			d.fn = st.get(f, in.Call.Value)
			d.args = st.args(f, in.Call.Args)
		}
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], d)
	case *ssa.Go:
		st.goStmt(f, in)
		return
	case *ssa.Send:
		st.send(f, in)
		return
	case *ssa.Select:
		st.selectOp(f, in)
		return
	default:
		unsup("instruction %T", in)
	}
	f.ip++
}

func (st *State) panicText(v Value) string {
	if i, ok := v.(*Iface); ok {
		switch x := i.V.(type) {
		case *Str:
			return x.S
		case nil:
			return "nil"
		}
		if i.T != nil {
			return i.T.String()
		}
	}
	return fmt.Sprintf("%T", v)
}

// backEdge enforces the unwinding bound on loops.
func (st *State) backEdge(f *Frame, to *ssa.BasicBlock, symbolic bool) {
	if to.Index > f.block.Index {
		return
	}
	if st.steps > st.r.MaxSteps {
		st.r.incomplete("step bound %d exceeded in %s", st.r.MaxSteps, st.where())
		panic(killSignal{"steps"})
	}
	if !symbolic {
		// loops whose condition is decided concretely end on their own
		return
	}
	if f.visits == nil {
		f.visits = map[int]int{}
	}
	f.visits[to.Index]++
	if f.visits[to.Index] > st.r.Unwind {
		st.r.incomplete("unwinding bound %d reached in %s", st.r.Unwind, st.where())
		panic(killSignal{"unwind"})
	}
}

func (st *State) args(f *Frame, as []ssa.Value) []Value {
	out := make([]Value, len(as))
	for i, a := range as {
		out[i] = st.get(f, a)
	}
	return out
}

func (st *State) ptr(v Value) *Ptr {
	p, ok := v.(*Ptr)
	if !ok {
		unsup("pointer expected, have %T", v)
	}
	return p
}

// index checks bounds and returns a concrete index.
func (st *State) index(v Value, n int) int {
	r := st.r
	t := v.(*smt.Term)
	t = st.simpNum(t)
	if !t.IsConst() {
		c := r.c
		var ok *smt.Term
		if t.Sort.IsBV() {
			w := t.Sort.Width()
			if w < 63 && uint64(n) > (uint64(1)<<uint(w)-1) {
				ok = c.True
			} else {
				ok = c.BVCmp("bvult", t, c.BVC(w, uint64(n)))
			}
		} else {
			ok = c.And(c.Le(c.IntC(0), t), c.Lt(t, c.IntC(int64(n))))
		}
		if !st.branch(ok) {
			st.throw("index out of range")
		}
	}
	i := st.concInt(t)
	if i < 0 || i >= int64(n) {
		st.throw(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return int(i)
}

// ---- calls

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (st *State) resolveInvoke(f *Frame, cc *ssa.CallCommon) (*Func, Value) {
	iv := st.get(f, cc.Value)
	i, ok := iv.(*Iface)
	if !ok {
		unsup("invoke on %T", iv)
	}
	if i.T == nil {
		st.throw("nil pointer dereference (nil interface method call " + cc.Method.Name() + ")")
	}
	if i.T == st.r.E.runtimeErr {
		return &Func{Intr: "opaque." + cc.Method.Name()}, i.V
	}
	if o, ok := i.V.(Opaque); ok {
		return &Func{Intr: "opaque." + cc.Method.Name()}, o
	}
	fn := st.r.prog.LookupMethod(i.T, cc.Method.Pkg(), cc.Method.Name())
	if fn == nil {
		unsup("no method %s on %v", cc.Method.Name(), i.T)
	}
	return &Func{Fn: fn}, i.V
}

func (st *State) callInstr(f *Frame, cc *ssa.CallCommon, reg int) {
	var fv *Func
	var args []Value
	if cc.IsInvoke() {
		fn, recv := st.resolveInvoke(f, cc)
		fv = fn
		args = append([]Value{recv}, st.args(f, cc.Args)...)
	} else {
		v := st.get(f, cc.Value)
		x, ok := v.(*Func)
		if !ok {
			unsup("call of %T", v)
		}
		fv = x
		args = st.args(f, cc.Args)
	}
	st.callFunc(fv, args, cc, reg)
}

func (st *State) callFunc(fv *Func, args []Value, cc *ssa.CallCommon, reg int) {
	if fv.Intr != "" {
		st.builtinOrIntr(strings.TrimPrefix(fv.Intr, "builtin."), fv, args, cc, reg)
		return
	}
	if fv.Fn == nil {
		st.throw("nil pointer dereference (nil func call)")
	}
	name := fnName(fv.Fn)
	if h := intrinsics[name]; h != nil {
		v := h(st, args, cc)
		if _, again := v.(retryLater); again {
			return
		}
		if pc, ok := v.(pushCall); ok {
			st.callFunc(pc.fn, pc.args, cc, reg)
			return
		}
		if reg >= 0 && v != nil {
			st.fr().regs[reg] = v
		}
		st.fr().ip++
		return
	}
	if m := st.r.E.model(name); m != nil {
		st.push(m, args, nil, reg)
		return
	}
	if why := blockedPkg(fv.Fn); why != "" {
		unsup("call of %s", name)
	}
	if h := st.r.stubCall(st, fv.Fn, args); h != nil {
		if reg >= 0 {
			st.fr().regs[reg] = h
		}
		st.fr().ip++
		return
	}
	st.push(fv.Fn, args, fv.Bind, reg)
}

type pushCall struct {
	fn   *Func
	args []Value
}

// ---- operators

func (st *State) unop(in *ssa.UnOp, x Value) Value {
	r := st.r
	switch in.Op {
	case token.MUL:
		p := st.ptr(x)
		return st.load(p)
	case token.NOT:
		return r.c.Not(x.(*smt.Term))
	case token.SUB:
		switch x := x.(type) {
		case *Flt:
			return r.fneg(x)
		case *smt.Term:
			if x.Sort.IsBV() {
				return r.c.BVNeg(x)
			}
			return r.wrap(r.c.Neg(x), in.Type())
		}
	case token.XOR:
		t := x.(*smt.Term)
		if t.Sort.IsBV() {
			return r.c.BVNot(t)
		}
		return r.wrap(r.c.Sub(r.c.IntC(-1), t), in.Type())
	}
	unsup("unary %v on %T", in.Op, x)
	return nil
}

// wrap reduces an Int-mode result to the range of its type.
func (r *Run) wrap(t *smt.Term, ty types.Type) *smt.Term {
	w, signed := intInfo(ty)
	c := r.c
	one := big.NewInt(1)
	m := new(big.Int).Lsh(one, uint(w))
	lo, hi := new(big.Int), new(big.Int).Sub(m, one)
	if signed {
		h := new(big.Int).Lsh(one, uint(w-1))
		lo = new(big.Int).Neg(h)
		hi = new(big.Int).Sub(h, one)
	}
	rl, rh := new(big.Rat).SetInt(lo), new(big.Rat).SetInt(hi)
	if t.Lo != nil && t.Hi != nil && t.Lo.Cmp(rl) >= 0 && t.Hi.Cmp(rh) <= 0 {
		return t
	}
	mod := c.IntModE(c.Sub(t, c.IntBig(lo)), c.IntBig(m))
	return c.Add(mod, c.IntBig(lo))
}

func (st *State) binop(op token.Token, x, y Value, xt, yt, rt types.Type) Value {
	r := st.r
	c := r.c
	switch op {
	case token.EQL:
		return st.eq(x, y, xt)
	case token.NEQ:
		return c.Not(st.eq(x, y, xt))
	}
	switch a := x.(type) {
	case *Flt:
		b := y.(*Flt)
		switch op {
		case token.ADD:
			return r.fadd(a, b)
		case token.SUB:
			return r.fsub(a, b)
		case token.MUL:
			return r.fmul(a, b)
		case token.QUO:
			return st.fdiv(a, b)
		case token.LSS:
			return r.flt(a, b)
		case token.LEQ:
			return r.fle(a, b)
		case token.GTR:
			return r.flt(b, a)
		case token.GEQ:
			return r.fle(b, a)
		}
	case *Str:
		b := y.(*Str)
		switch op {
		case token.ADD:
			return r.strCat(a, b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.B == nil && b.B == nil {
				switch op {
				case token.LSS:
					return c.Bool(a.S < b.S)
				case token.LEQ:
					return c.Bool(a.S <= b.S)
				case token.GTR:
					return c.Bool(a.S > b.S)
				}
				return c.Bool(a.S >= b.S)
			}
		}
	case *smt.Term:
		b := y.(*smt.Term)
		if a.Sort == smt.Bool {
			switch op {
			case token.AND, token.LAND:
				return c.And(a, b)
			case token.OR, token.LOR:
				return c.Or(a, b)
			case token.XOR:
				return c.Xor(a, b)
			}
		}
		if a.Sort.IsBV() {
			return st.bvop(op, a, b, xt, yt)
		}
		return st.intop(op, a, b, xt, rt)
	}
	unsup("binary %v on %T", op, x)
	return nil
}

func (st *State) bvop(op token.Token, a, b *smt.Term, xt, yt types.Type) Value {
	c := st.r.c
	w, signed := intInfo(xt)
	pick := func(s, u string) string {
		if signed {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return c.BVBin("bvadd", a, b)
	case token.SUB:
		return c.BVBin("bvsub", a, b)
	case token.MUL:
		return c.BVBin("bvmul", a, b)
	case token.QUO, token.REM:
		if st.branch(c.Eq(b, c.BVC(w, 0))) {
			st.throw("integer divide by zero")
		}
		if op == token.QUO {
			return c.BVBin(pick("bvsdiv", "bvudiv"), a, b)
		}
		return c.BVBin(pick("bvsrem", "bvurem"), a, b)
	case token.AND:
		return c.BVBin("bvand", a, b)
	case token.OR:
		return c.BVBin("bvor", a, b)
	case token.XOR:
		return c.BVBin("bvxor", a, b)
	case token.AND_NOT:
		return c.BVBin("bvand", a, c.BVNot(b))
	case token.SHL, token.SHR:
		bw, bs := intInfo(yt)
		if bs && st.branch(c.BVCmp("bvslt", b, c.BVC(bw, 0))) {
			st.throw("negative shift amount")
		}
		// saturate shift amount into width w
		big := c.BVCmp("bvule", c.BVC(bw, uint64(min(w, 1<<uint(min(bw, 30))-1))), b)
		sh := c.BVResize(b, w, false)
		sh = c.Ite(big, c.BVC(w, uint64(w)), sh)
		if w == 8 && bw > 8 || w < bw {
			sh = c.Ite(big, c.BVC(w, uint64(w)), c.BVResize(b, w, false))
		}
		if op == token.SHL {
			return c.BVBin("bvshl", a, sh)
		}
		return c.BVBin(pick("bvashr", "bvlshr"), a, sh)
	case token.LSS:
		return c.BVCmp(pick("bvslt", "bvult"), a, b)
	case token.LEQ:
		return c.BVCmp(pick("bvsle", "bvule"), a, b)
	case token.GTR:
		return c.BVCmp(pick("bvslt", "bvult"), b, a)
	case token.GEQ:
		return c.BVCmp(pick("bvsle", "bvule"), b, a)
	}
	unsup("bv op %v", op)
	return nil
}

func (st *State) intop(op token.Token, a, b *smt.Term, xt, rt types.Type) Value {
	r := st.r
	c := r.c
	zero := c.IntC(0)
	switch op {
	case token.ADD:
		return r.wrap(c.Add(a, b), rt)
	case token.SUB:
		return r.wrap(c.Sub(a, b), rt)
	case token.MUL:
		return r.wrap(c.Mul(a, b), rt)
	case token.QUO, token.REM:
		if st.branch(c.Eq(b, zero)) {
			st.throw("integer divide by zero")
		}
		// truncated division
		var q *smt.Term
		nonneg := func(t *smt.Term) bool { return t.Lo != nil && t.Lo.Sign() >= 0 }
		if nonneg(a) && nonneg(b) {
			if op == token.QUO {
				return c.IntDivE(a, b)
			}
			return c.IntModE(a, b)
		}
		absb := c.Ite(c.Lt(b, zero), c.Neg(b), b)
		absa := c.Ite(c.Lt(a, zero), c.Neg(a), a)
		q = c.IntDivE(absa, absb)
		if op == token.QUO {
			neg := c.Xor(c.Lt(a, zero), c.Lt(b, zero))
			return r.wrap(c.Ite(neg, c.Neg(q), q), rt)
		}
		m := c.IntModE(absa, absb)
		return c.Ite(c.Lt(a, zero), c.Neg(m), m)
	case token.LSS:
		return c.Lt(a, b)
	case token.LEQ:
		return c.Le(a, b)
	case token.GTR:
		return c.Lt(b, a)
	case token.GEQ:
		return c.Le(b, a)
	case token.SHL, token.SHR:
		n := st.concInt(b)
		if n < 0 {
			st.throw("negative shift amount")
		}
		if n > 64 {
			n = 64
		}
		p := c.IntBig(new(big.Int).Lsh(big.NewInt(1), uint(n)))
		if op == token.SHL {
			return r.wrap(c.Mul(a, p), rt)
		}
		return c.IntDivE(a, p) // floor = arithmetic shift
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if a.IsConst() && b.IsConst() {
			z := new(big.Int)
			switch op {
			case token.AND:
				z.And(a.R.Num(), b.R.Num())
			case token.OR:
				z.Or(a.R.Num(), b.R.Num())
			case token.XOR:
				z.Xor(a.R.Num(), b.R.Num())
			case token.AND_NOT:
				z.AndNot(a.R.Num(), b.R.Num())
			}
			return r.wrap(c.IntBig(z), rt)
		}
		if op == token.AND {
			if a.IsConst() {
				a, b = b, a
			}
			if b.IsConst() {
				m := new(big.Int).Add(b.R.Num(), big.NewInt(1))
				if b.R.Sign() >= 0 && new(big.Int).And(m, b.R.Num()).Sign() == 0 {
					return c.IntModE(a, c.IntBig(m))
				}
			}
		}
		if op == token.OR { // disjoint bits: x<<k | y with y < 2^k
			if v := st.orDisjoint(a, b); v != nil {
				return r.wrap(v, rt)
			}
		}
		w, signed := intInfo(xt)
		_ = signed
		// go through bit-vectors
		f := func(t *smt.Term) *smt.Term { return c.App(fmt.Sprintf("(_ int2bv %d)", w), smt.BV(w), t) }
		var bv *smt.Term
		switch op {
		case token.AND:
			bv = c.BVBin("bvand", f(a), f(b))
		case token.OR:
			bv = c.BVBin("bvor", f(a), f(b))
		case token.XOR:
			bv = c.BVBin("bvxor", f(a), f(b))
		default:
			bv = c.BVBin("bvand", f(a), c.BVNot(f(b)))
		}
		n := c.App("bv2nat", smt.Int, bv)
		n.Lo = new(big.Rat)
		n.Hi = new(big.Rat).SetInt(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)))
		return r.wrap(n, rt)
	}
	unsup("int op %v", op)
	return nil
}

func (st *State) orDisjoint(a, b *smt.Term) *smt.Term {
	c := st.r.c
	try := func(a, b *smt.Term) *smt.Term {
		// a = k*2^n * t, b in [0,2^n)
		if a.Op == "*" && a.Args[0].IsConst() && b.Lo != nil && b.Hi != nil && b.Lo.Sign() >= 0 {
			k := a.Args[0].R.Num()
			tz := k.TrailingZeroBits()
			lim := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), tz))
			if k.Sign() > 0 && b.Hi.Cmp(lim) < 0 {
				return c.Add(a, b)
			}
		}
		if a.IsConst() && a.R.Sign() == 0 {
			return b
		}
		return nil
	}
	if v := try(a, b); v != nil {
		return v
	}
	return try(b, a)
}

// eq is Go's == on two values of static type t.
func (st *State) eq(x, y Value, t types.Type) *smt.Term {
	r := st.r
	c := r.c
	switch a := x.(type) {
	case *smt.Term:
		return c.Eq(a, y.(*smt.Term))
	case *Flt:
		return r.feq(a, y.(*Flt))
	case *Str:
		b, ok := y.(*Str)
		if !ok {
			unsup("string compared with %T", y)
		}
		return r.strEq(a, b)
	case *Ptr:
		b, ok := y.(*Ptr)
		if !ok {
			unsup("pointer compared with %T", y)
		}
		return c.Bool(ptrEq(a, b))
	case *Slice:
		b := y.(*Slice)
		if a.Arr != nil && b.Arr != nil {
			unsup("slice comparison")
		}
		return c.Bool(a.Arr == nil && b.Arr == nil)
	case *MapV:
		return c.Bool(a.Obj == y.(*MapV).Obj)
	case *ChanV:
		return c.Bool(a.Obj == y.(*ChanV).Obj)
	case *Func:
		b := y.(*Func)
		an := a.Fn == nil && a.Intr == ""
		bn := b.Fn == nil && b.Intr == ""
		return c.Bool(an && bn)
	case *Iface:
		b, ok := y.(*Iface)
		if !ok {
			unsup("interface compared with %T", y)
		}
		if a.T == nil || b.T == nil {
			return c.Bool(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return c.False
		}
		if !types.Comparable(a.T) {
			st.throw("comparing uncomparable type " + a.T.String())
		}
		return st.eq(a.V, b.V, a.T)
	case *Struct:
		b := y.(*Struct)
		var ts []*smt.Term
		su := t.Underlying().(*types.Struct)
		for i := range a.F {
			ts = append(ts, st.eq(a.F[i], b.F[i], su.Field(i).Type()))
		}
		return c.And(ts...)
	case *Array:
		b := y.(*Array)
		et := t.Underlying().(*types.Array).Elem()
		var ts []*smt.Term
		for i := 0; i < a.N; i++ {
			ts = append(ts, st.eq(a.Get(i), b.Get(i), et))
		}
		return c.And(ts...)
	case Opaque:
		if b, ok := y.(Opaque); ok {
			return c.Bool(a == b)
		}
		return c.False
	}
	unsup("== on %T", x)
	return nil
}

// ---- strings

func (st *State) strByte(s *Str, i int) *smt.Term {
	if s.B != nil {
		return s.B[i]
	}
	return st.r.byteConst(s.S[i])
}

func (r *Run) byteConst(b byte) *smt.Term {
	if r.FPMode {
		return r.c.BVC(8, uint64(b))
	}
	return r.c.IntC(int64(b))
}

func (r *Run) strBytes(s *Str) []*smt.Term {
	if s.B != nil {
		return s.B
	}
	out := make([]*smt.Term, len(s.S))
	for i := range out {
		out[i] = r.byteConst(s.S[i])
	}
	return out
}

func (r *Run) mkStr(b []*smt.Term) *Str {
	raw := make([]byte, len(b))
	for i, t := range b {
		if !t.IsConst() {
			return &Str{B: append([]*smt.Term{}, b...)}
		}
		if t.Sort.IsBV() {
			raw[i] = byte(t.U)
		} else {
			raw[i] = byte(t.R.Num().Int64())
		}
	}
	return &Str{S: string(raw)}
}

func (r *Run) strCat(a, b *Str) *Str {
	if a.B == nil && b.B == nil {
		return &Str{S: a.S + b.S}
	}
	return r.mkStr(append(append([]*smt.Term{}, r.strBytes(a)...), r.strBytes(b)...))
}

func (r *Run) strEq(a, b *Str) *smt.Term {
	if a.Len() != b.Len() {
		return r.c.False
	}
	if a.B == nil && b.B == nil {
		return r.c.Bool(a.S == b.S)
	}
	x, y := r.strBytes(a), r.strBytes(b)
	var ts []*smt.Term
	for i := range x {
		ts = append(ts, r.c.Eq(x[i], y[i]))
	}
	return r.c.And(ts...)
}

// ---- slices

func (st *State) sliceOp(f *Frame, in *ssa.Slice) Value {
	x := st.get(f, in.X)
	r := st.r
	optInt := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		return int(st.concInt(st.get(f, v).(*smt.Term)))
	}
	switch x := x.(type) {
	case *Str:
		lo := optInt(in.Low, 0)
		hi := optInt(in.High, x.Len())
		if lo < 0 || hi < lo || hi > x.Len() {
			st.throw(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, x.Len()))
		}
		if x.B == nil {
			return &Str{S: x.S[lo:hi]}
		}
		return r.mkStr(x.B[lo:hi])
	case *Slice:
		lo := optInt(in.Low, 0)
		hi := optInt(in.High, x.Len)
		mx := optInt(in.Max, x.Cap)
		if lo < 0 || hi < lo || mx < hi || mx > x.Cap {
			st.throw(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, x.Cap))
		}
		if x.Arr == nil {
			return &Slice{}
		}
		return &Slice{Arr: x.Arr, Off: x.Off + lo, Len: hi - lo, Cap: mx - lo}
	case *Ptr:
		if x.Obj == 0 {
			st.throw("nil pointer dereference")
		}
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(at.Len())
		lo := optInt(in.Low, 0)
		hi := optInt(in.High, n)
		mx := optInt(in.Max, n)
		if lo < 0 || hi < lo || mx < hi || mx > n {
			st.throw("slice bounds out of range")
		}
		return &Slice{Arr: x, Off: lo, Len: hi - lo, Cap: mx - lo}
	}
	unsup("slice of %T", x)
	return nil
}

// ---- maps

func (st *State) mapFind(m *MapV, key Value, mt types.Type) (int, *MapObj) {
	if m.Obj == 0 {
		return -1, nil
	}
	v, _ := st.mem.Get(m.Obj)
	mo := v.(*MapObj)
	kt := mt.Underlying().(*types.Map).Key()
	for i, e := range mo.Ents {
		if st.branch(st.eq(e.K, key, kt)) {
			return i, mo
		}
	}
	return -1, mo
}

func (st *State) mapUpdate(m *MapV, k, v Value, mt types.Type) {
	if m.Obj == 0 {
		st.throw("assignment to entry in nil map")
	}
	st.access(&Ptr{Obj: m.Obj}, true)
	i, mo := st.mapFind(m, k, mt)
	n := &MapObj{Ents: append([]mapEntry(nil), mo.Ents...)}
	if i >= 0 {
		n.Ents[i].V = v
	} else {
		n.Ents = append(n.Ents, mapEntry{k, v})
	}
	st.mem = st.mem.Set(m.Obj, n)
}

func (st *State) lookup(f *Frame, in *ssa.Lookup) {
	x := st.get(f, in.X)
	switch x := x.(type) {
	case *Str:
		i := st.index(st.get(f, in.Index), x.Len())
		st.set(f, in, st.strByte(x, i))
	case *MapV:
		if x.Obj != 0 {
			st.access(&Ptr{Obj: x.Obj}, false)
		}
		i, mo := st.mapFind(x, st.get(f, in.Index), in.X.Type())
		var v Value
		if i >= 0 {
			v = mo.Ents[i].V
		} else {
			v = st.r.zeroOf(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			st.set(f, in, &Tuple{[]Value{v, st.r.c.Bool(i >= 0)}})
		} else {
			st.set(f, in, v)
		}
	default:
		unsup("lookup in %T", x)
	}
}

func (st *State) next(f *Frame, in *ssa.Next) {
	r := st.r
	p := st.get(f, in.Iter).(*Ptr)
	v, _ := st.mem.Get(p.Obj)
	it := *(v.(*iterV))
	if it.Str != nil {
		if it.Str.B != nil {
			// symbolic bytes: require ASCII
			if it.Pos >= len(it.Str.B) {
				st.set(f, in, &Tuple{[]Value{r.c.False, r.mkInt(0), r.intConst(types.Typ[types.Int32], 0)}})
				return
			}
			b := it.Str.B[it.Pos]
			var ascii, wide *smt.Term
			if b.Sort.IsBV() {
				ascii = r.c.BVCmp("bvult", b, r.c.BVC(8, 128))
				wide = r.c.BVResize(b, 32, false)
			} else {
				ascii = r.c.Lt(b, r.c.IntC(128))
				wide = b
			}
			if !st.branch(ascii) {
				unsup("non-ASCII symbolic string iteration")
			}
			st.set(f, in, &Tuple{[]Value{r.c.True, r.mkInt(it.Pos), wide}})
			it.Pos++
			st.mem = st.mem.Set(p.Obj, &it)
			return
		}
		s := it.Str.S
		if it.Pos >= len(s) {
			st.set(f, in, &Tuple{[]Value{r.c.False, r.mkInt(0), r.intConst(types.Typ[types.Int32], 0)}})
			return
		}
		ch, n := utf8.DecodeRuneInString(s[it.Pos:])
		st.set(f, in, &Tuple{[]Value{r.c.True, r.mkInt(it.Pos), r.intConst(types.Typ[types.Int32], int64(ch))}})
		it.Pos += n
		st.mem = st.mem.Set(p.Obj, &it)
		return
	}
	tt := in.Type().(*types.Tuple)
	if it.M.Obj != 0 {
		mv, _ := st.mem.Get(it.M.Obj)
		mo := mv.(*MapObj)
		for it.Pos < len(it.Ks) {
			k := it.Ks[it.Pos]
			it.Pos++
			for _, e := range mo.Ents {
				if e.K == k {
					st.set(f, in, &Tuple{[]Value{r.c.True, e.K, e.V}})
					st.mem = st.mem.Set(p.Obj, &it)
					return
				}
			}
		}
	}
	z := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return r.zeroOf(t)
	}
	st.set(f, in, &Tuple{[]Value{r.c.False, z(1), z(2)}})
}

// ---- type assertions

func (st *State) typeAssert(f *Frame, in *ssa.TypeAssert) {
	r := st.r
	x, ok := st.get(f, in.X).(*Iface)
	if !ok {
		unsup("type assertion on %T", st.get(f, in.X))
	}
	good := false
	var v Value
	if x.T != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if x.T == r.E.runtimeErr || isOpaque(x.V) {
				good = it.NumMethods() == 0 || (it.NumMethods() == 1 && it.Method(0).Name() == "Error")
			} else {
				good = types.Implements(x.T, it)
			}
			v = x
		} else {
			good = types.Identical(x.T, in.AssertedType)
			v = x.V
		}
	}
	if !good {
		if in.CommaOk {
			st.set(f, in, &Tuple{[]Value{r.zeroOf(in.AssertedType), r.c.False}})
			return
		}
		st.throw(fmt.Sprintf("interface conversion: not %v", in.AssertedType))
	}
	if in.CommaOk {
		st.set(f, in, &Tuple{[]Value{v, r.c.True}})
		return
	}
	st.set(f, in, v)
}

// ---- conversions

func (st *State) convert(v Value, from, to types.Type) Value {
	r := st.r
	c := r.c
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			t := v.(*smt.Term)
			_, fs := intInfo(fb)
			w, _ := intInfo(tb)
			if t.Sort.IsBV() {
				return c.BVResize(t, w, fs)
			}
			return r.wrap(t, tb)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			t := v.(*smt.Term)
			w := fltWidth(tb)
			if t.Sort.IsBV() {
				_, fs := intInfo(fb)
				s := smt.FP64
				if w == 32 {
					s = smt.FP32
				}
				return &Flt{W: w, FP: c.BVToFP(t, fs, s)}
			}
			return r.fltReal(w, c.ToReal(t))
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return r.fconv(v.(*Flt), fltWidth(tb))
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return st.floatToInt(v.(*Flt), tb)
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			n := st.concInt(v.(*smt.Term))
			return &Str{S: string(rune(n))}
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
			return v
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			s := v.(*Str)
			eb := sl.Elem().Underlying().(*types.Basic)
			var vals []Value
			if eb.Kind() == types.Uint8 {
				for _, b := range r.strBytes(s) {
					vals = append(vals, b)
				}
			} else {
				if s.B != nil {
					unsup("[]rune of symbolic string")
				}
				for _, ch := range s.S {
					vals = append(vals, r.intConst(types.Typ[types.Int32], int64(ch)))
				}
			}
			return st.makeSlice(vals, r.zeroOf(sl.Elem()), len(vals))
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := fu.(*types.Slice); ok {
			s := v.(*Slice)
			vals := st.sliceVals(s)
			eb := sl.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				bs := make([]*smt.Term, len(vals))
				for i, x := range vals {
					bs[i] = x.(*smt.Term)
				}
				return r.mkStr(bs)
			}
			var rs []rune
			for _, x := range vals {
				rs = append(rs, rune(st.concInt(x.(*smt.Term))))
			}
			return &Str{S: string(rs)}
		}
	}
	switch tu.(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Struct, *types.Array:
		return v
	}
	if tok && tb.Kind() == types.UnsafePointer {
		return v
	}
	unsup("conversion %v -> %v", from, to)
	return nil
}

func (r *Run) fconv(x *Flt, w int) *Flt {
	c := r.c
	if x.FP != nil {
		s := smt.FP64
		if w == 32 {
			s = smt.FP32
		}
		return &Flt{W: w, FP: c.FPToFP(x.FP, s)}
	}
	if x.W == w {
		return x
	}
	if f, ok := x.isConst(); ok {
		return r.fltConst(w, f)
	}
	y := *x
	y.W = w
	return &y
}

func (st *State) floatToInt(x *Flt, tb *types.Basic) Value {
	r := st.r
	c := r.c
	w, signed := intInfo(tb)
	if x.FP != nil {
		// Go on amd64 converts via int64; for small unsigned types the low bits.
		if w < 64 {
			return c.BVResize(c.FPToBV(x.FP, 64, true), w, true)
		}
		return c.FPToBV(x.FP, w, signed)
	}
	bad := st.simp(c.Or(x.NaN, x.Inf))
	v := x.V
	fl := c.ToInt(v)
	t := fl
	if v.Lo == nil || v.Lo.Sign() < 0 {
		t = c.Ite(c.Le(r.zero, v), fl, c.Neg(c.ToInt(c.Neg(v))))
	}
	if !bad.IsFalse() {
		// NaN/Inf conversion: implementation-defined; amd64 gives the minimum int64
		t = c.Ite(bad, c.IntC(-1<<63), t)
		return r.wrapConv(t, w, signed)
	}
	return r.wrapConv(t, w, signed)
}

func (r *Run) wrapConv(t *smt.Term, w int, signed bool) *smt.Term {
	names := map[int][2]types.BasicKind{8: {types.Uint8, types.Int8}, 16: {types.Uint16, types.Int16}, 32: {types.Uint32, types.Int32}, 64: {types.Uint64, types.Int64}}
	k := names[w][0]
	if signed {
		k = names[w][1]
	}
	return r.wrap(t, types.Typ[k])
}
