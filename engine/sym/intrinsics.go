package sym

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/rand"
	"path"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"vengine/smt"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(st *State, a []Value, cc *ssa.CallCommon) Value

var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{}
	initVF()
	initMath()
	initStd()
}

// ---- builtins

func (st *State) builtinOrIntr(name string, fv *Func, args []Value, cc *ssa.CallCommon, reg int) {
	r := st.r
	done := func(v Value) {
		if reg >= 0 && v != nil {
			st.fr().regs[reg] = v
		}
		if reg != -1 {
			st.fr().ip++
		}
	}
	if strings.HasPrefix(name, "opaque.") {
		switch name {
		case "opaque.Error", "opaque.String":
			if s, ok := args[0].(*Str); ok {
				done(s)
				return
			}
			done(&Str{S: "<opaque error>"})
			return
		}
		unsup("method %s on opaque value", name)
	}
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Slice:
			done(r.mkInt(x.Len))
		case *Str:
			done(r.mkInt(x.Len()))
		case *Array:
			done(r.mkInt(x.N))
		case *Ptr:
			at := cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			done(r.mkInt(int(at.Len())))
		case *MapV:
			n := 0
			if x.Obj != 0 {
				v, _ := st.mem.Get(x.Obj)
				n = len(v.(*MapObj).Ents)
			}
			done(r.mkInt(n))
		case *ChanV:
			n := 0
			if x.Obj != 0 {
				n = len(st.chanObj(x).Buf)
			}
			done(r.mkInt(n))
		default:
			unsup("len of %T", x)
		}
	case "cap":
		switch x := args[0].(type) {
		case *Slice:
			done(r.mkInt(x.Cap))
		case *Array:
			done(r.mkInt(x.N))
		case *ChanV:
			done(r.mkInt(st.chanObj(x).Cap))
		default:
			unsup("cap of %T", x)
		}
	case "append":
		done(st.appendOp(args, cc))
	case "copy":
		dst := args[0].(*Slice)
		var src []Value
		switch s := args[1].(type) {
		case *Slice:
			src = st.sliceVals(s)
		case *Str:
			for _, b := range r.strBytes(s) {
				src = append(src, b)
			}
		}
		n := min(dst.Len, len(src))
		if n > 0 {
			arr := st.load(dst.Arr).(*Array)
			m := arr.M
			for i := 0; i < n; i++ {
				m = m.Set(dst.Off+i, src[i])
			}
			st.accessRange(dst, n)
			st.rawStore(dst.Arr, &Array{arr.N, arr.Def, m})
		}
		done(r.mkInt(n))
	case "delete":
		m := args[0].(*MapV)
		i, mo := st.mapFind(m, args[1], cc.Args[0].Type())
		if i >= 0 {
			n := &MapObj{Ents: append(append([]mapEntry(nil), mo.Ents[:i]...), mo.Ents[i+1:]...)}
			st.mem = st.mem.Set(m.Obj, n)
		}
		done(nil)
	case "panic":
		panic(throwSignal{args[0], "panic: " + st.panicText(args[0])})
	case "recover":
		// valid if called directly by a deferred function of a panicking frame
		t := st.th()
		res := Value(&Iface{})
		if n := len(t.frames); n >= 2 && t.pan != nil {
			me, caller := t.frames[n-1], t.frames[n-2]
			if me.isDefer && caller.unwinding && !caller.recovered && !t.pan.exit {
				v := t.pan.val
				if i, ok := v.(*Iface); ok {
					res = i
				} else {
					res = &Iface{T: r.E.runtimeErr, V: v}
				}
				caller.recovered = true
			}
		}
		done(res)
	case "close":
		st.syncPoint()
		st.closeChan(args[0])
		done(nil)
	case "print", "println":
		done(nil)
	case "min", "max":
		v := args[0]
		for _, b := range args[1:] {
			switch x := v.(type) {
			case *Flt:
				v = r.fminmax(name == "min", x, b.(*Flt))
			case *smt.Term:
				y := b.(*smt.Term)
				_, signed := intInfo(cc.Args[0].Type())
				var lt *smt.Term
				switch {
				case x.Sort.IsBV() && signed:
					lt = r.c.BVCmp("bvslt", x, y)
				case x.Sort.IsBV():
					lt = r.c.BVCmp("bvult", x, y)
				default:
					lt = r.c.Lt(x, y)
				}
				if name == "max" {
					lt = r.c.Not(lt)
				}
				v = r.c.Ite(lt, x, y)
			default:
				unsup("min of %T", v)
			}
		}
		done(v)
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			st.mem = st.mem.Set(x.Obj, &MapObj{})
		default:
			unsup("clear")
		}
		done(nil)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Ptr); ok && p.Obj == 0 {
			st.throw("nil pointer dereference (value method through nil pointer)")
		}
		done(args[0])
	case "String", "Slice", "SliceData", "StringData", "Add":
		st.unsafeOp(name, args, cc, done)
	default:
		unsup("builtin %s", name)
	}
}

func (st *State) unsafeOp(name string, args []Value, cc *ssa.CallCommon, done func(Value)) {
	switch name {
	case "SliceData":
		s := args[0].(*Slice)
		if s.Arr == nil {
			done(&Ptr{})
			return
		}
		done(s.Arr.sub(s.Off))
	case "String":
		p := args[0].(*Ptr)
		n := int(st.concInt(args[1].(*smt.Term)))
		if n == 0 {
			done(&Str{})
			return
		}
		arr := st.load(&Ptr{p.Obj, p.Path[:len(p.Path)-1]}).(*Array)
		off := p.Path[len(p.Path)-1]
		bs := make([]*smt.Term, n)
		for i := range bs {
			bs[i] = arr.Get(off + i).(*smt.Term)
		}
		done(st.r.mkStr(bs))
	default:
		unsup("unsafe.%s", name)
	}
}

func (st *State) rawStore(p *Ptr, x Value) {
	v, _ := st.mem.Get(p.Obj)
	st.mem = st.mem.Set(p.Obj, update(v, p.Path, x))
}

func (st *State) accessRange(s *Slice, n int) {
	if len(st.ths) < 2 {
		return
	}
	for i := 0; i < n; i++ {
		st.access(st.sliceElem(s, i), true)
	}
}

func (st *State) appendOp(args []Value, cc *ssa.CallCommon) Value {
	r := st.r
	s := args[0].(*Slice)
	var add []Value
	switch x := args[1].(type) {
	case *Slice:
		add = st.sliceVals(x)
	case *Str:
		for _, b := range r.strBytes(x) {
			add = append(add, b)
		}
	}
	if len(add) == 0 {
		return s
	}
	n := s.Len + len(add)
	if n <= s.Cap {
		arr := st.load(s.Arr).(*Array)
		m := arr.M
		for i, v := range add {
			m = m.Set(s.Off+s.Len+i, v)
		}
		st.accessRange(&Slice{Arr: s.Arr, Off: s.Off + s.Len, Len: len(add), Cap: s.Cap - s.Len}, len(add))
		st.rawStore(s.Arr, &Array{arr.N, arr.Def, m})
		o := &Slice{Arr: s.Arr, Off: s.Off, Len: n, Cap: s.Cap}
		return o
	}
	nc := n
	if 2*s.Cap > nc {
		nc = 2 * s.Cap // growth policy is unspecified in Go; doubling
	}
	def := r.zeroOf(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
	return st.makeSlice(append(append([]Value(nil), st.sliceVals(s)...), add...), def, nc).withLen(n)
}

func (s *Slice) withLen(n int) *Slice { s.Len = n; return s }

// ---- helpers

func cstr(v Value) string {
	s, ok := v.(*Str)
	if !ok {
		unsup("string expected, have %T", v)
	}
	if s.B != nil {
		unsup("symbolic string where a concrete one is needed")
	}
	return s.S
}

func cflt(v Value) float64 {
	f, ok := v.(*Flt).isConst()
	if !ok {
		unsup("symbolic float where a constant is needed")
	}
	return f
}

func cint(st *State, v Value) int64 { return st.concInt(v.(*smt.Term)) }

// ---- the vf harness library

func initVF() {
	const p = "vh/vf."
	def := func(n string, f intrinsic) { intrinsics[p+n] = f }
	def("Float", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		return st.inputFloat(cstr(a[0]), cflt(a[1]), cflt(a[2]), "float")
	})
	def("Float32", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		if !r.FPMode {
			return r.fconv(st.inputFloat(cstr(a[0]), cflt(a[1]), cflt(a[2]), "float"), 32)
		}
		return st.inputFP(cstr(a[0]), 32)
	})
	def("Angle", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		return st.inputFloat(cstr(a[0]), -3.14159, 3.14159, "angle")
	})
	def("FloatAny", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		name := cstr(a[0])
		if r.FPMode {
			return st.inputFP(name, 64)
		}
		c := r.c
		v := c.Var(name, smt.Real)
		n, i, g := c.Var(name+".nan", smt.Bool), c.Var(name+".inf", smt.Bool), c.Var(name+".neg", smt.Bool)
		st.addInput(Input{Name: name, Kind: "any", T: v, NaN: n, Inf: i, Neg: g})
		return &Flt{W: 64, NaN: n, Inf: i, V: v, neg: func() *smt.Term { return g }}
	})
	def("Int", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		name := cstr(a[0])
		lo, hi := cint(st, a[1]), cint(st, a[2])
		c := r.c
		if lo == hi {
			return r.mkInt(int(lo))
		}
		if r.FPMode {
			v := st.inputVar(name, fmt.Sprint(lo, "..", hi), smt.BV(64))
			if st.addInput(Input{Name: name, Kind: "int", T: v}) {
				v.Defs = append(v.Defs, c.BVCmp("bvsle", c.BVC(64, uint64(lo)), v), c.BVCmp("bvsle", v, c.BVC(64, uint64(hi))))
			}
			return v
		}
		v := st.inputVar(name, fmt.Sprint(lo, "..", hi), smt.Int)
		if st.addInput(Input{Name: name, Kind: "int", T: v}) {
			v.Lo, v.Hi = new(big.Rat).SetInt64(lo), new(big.Rat).SetInt64(hi)
			v.Defs = append(v.Defs, c.App("<=", smt.Bool, c.IntC(lo), v), c.App("<=", smt.Bool, v, c.IntC(hi)))
		}
		return v
	})
	def("Bool", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		name := cstr(a[0])
		v := r.c.Var(name, smt.Bool)
		st.addInput(Input{Name: name, Kind: "bool", T: v})
		return v
	})
	def("Byte", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		name := cstr(a[0])
		c := r.c
		if r.FPMode {
			v := c.Var(name, smt.BV(8))
			st.addInput(Input{Name: name, Kind: "byte", T: v})
			return v
		}
		v := c.Var(name, smt.Int)
		if st.addInput(Input{Name: name, Kind: "byte", T: v}) {
			v.Lo, v.Hi = new(big.Rat), big.NewRat(255, 1)
			v.Defs = append(v.Defs, c.App("<=", smt.Bool, c.IntC(0), v), c.App("<=", smt.Bool, v, c.IntC(255)))
		}
		return v
	})
	def("Unit3", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		name := cstr(a[0])
		if r.FPMode {
			unsup("Unit3 in FP mode")
		}
		c := r.c
		var out []Value
		var vs []*smt.Term
		sum := r.zero
		for _, s := range []string{".x", ".y", ".z"} {
			v := c.Var(name+s, smt.Real)
			vs = append(vs, v)
			v.Lo, v.Hi = big.NewRat(-1, 1), big.NewRat(1, 1)
			sum = c.Add(sum, c.Mul(v, v))
			out = append(out, r.fltReal(64, v))
		}
		if st.addInput(Input{Name: name, Kind: "unit3", T: vs[0], Parts: vs}) {
			d := c.App("=", smt.Bool, sum, c.RealC(ratOne))
			for _, v := range vs {
				v.Defs = append(v.Defs, d)
			}
		}
		return &Tuple{out}
	})
	def("Assume", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		st.assumeChecked(a[0].(*smt.Term))
		return nil
	})
	def("AssumeEq", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		st.assumeChecked(st.r.feq(a[0].(*Flt), a[1].(*Flt)))
		return nil
	})
	def("Assert", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		st.r.assertVC(st, a[0].(*smt.Term), cstr(a[1]))
		return nil
	})
	def("Eq", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		return r.eqTol(st, a[0].(*Flt), a[1].(*Flt))
	})
	def("Near", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		x, y, tol := a[0].(*Flt), a[1].(*Flt), a[2].(*Flt)
		d := r.fabs(r.fsub(x, y))
		t := r.c.Or(r.fle(d, tol), r.feq(x, y))
		r.setStrong(t, r.c.Or(r.fle(d, r.fmul(tol, r.fltConst(64, 1.5))), r.feq(x, y)))
		return t
	})
	def("Le", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		x, y := a[0].(*Flt), a[1].(*Flt)
		t := r.fle(x, y)
		r.setStrong(t, r.fle(x, r.fadd(y, r.fltConst(64, margin))))
		return t
	})
	def("Lt", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		x, y := a[0].(*Flt), a[1].(*Flt)
		t := r.flt(x, y)
		r.setStrong(t, r.flt(x, r.fadd(y, r.fltConst(64, margin))))
		return t
	})
	def("And", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		var ts, ss []*smt.Term
		for _, v := range st.sliceVals(a[0].(*Slice)) {
			ts = append(ts, v.(*smt.Term))
			ss = append(ss, r.weak(v.(*smt.Term)))
		}
		t := r.c.And(ts...)
		r.setStrong(t, r.c.And(ss...))
		return t
	})
	def("Or", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		var ts, ss []*smt.Term
		for _, v := range st.sliceVals(a[0].(*Slice)) {
			ts = append(ts, v.(*smt.Term))
			ss = append(ss, r.weak(v.(*smt.Term)))
		}
		t := r.c.Or(ts...)
		r.setStrong(t, r.c.Or(ss...))
		return t
	})
	def("Imp", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		g, x := a[0].(*smt.Term), a[1].(*smt.Term)
		t := r.c.Implies(g, x)
		r.setStrong(t, r.c.Implies(g, r.weak(x)))
		return t
	})
	def("IteF", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		return st.r.fite(a[0].(*smt.Term), a[1].(*Flt), a[2].(*Flt))
	})
	def("Finite", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		x := a[0].(*Flt)
		return r.c.And(r.c.Not(r.isNaN(x)), r.c.Not(r.isInf(x, 0)))
	})
	def("Observe", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		st.obs = append(st.obs[:len(st.obs):len(st.obs)], Obs{cstr(a[0]), a[1]})
		return nil
	})
	def("ObserveInt", intrinsics[p+"Observe"])
	def("ObserveBool", intrinsics[p+"Observe"])
	def("Reach", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		st.r.reached[cstr(a[0])]++
		return nil
	})
	def("Symbolic", func(st *State, a []Value, _ *ssa.CallCommon) Value { return st.r.c.True })
	def("Thorough", func(st *State, a []Value, _ *ssa.CallCommon) Value { return st.r.c.Bool(st.r.Thorough) })
	def("FltTok", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		x := a[0].(*Flt)
		if f, ok := x.isConst(); ok {
			return &Str{S: strconv.FormatFloat(f, 'g', -1, 64)}
		}
		return &Str{S: r.token(x)}
	})
	def("IntTok", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		x := a[0].(*smt.Term)
		x = st.simpNum(x)
		if x.IsConst() {
			return &Str{S: fmt.Sprint(st.concInt(x))}
		}
		return &Str{S: r.token(x)}
	})
	// vf.Conc forces a case split on an integer.
	def("Conc", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		return st.r.mkInt(int(cint(st, a[0])))
	})
	def("Yield", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		st.syncPoint()
		return nil
	})
	def("Swap", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		s := a[0].(*Iface).V.(*Slice)
		i, j := int(cint(st, a[1])), int(cint(st, a[2]))
		x, y := st.load(st.sliceElem(s, i)), st.load(st.sliceElem(s, j))
		st.store(st.sliceElem(s, i), y)
		st.store(st.sliceElem(s, j), x)
		return nil
	})
	def("SliceLen", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		return st.r.mkInt(a[0].(*Iface).V.(*Slice).Len)
	})
	def("Sprintf", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		return st.sprintf(cstr(a[0]), a[1])
	})
	def("Sprint", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		return st.sprint(a[0], false)
	})
	def("Sprintln", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		return st.sprint(a[0], true)
	})
}

const margin = 1e-3

func (st *State) assumeChecked(t *smt.Term) {
	t = st.simp(t)
	if t.IsTrue() {
		return
	}
	if t.IsFalse() || st.infeasible(t) {
		st.r.nAssumeKilled++
		panic(killSignal{"assume"})
	}
	st.assume(t)
}

func (r *Run) eqTol(st *State, a, b *Flt) *smt.Term {
	t := r.feq(a, b)
	if a.FP == nil && !t.IsConst() {
		d := r.fabs(r.fsub(a, b))
		r.setStrong(t, r.c.Or(t, r.fle(d, r.fltConst(64, margin))))
	}
	return t
}

func (r *Run) setStrong(t, weak *smt.Term) {
	if !t.IsConst() {
		r.weakOf[t] = weak
	}
}

// weak returns the tolerant version of an assertion term.
func (r *Run) weak(t *smt.Term) *smt.Term {
	if w, ok := r.weakOf[t]; ok {
		return w
	}
	return t
}

// inputVar returns the variable of an input. Paths that declare an input of the same name with other
// bounds have a variable of their own.
func (st *State) inputVar(name, bounds string, s smt.Sort) *smt.Term {
	for _, in := range st.ins {
		if in.Name == name {
			return in.T
		}
	}
	r := st.r
	if b, ok := r.inputBounds[name]; !ok {
		r.inputBounds[name] = bounds
	} else if b != bounds {
		return r.c.Var(name+"@"+bounds, s)
	}
	return r.c.Var(name, s)
}

// addInput records an input of the path; it reports whether its variable is a new one.
func (st *State) addInput(in Input) bool {
	r := st.r
	known := false
	for _, i := range st.ins {
		known = known || i.Name == in.Name
	}
	if !known {
		st.ins = append(st.ins[:len(st.ins):len(st.ins)], in)
	}
	if r.inputVars[in.T] {
		return false
	}
	r.inputVars[in.T] = true
	r.inputs = append(r.inputs, in)
	return true
}

func (st *State) inputFloat(name string, lo, hi float64, kind string) *Flt {
	r := st.r
	c := r.c
	if r.FPMode {
		v := st.inputVar(name, fmt.Sprint(lo, "..", hi), smt.FP64)
		if st.addInput(Input{Name: name, Kind: "float", T: v, Lo: math.Inf(-1), Hi: math.Inf(1)}) {
			v.Defs = append(v.Defs, c.FPCmp("fp.leq", c.FPC(smt.FP64, lo), v), c.FPCmp("fp.leq", v, c.FPC(smt.FP64, hi)))
		}
		return &Flt{W: 64, FP: v}
	}
	if lo == hi {
		return r.fltConst(64, lo)
	}
	v := st.inputVar(name, fmt.Sprint(lo, "..", hi), smt.Real)
	if st.addInput(Input{Name: name, Kind: kind, T: v, Lo: lo, Hi: hi}) {
		if !math.IsInf(lo, 0) {
			v.Lo = new(big.Rat).SetFloat64(lo)
			v.Defs = append(v.Defs, c.App("<=", smt.Bool, c.RealF(lo), v))
		}
		if !math.IsInf(hi, 0) {
			v.Hi = new(big.Rat).SetFloat64(hi)
			v.Defs = append(v.Defs, c.App("<=", smt.Bool, v, c.RealF(hi)))
		}
	}
	return r.fltReal(64, v)
}

func (st *State) inputFP(name string, w int) *Flt {
	s := smt.FP64
	if w == 32 {
		s = smt.FP32
	}
	v := st.r.c.Var(name, s)
	st.addInput(Input{Name: name, Kind: "float", T: v, Lo: math.Inf(-1), Hi: math.Inf(1)})
	return &Flt{W: w, FP: v}
}

// token returns a numeric text standing for a symbolic number.
func (r *Run) token(v Value) string {
	for i, t := range r.tokens {
		if t == v {
			return fmt.Sprintf("77000%05d", i)
		}
	}
	r.tokens = append(r.tokens, v)
	return fmt.Sprintf("77000%05d", len(r.tokens)-1)
}

func (r *Run) untoken(s string) (Value, bool, bool) {
	neg := false
	if strings.HasPrefix(s, "-") {
		neg = true
		s = s[1:]
	}
	if len(s) == 10 && strings.HasPrefix(s, "77000") {
		if i, err := strconv.Atoi(s[5:]); err == nil && i < len(r.tokens) {
			return r.tokens[i], neg, true
		}
	}
	return nil, false, false
}

// ---- math

func (r *Run) fminmax(isMin bool, a, b *Flt) *Flt {
	c := r.c
	if a.FP != nil {
		if x, ok := a.isConst(); ok {
			if y, ok := b.isConst(); ok {
				if isMin {
					return r.fltConst(a.W, math.Min(x, y))
				}
				return r.fltConst(a.W, math.Max(x, y))
			}
		}
		nan := c.Or(c.FPIs("fp.isNaN", a.FP), c.FPIs("fp.isNaN", b.FP))
		var pick *smt.Term
		if isMin {
			pick = c.Or(c.FPCmp("fp.lt", a.FP, b.FP), c.And(c.FPCmp("fp.eq", a.FP, b.FP), c.FPIs("fp.isNegative", a.FP)))
		} else {
			pick = c.Or(c.FPCmp("fp.lt", b.FP, a.FP), c.And(c.FPCmp("fp.eq", a.FP, b.FP), c.Not(c.FPIs("fp.isNegative", a.FP))))
		}
		// math.Min(-Inf,NaN) = -Inf, math.Max(+Inf,NaN)=+Inf
		inf := c.FPC(a.FP.Sort, math.Inf(1))
		if isMin {
			inf = c.FPC(a.FP.Sort, math.Inf(-1))
		}
		anyInf := c.Or(c.Eq(a.FP, inf), c.Eq(b.FP, inf))
		return &Flt{W: a.W, FP: c.Ite(anyInf, inf, c.Ite(nan, c.FPC(a.FP.Sort, math.NaN()), c.Ite(pick, a.FP, b.FP)))}
	}
	var pick *smt.Term
	if isMin {
		pick = r.flt(a, b)
	} else {
		pick = r.flt(b, a)
	}
	x := r.fite(pick, a, b)
	if a.NaN.IsFalse() && b.NaN.IsFalse() {
		return x
	}
	y := *x
	y.NaN = c.Or(a.NaN, b.NaN)
	return &y
}

func initMath() {
	def := func(n string, f intrinsic) { intrinsics["math."+n] = f }
	f1 := func(n string, f func(st *State, x *Flt) Value) {
		def(n, func(st *State, a []Value, _ *ssa.CallCommon) Value { return f(st, a[0].(*Flt)) })
	}
	f1("Sqrt", func(st *State, x *Flt) Value { return st.fsqrt(x) })
	f1("sqrt", func(st *State, x *Flt) Value { return st.fsqrt(x) })
	f1("Abs", func(st *State, x *Flt) Value { return st.r.fabs(x) })
	f1("Floor", func(st *State, x *Flt) Value { return st.r.fround("RTN", x) })
	f1("Ceil", func(st *State, x *Flt) Value { return st.r.fround("RTP", x) })
	f1("Trunc", func(st *State, x *Flt) Value { return st.r.fround("RTZ", x) })
	f1("Round", func(st *State, x *Flt) Value { return st.r.fround("RNA", x) })
	f1("IsNaN", func(st *State, x *Flt) Value { return st.r.isNaN(x) })
	def("IsInf", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		s := cint(st, a[1])
		return st.r.isInf(a[0].(*Flt), int(s))
	})
	def("Inf", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		return st.r.fltConst(64, math.Inf(int(cint(st, a[0]))))
	})
	def("NaN", func(st *State, a []Value, _ *ssa.CallCommon) Value { return st.r.fltConst(64, math.NaN()) })
	def("Min", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		return st.r.fminmax(true, a[0].(*Flt), a[1].(*Flt))
	})
	def("Max", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		return st.r.fminmax(false, a[0].(*Flt), a[1].(*Flt))
	})
	def("Modf", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		x := a[0].(*Flt)
		i := r.fround("RTZ", x)
		fr := r.fsub(x, i)
		if x.FP == nil && !r.finite(x) {
			// Modf(±Inf) = ±Inf, NaN
			fr = r.fite(x.Inf, r.fltConst(64, math.NaN()), fr)
		}
		if x.FP != nil {
			// Modf(±Inf) = ±Inf, NaN ; the sign of a zero fraction follows x
			fr = &Flt{W: 64, FP: r.c.Ite(r.c.FPIs("fp.isInfinite", x.FP), r.c.FPC(smt.FP64, math.NaN()), fr.FP)}
		}
		return &Tuple{[]Value{i, fr}}
	})
	def("Mod", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		x, y := a[0].(*Flt), a[1].(*Flt)
		if fx, ok := x.isConst(); ok {
			if fy, ok := y.isConst(); ok {
				return r.fltConst(64, math.Mod(fx, fy))
			}
		}
		if x.FP != nil {
			unsup("math.Mod in FP mode")
		}
		q := r.fround("RTZ", st.fdiv(x, y))
		return r.fsub(x, r.fmul(y, q))
	})
	def("Signbit", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		x := a[0].(*Flt)
		if x.FP != nil {
			return st.r.c.FPIs("fp.isNegative", x.FP)
		}
		return st.r.sign(x)
	})
	def("Copysign", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		x, s := a[0].(*Flt), a[1].(*Flt)
		ax := r.fabs(x)
		if x.FP != nil {
			return &Flt{W: 64, FP: r.c.Ite(r.c.FPIs("fp.isNegative", s.FP), r.c.FPNeg(ax.FP), ax.FP)}
		}
		return r.fite(r.sign(s), r.fneg(ax), ax)
	})
	def("Hypot", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		x, y := a[0].(*Flt), a[1].(*Flt)
		return st.fsqrt(r.fadd(r.fmul(x, x), r.fmul(y, y)))
	})
	def("FMA", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		if r.FPMode {
			unsup("FMA")
		}
		return r.fadd(r.fmul(a[0].(*Flt), a[1].(*Flt)), a[2].(*Flt))
	})
	tr := func(n string, nat func(float64) float64, f func(st *State, x *Flt) *Flt) {
		f1(n, func(st *State, x *Flt) Value {
			if v, ok := x.isConst(); ok {
				return st.r.fltConst(64, nat(v))
			}
			if x.FP != nil {
				return st.r.fpContract(n, x)
			}
			y := f(st, x)
			c := st.r.c
			y.NaN = c.Or(y.NaN, x.NaN, x.Inf)
			return y
		})
	}
	tr("Sin", math.Sin, func(st *State, x *Flt) *Flt {
		s, _ := st.r.sincos(st.simpNum(x.V))
		return st.r.fltReal(64, s)
	})
	tr("Cos", math.Cos, func(st *State, x *Flt) *Flt {
		_, c := st.r.sincos(st.simpNum(x.V))
		return st.r.fltReal(64, c)
	})
	tr("Tan", math.Tan, func(st *State, x *Flt) *Flt {
		s, c := st.r.sincos(st.simpNum(x.V))
		return st.fdiv(st.r.fltReal(64, s), st.r.fltReal(64, c))
	})
	def("Sincos", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		x := a[0].(*Flt)
		r := st.r
		if f, ok := x.isConst(); ok {
			s, c := math.Sincos(f)
			return &Tuple{[]Value{r.fltConst(64, s), r.fltConst(64, c)}}
		}
		s, c := r.sincos(st.simpNum(x.V))
		return &Tuple{[]Value{r.fltReal(64, s), r.fltReal(64, c)}}
	})
	half := math.Pi / 2
	invTrig := func(n string, nat func(float64) float64, lo, hi float64) {
		f1(n, func(st *State, x *Flt) Value {
			r := st.r
			c := r.c
			if v, ok := x.isConst(); ok {
				return r.fltConst(64, nat(v))
			}
			if x.FP != nil {
				return r.fpContract(n, x)
			}
			key, sg := c.PolyKey(x.V)
			y := c.Memo(fmt.Sprintf("%s:%d:%s", n, sg, key), n, smt.Real, func(y *smt.Term) {
				y.Lo, y.Hi = new(big.Rat).SetFloat64(lo), new(big.Rat).SetFloat64(hi)
				y.Defs = append(y.Defs, c.App("<=", smt.Bool, c.RealF(lo), y), c.App("<=", smt.Bool, y, c.RealF(hi)))
				var s, co *smt.Term
				one := c.RealC(ratOne)
				switch n {
				case "Asin":
					s = x.V
					co = r.sqrtT(c.Sub(one, c.Mul(s, s)))
				case "Acos":
					co = x.V
					s = r.sqrtT(c.Sub(one, c.Mul(co, co)))
				case "Atan":
					co = r.inv(r.sqrtT(c.Add(one, c.Mul(x.V, x.V))))
					s = c.Mul(co, x.V)
				}
				k, _ := c.PolyKey(y)
				r.sc[k] = &scPair{s: s, c: co, arg: y}
				if n != "Acos" {
					// odd and monotone through 0
					y.Defs = append(y.Defs, c.Eq(c.App("<=", smt.Bool, r.zero, y), c.Le(r.zero, x.V)),
						c.Eq(c.App("<=", smt.Bool, y, r.zero), c.Le(x.V, r.zero)))
					for _, g := range []float64{0.28, 0.5, 0.6, 0.8, 0.96, 1} {
						for _, g := range []float64{g, -g} {
							q, w := c.RealC(decimal(g)), c.RealF(nat(g))
							y.Defs = append(y.Defs, c.Eq(c.App("<=", smt.Bool, w, y), c.Le(q, x.V)),
								c.Eq(c.App("<=", smt.Bool, y, w), c.Le(x.V, q)))
						}
					}
				}
			})
			out := r.fltReal(64, y)
			one := c.RealC(ratOne)
			out.NaN = c.Or(x.NaN, x.Inf)
			if n != "Atan" {
				bad := st.settle(c.Or(c.Lt(one, x.V), c.Lt(x.V, c.Neg(one))))
				out.NaN = c.Or(x.NaN, x.Inf, bad)
			} else if !x.Inf.IsFalse() {
				unsup("Atan of possibly infinite value")
			}
			return out
		})
	}
	invTrig("Asin", math.Asin, -half, half)
	invTrig("Acos", math.Acos, 0, math.Pi)
	invTrig("Atan", math.Atan, -half, half)
	def("Atan2", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		c := r.c
		y, x := a[0].(*Flt), a[1].(*Flt)
		if fy, ok := y.isConst(); ok {
			if fx, ok := x.isConst(); ok {
				return r.fltConst(64, math.Atan2(fy, fx))
			}
		}
		if y.FP != nil {
			v := c.Memo(fmt.Sprintf("fpAtan2:%d:%d", y.FP.ID, x.FP.ID), "Atan2", smt.FP64, func(v *smt.Term) {
				bad := c.Or(c.FPIs("fp.isNaN", x.FP), c.FPIs("fp.isNaN", y.FP))
				v.Defs = append(v.Defs, c.Implies(c.Not(bad), c.And(c.FPCmp("fp.leq", c.FPC(smt.FP64, -math.Pi), v), c.FPCmp("fp.leq", v, c.FPC(smt.FP64, math.Pi)))),
					c.Implies(bad, c.FPIs("fp.isNaN", v)))
			})
			return &Flt{W: 64, FP: v}
		}
		if !r.finite(x) || !r.finite(y) {
			bad := st.settle(c.Or(x.Inf, y.Inf))
			if !bad.IsFalse() {
				unsup("Atan2 of possibly infinite value")
			}
		}
		ky, sy := c.PolyKey(y.V)
		kx, sx := c.PolyKey(x.V)
		v := c.Memo(fmt.Sprintf("atan2:%d:%s|%d:%s", sy, ky, sx, kx), "atan2", smt.Real, func(t *smt.Term) {
			pi := c.RealF(math.Pi)
			t.Lo, t.Hi = c.Neg(pi).R, pi.R
			t.Defs = append(t.Defs, c.App("<=", smt.Bool, c.Neg(pi), t), c.App("<=", smt.Bool, t, pi))
			hy := r.sqrtT(c.Add(c.Mul(x.V, x.V), c.Mul(y.V, y.V)))
			s, co := c.Mul(y.V, r.inv(hy)), c.Mul(x.V, r.inv(hy))
			if !st.simp(c.And(c.Eq(x.V, r.zero), c.Eq(y.V, r.zero))).IsFalse() {
				z := c.Eq(hy, r.zero)
				s, co = c.Ite(z, r.zero, s), c.Ite(z, c.RealC(ratOne), co)
			}
			k, _ := c.PolyKey(t)
			r.sc[k] = &scPair{s: s, c: co, arg: t}
			d := c.And(
				c.Implies(c.Lt(r.zero, y.V), c.And(c.Not(c.App("<=", smt.Bool, t, r.zero)), c.Not(c.App("<=", smt.Bool, pi, t)))),
				c.Implies(c.Lt(y.V, r.zero), c.And(c.Not(c.App("<=", smt.Bool, r.zero, t)), c.Not(c.App("<=", smt.Bool, t, c.Neg(pi))))),
				c.Implies(c.And(c.Eq(y.V, r.zero), c.Le(r.zero, x.V)), c.Eq(t, r.zero)),
				c.Implies(c.And(c.Eq(y.V, r.zero), c.Lt(x.V, r.zero)), c.Eq(t, pi)))
			t.Defs = append(t.Defs, d)
		})
		out := r.fltReal(64, v)
		out.NaN = c.Or(x.NaN, y.NaN)
		return out
	})
	tr("Exp", math.Exp, func(st *State, x *Flt) *Flt {
		r := st.r
		c := r.c
		e := r.expT(x.V)
		out := r.fltReal(64, e)
		if !x.Inf.IsFalse() {
			// exp(-Inf)=0, exp(+Inf)=+Inf
			out.V = c.Ite(c.And(x.Inf, x.neg()), r.zero, e)
			out.Inf = c.And(x.Inf, c.Not(x.neg()))
			// undo the NaN that tr adds for Inf
			y := *out
			return &y
		}
		return out
	})
	// Exp of infinities is fine: override tr's NaN rule.
	base := intrinsics["math.Exp"]
	def("Exp", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		x := a[0].(*Flt)
		v := base(st, a, cc).(*Flt)
		if x.FP == nil && !x.Inf.IsFalse() {
			y := *v
			y.NaN = x.NaN
			return &y
		}
		return v
	})
	tr("Log", math.Log, func(st *State, x *Flt) *Flt {
		r := st.r
		c := r.c
		l := r.logT(x.V)
		out := r.fltReal(64, l)
		zero := st.settle(c.Eq(x.V, r.zero))
		neg := st.settle(c.Lt(x.V, r.zero))
		out.NaN = neg
		out.Inf = zero
		out.neg = func() *smt.Term { return c.True }
		return out
	})
	def("Pow", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		return st.fpow(a[0].(*Flt), a[1].(*Flt))
	})
	f1("Cbrt", func(st *State, x *Flt) Value {
		if f, ok := x.isConst(); ok {
			return st.r.fltConst(64, math.Cbrt(f))
		}
		unsup("Cbrt")
		return nil
	})
	for n, nat := range map[string]func(float64) float64{"J1": math.J1, "Log2": math.Log2, "Log10": math.Log10, "Exp2": math.Exp2, "Sinh": math.Sinh, "Cosh": math.Cosh, "Tanh": math.Tanh, "Log1p": math.Log1p, "Expm1": math.Expm1, "Erf": math.Erf} {
		n, nat := n, nat
		f1(n, func(st *State, x *Flt) Value {
			if f, ok := x.isConst(); ok {
				return st.r.fltConst(64, nat(f))
			}
			if x.FP == nil {
				// uninterpreted, finite on finite arguments
				key, sg := st.r.c.PolyKey(x.V)
				v := st.r.c.Memo(fmt.Sprintf("%s:%d:%s", n, sg, key), n, smt.Real, nil)
				st.r.note("math.%s is treated as an arbitrary finite function", n)
				return st.r.fltReal(64, v)
			}
			unsup("math.%s", n)
			return nil
		})
	}
	def("Float64bits", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		f := cflt(a[0])
		b := math.Float64bits(f)
		if st.r.FPMode {
			return st.r.c.BVC(64, b)
		}
		return st.r.c.IntBig(new(big.Int).SetUint64(b))
	})
	def("Float64frombits", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		t := a[0].(*smt.Term)
		if t.Sort.IsBV() {
			return &Flt{W: 64, FP: st.r.c.BitsToFP(t)}
		}
		return st.r.fltConst(64, math.Float64frombits(t.R.Num().Uint64()))
	})
	def("Float32bits", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		x := a[0].(*Flt)
		c := st.r.c
		if x.FP != nil && !x.FP.IsConst() {
			b := c.Memo(fmt.Sprintf("f32bits:%d", x.FP.ID), "f32bits", smt.BV(32), func(v *smt.Term) {
				v.Defs = append(v.Defs, c.Eq(c.BitsToFP(v), x.FP))
			})
			return b
		}
		b := math.Float32bits(float32(cflt(a[0])))
		if st.r.FPMode {
			return c.BVC(32, uint64(b))
		}
		return c.IntC(int64(b))
	})
	def("Float32frombits", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		t := a[0].(*smt.Term)
		if t.Sort.IsBV() {
			return &Flt{W: 32, FP: st.r.c.BitsToFP(t)}
		}
		return st.r.fltConst(32, float64(math.Float32frombits(uint32(t.R.Num().Uint64()))))
	})
	def("Nextafter32", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		x, y := a[0].(*Flt), a[1].(*Flt)
		if fx, ok := x.isConst(); ok {
			if fy, ok := y.isConst(); ok {
				return r.fltConst(32, float64(math.Nextafter32(float32(fx), float32(fy))))
			}
		}
		if x.FP == nil {
			// real mode does not round float32: identity
			return x
		}
		c := r.c
		fy, ok := y.isConst()
		if !ok || !math.IsInf(fy, 0) {
			unsup("Nextafter32 toward a finite value")
		}
		up := fy > 0
		// smallest float strictly beyond x in the given direction, via bits
		b := c.Memo(fmt.Sprintf("f32bits:%d", x.FP.ID), "f32bits", smt.BV(32), func(v *smt.Term) {
			v.Defs = append(v.Defs, c.Eq(c.BitsToFP(v), x.FP))
		})
		neg := c.FPIs("fp.isNegative", x.FP)
		one := c.BVC(32, 1)
		inc, dec := c.BVBin("bvadd", b, one), c.BVBin("bvsub", b, one)
		away := neg // moving down from a negative number increases magnitude
		if up {
			away = c.Not(neg)
		}
		moved := c.BitsToFP(c.Ite(away, inc, dec))
		tiny := c.FPC(smt.FP32, float64(math.Float32frombits(1)))
		if !up {
			tiny = c.FPC(smt.FP32, -float64(math.Float32frombits(1)))
		}
		res := c.Ite(c.FPIs("fp.isZero", x.FP), tiny, moved)
		same := c.Or(c.FPIs("fp.isNaN", x.FP), c.Eq(x.FP, c.FPC(smt.FP32, fy)))
		return &Flt{W: 32, FP: c.Ite(same, x.FP, res)}
	})
}

// fpContract introduces an unconstrained-but-ranged FP result for a
// transcendental function.
func (r *Run) fpContract(n string, x *Flt) *Flt {
	c := r.c
	v := c.Memo(fmt.Sprintf("fp%s:%d", n, x.FP.ID), n, smt.FP64, func(v *smt.Term) {
		bad := c.Or(c.FPIs("fp.isNaN", x.FP), c.FPIs("fp.isInfinite", x.FP))
		rng := func(lo, hi float64) {
			v.Defs = append(v.Defs, c.Implies(c.Not(bad), c.And(c.FPCmp("fp.leq", c.FPC(smt.FP64, lo), v), c.FPCmp("fp.leq", v, c.FPC(smt.FP64, hi)))))
			v.Defs = append(v.Defs, c.Implies(bad, c.FPIs("fp.isNaN", v)))
		}
		switch n {
		case "Sin", "Cos":
			rng(-1, 1)
		case "Asin":
			one, mone := c.FPC(smt.FP64, 1), c.FPC(smt.FP64, -1)
			in := c.And(c.FPCmp("fp.leq", mone, x.FP), c.FPCmp("fp.leq", x.FP, one))
			v.Defs = append(v.Defs, c.Implies(in, c.And(c.FPCmp("fp.leq", c.FPC(smt.FP64, -math.Pi/2), v), c.FPCmp("fp.leq", v, c.FPC(smt.FP64, math.Pi/2)))),
				c.Implies(c.Not(in), c.FPIs("fp.isNaN", v)))
		default:
			unsup("math.%s in FP mode", n)
		}
	})
	return &Flt{W: 64, FP: v}
}

func (r *Run) expT(v *smt.Term) *smt.Term {
	c := r.c
	if v.IsConst() {
		f, _ := v.R.Float64()
		e := math.Exp(f)
		if !math.IsInf(e, 0) {
			return c.RealF(e)
		}
	}
	key, sg := c.PolyKey(v)
	return c.Memo(fmt.Sprintf("exp:%d:%s", sg, key), "exp", smt.Real, func(e *smt.Term) {
		one := c.RealC(ratOne)
		e.Lo = new(big.Rat)
		lt := func(a, b *smt.Term) *smt.Term { return c.Not(c.App("<=", smt.Bool, b, a)) }
		e.Defs = append(e.Defs, lt(r.zero, e),
			c.App("<=", smt.Bool, c.Add(one, v), e),
			c.Eq(c.App("<=", smt.Bool, e, one), c.Le(v, r.zero)),
			c.Eq(c.App("<=", smt.Bool, one, e), c.Le(r.zero, v)))
		for _, o := range r.exps {
			e.Defs = append(e.Defs, c.Eq(c.Le(v, o[0]), c.App("<=", smt.Bool, e, o[1])),
				c.Eq(c.Le(o[0], v), c.App("<=", smt.Bool, o[1], e)))
			// exp(-x)*exp(x)=1
			if k, ok := c.ConstDiff(c.Neg(v), o[0]); ok && k.Sign() == 0 {
				e.Defs = append(e.Defs, c.App("=", smt.Bool, c.Mul(e, o[1]), one))
			}
		}
		// products: exp(a)*exp(b) = exp(a+b) for triples already present
		for i, a := range r.exps {
			for _, b := range r.exps[i:] {
				if k, ok := c.ConstDiff(v, c.Add(a[0], b[0])); ok && k.Sign() == 0 {
					e.Defs = append(e.Defs, c.App("=", smt.Bool, e, c.Mul(a[1], b[1])))
				}
			}
			for _, b := range r.exps {
				if k, ok := c.ConstDiff(a[0], c.Add(v, b[0])); ok && k.Sign() == 0 {
					e.Defs = append(e.Defs, c.App("=", smt.Bool, a[1], c.Mul(e, b[1])))
				}
			}
		}
		r.exps = append(r.exps, [2]*smt.Term{v, e})
	})
}

func (r *Run) logT(v *smt.Term) *smt.Term {
	c := r.c
	if v.IsConst() {
		f, _ := v.R.Float64()
		if f > 0 {
			return c.RealF(math.Log(f))
		}
		return r.zero
	}
	for _, o := range r.exps {
		if o[1] == v {
			return o[0]
		}
	}
	key, sg := c.PolyKey(v)
	return c.Memo(fmt.Sprintf("log:%d:%s", sg, key), "log", smt.Real, func(l *smt.Term) {
		one := c.RealC(ratOne)
		pos := c.Lt(r.zero, v)
		l.Defs = append(l.Defs,
			c.Implies(pos, c.App("<=", smt.Bool, l, c.Sub(v, one))),
			c.Implies(pos, c.Eq(c.App("<=", smt.Bool, l, r.zero), c.Le(v, one))),
			c.Implies(pos, c.Eq(c.App("<=", smt.Bool, r.zero, l), c.Le(one, v))))
		for _, o := range r.logs {
			both := c.And(pos, c.Lt(r.zero, o[0]))
			l.Defs = append(l.Defs, c.Implies(both, c.And(c.Eq(c.Le(v, o[0]), c.App("<=", smt.Bool, l, o[1])),
				c.Eq(c.Le(o[0], v), c.App("<=", smt.Bool, o[1], l)))))
		}
		for _, o := range r.exps {
			l.Defs = append(l.Defs, c.Implies(pos, c.And(
				c.Eq(c.Le(v, o[1]), c.App("<=", smt.Bool, l, o[0])),
				c.Eq(c.Le(o[1], v), c.App("<=", smt.Bool, o[0], l)))))
		}
		r.logs = append(r.logs, [2]*smt.Term{v, l})
	})
}

func (st *State) fpow(x, y *Flt) Value {
	r := st.r
	c := r.c
	fx, cx := x.isConst()
	fy, cy := y.isConst()
	if cx && cy {
		return r.fltConst(64, math.Pow(fx, fy))
	}
	if x.FP != nil {
		return r.fpPow(x, y)
	}
	if cy {
		if fy == math.Trunc(fy) && fy >= 0 && fy <= 8 {
			p := r.fltConst(64, 1)
			for i := 0; i < int(fy); i++ {
				p = r.fmul(p, x)
			}
			return p
		}
		if fy == 0.5 {
			return st.fsqrt(x)
		}
		if fy == math.Trunc(fy) && fy < 0 && fy >= -8 {
			p := r.fltConst(64, 1)
			for i := 0; i < int(-fy); i++ {
				p = r.fmul(p, x)
			}
			return st.fdiv(r.fltConst(64, 1), p)
		}
	}
	if !r.finite(x) || !r.finite(y) {
		if !st.settle(c.Or(x.Inf, y.Inf)).IsFalse() {
			unsup("Pow of possibly infinite value")
		}
	}
	// pow(pow(z,a),b) = z when a*b is 1 (up to rounding) and z >= 0
	if cy {
		if o, ok := r.pows[x.V]; ok && o.cexp && math.Abs(o.exp*fy-1) < 1e-12 {
			return r.fltReal(64, o.base)
		}
	}
	key, sg := c.PolyKey(x.V)
	ky, sy := c.PolyKey(y.V)
	p := c.Memo(fmt.Sprintf("pow:%d:%s^%d:%s", sg, key, sy, ky), "pow", smt.Real, func(p *smt.Term) {
		one := c.RealC(ratOne)
		le := func(a, b *smt.Term) *smt.Term { return c.App("<=", smt.Bool, a, b) }
		nn := c.Le(r.zero, x.V)
		p.Defs = append(p.Defs, c.Implies(nn, le(r.zero, p)))
		yp := c.Lt(r.zero, y.V)
		p.Defs = append(p.Defs,
			c.Implies(c.And(nn, yp), c.Eq(le(p, r.zero), c.Le(x.V, r.zero))),
			c.Implies(c.And(nn, yp), c.Eq(le(p, one), c.Le(x.V, one))),
			c.Implies(c.And(nn, yp), c.Eq(le(one, p), c.Le(one, x.V))),
			c.Implies(c.And(nn, c.Not(c.Eq(x.V, r.zero))), c.Not(le(p, r.zero))))
		for _, o := range r.powList {
			if o.y == y.V {
				both := c.And(nn, c.Le(r.zero, o.base), yp)
				p.Defs = append(p.Defs, c.Implies(both, c.And(
					c.Eq(c.Le(x.V, o.base), le(p, o.p)), c.Eq(c.Le(o.base, x.V), le(o.p, p)))))
			}
		}
		if cy {
			// convexity against the identity on [0,1]
			if fy > 1 {
				p.Defs = append(p.Defs, c.Implies(c.And(nn, c.Le(x.V, one)), le(p, x.V)), c.Implies(c.Le(one, x.V), le(x.V, p)))
			} else if fy > 0 {
				p.Defs = append(p.Defs, c.Implies(c.And(nn, c.Le(x.V, one)), le(x.V, p)), c.Implies(c.Le(one, x.V), le(p, x.V)))
			}
			// sample points: exact values of the native function at grid points give
			// monotone bounds
			if fy > 0 {
				for _, g := range []float64{0.001, 0.0031308, 0.01, 0.04045, (0.04045 + 0.055) / 1.055, 0.1, 0.25, 0.5, 0.75, 0.9} {
					v := math.Pow(g, fy)
					p.Defs = append(p.Defs,
						c.Implies(c.Le(c.RealF(g), x.V), le(c.RealF(v*(1-1e-12)), p)),
						c.Implies(c.And(nn, c.Le(x.V, c.RealF(g))), le(p, c.RealF(v*(1+1e-12)))))
				}
			}
		}
		o := &powRec{base: x.V, y: y.V, p: p, exp: fy, cexp: cy}
		r.pows[p] = o
		r.powList = append(r.powList, o)
	})
	out := r.fltReal(64, p)
	neg := st.settle(c.Lt(x.V, r.zero))
	out.NaN = c.Or(x.NaN, y.NaN, neg) // non-integer exponents only
	if !cy && !neg.IsFalse() {
		unsup("Pow of negative base with symbolic exponent")
	}
	if cy && fy < 0 || !cy {
		z := st.settle(c.Eq(x.V, r.zero))
		if !z.IsFalse() {
			if cy {
				out.Inf = z
			} else {
				unsup("Pow of zero base with symbolic exponent")
			}
		}
	}
	return out
}

type powRec struct {
	base, y, p *smt.Term
	exp        float64
	cexp       bool
}

func (r *Run) fpPow(x, y *Flt) *Flt {
	c := r.c
	fy, ok := y.isConst()
	if !ok || fy <= 0 {
		unsup("math.Pow in FP mode with symbolic exponent")
	}
	// contract on [0,inf): monotone, pow(0)=0, pow(1)=1, range
	v := c.Memo(fmt.Sprintf("fppow:%d:%v", x.FP.ID, fy), "pow", smt.FP64, func(v *smt.Term) {
		k := func(f float64) *smt.Term { return c.FPC(smt.FP64, f) }
		le := func(a, b *smt.Term) *smt.Term { return c.FPCmp("fp.leq", a, b) }
		nan := c.FPIs("fp.isNaN", x.FP)
		neg := c.FPCmp("fp.lt", x.FP, k(0))
		v.Defs = append(v.Defs, c.Implies(nan, c.FPIs("fp.isNaN", v)),
			c.Implies(c.And(neg, c.Not(c.FPIs("fp.isInfinite", x.FP))), c.FPIs("fp.isNaN", v)),
			c.Implies(le(k(0), x.FP), le(k(0), v)),
			c.Implies(c.Eq(x.FP, k(math.Inf(1))), c.Eq(v, k(math.Inf(1)))),
			c.Implies(c.Eq(x.FP, k(math.Inf(-1))), c.Eq(v, k(math.Inf(1)))))
		for _, g := range []float64{0.001, 0.0031308, 0.01, 0.04045, (0.04045 + 0.055) / 1.055, 0.1, 0.25, 0.5, 0.75, 0.9, 1} {
			p := math.Pow(g, fy)
			lo, hi := p*(1-1e-12), p*(1+1e-12)
			if g == 1 {
				lo, hi = 1, 1
			}
			v.Defs = append(v.Defs, c.Implies(le(k(g), x.FP), le(k(lo), v)),
				c.Implies(c.And(le(k(0), x.FP), le(x.FP, k(g))), le(v, k(hi))))
		}
		for _, o := range r.fpPows {
			if o.exp == fy {
				v.Defs = append(v.Defs, c.Implies(c.And(le(k(0), x.FP), le(x.FP, o.base)), le(v, o.p)),
					c.Implies(c.And(le(k(0), o.base), le(o.base, x.FP)), le(o.p, v)))
			}
		}
		r.fpPows = append(r.fpPows, &powRec{base: x.FP, p: v, exp: fy})
	})
	return &Flt{W: 64, FP: v}
}

// ---- standard library

func nilErr() Value { return &Iface{} }

func (r *Run) opaqueErr(s string) *Iface {
	return &Iface{T: r.E.runtimeErr, V: &Str{S: s}}
}

func initStd() {
	def := func(n string, f intrinsic) { intrinsics[n] = f }
	noop := func(st *State, a []Value, cc *ssa.CallCommon) Value {
		res := cc.Signature().Results()
		switch res.Len() {
		case 0:
			return nil
		case 1:
			return st.r.zeroOf(res.At(0).Type())
		}
		return st.r.zeroOf(res)
	}
	for _, n := range []string{
		"fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print", "log.SetFlags", "log.SetPrefix",
		"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "time.Since", "time.Now", "time.Sleep", "(time.Time).Sub", "(time.Duration).Seconds",
		"(time.Duration).String", "(time.Duration).Truncate", "(time.Duration).Round", "runtime/debug.PrintStack",
	} {
		def(n, noop)
	}
	sp := func(n string) {
		def(n, func(st *State, a []Value, cc *ssa.CallCommon) Value {
			st.syncPoint()
			return nil
		})
	}
	sp("runtime.Gosched")
	def("runtime.NumCPU", func(st *State, a []Value, _ *ssa.CallCommon) Value {
		r := st.r
		v := r.c.Var("NumCPU", smt.Int)
		if r.FPMode {
			return r.mkInt(r.NumCPU)
		}
		if v.Lo == nil {
			v.Lo, v.Hi = big.NewRat(1, 1), new(big.Rat).SetInt64(int64(r.NumCPU))
			v.Defs = append(v.Defs, r.c.App("<=", smt.Bool, r.c.IntC(1), v), r.c.App("<=", smt.Bool, v, r.c.IntC(int64(r.NumCPU))))
		}
		return v
	})
	intrinsics["runtime.GOMAXPROCS"] = intrinsics["runtime.NumCPU"]
	exit := func(st *State, a []Value, cc *ssa.CallCommon) Value {
		t := st.th()
		for i := len(t.frames) - 1; i > 0; i-- {
			if f := t.frames[i]; fnName(f.fn) == "vh/sys.ExitsM" {
				t.frames = t.frames[:i+1]
				st.ret(f, st.r.c.True)
				return retryLater{}
			}
		}
		t.pan = &panicV{msg: "os.Exit", at: st.where(), exit: true}
		t.frames = nil
		return retryLater{}
	}
	for _, n := range []string{"os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln"} {
		def(n, exit)
	}
	def("runtime.Caller", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		return &Tuple{[]Value{st.r.intConst(types.Typ[types.Uintptr], 0), &Str{S: "caller.go"}, st.r.mkInt(1), st.r.c.True}}
	})

	// strings with concrete arguments
	def("strings.Fields", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		return st.strSlice(strings.Fields(cstr(a[0])))
	})
	def("strings.Split", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		return st.strSlice(strings.Split(cstr(a[0]), cstr(a[1])))
	})
	def("strings.SplitN", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		return st.strSlice(strings.SplitN(cstr(a[0]), cstr(a[1]), int(cint(st, a[2]))))
	})
	s1 := func(n string, f func(string) string) {
		def(n, func(st *State, a []Value, cc *ssa.CallCommon) Value { return &Str{S: f(cstr(a[0]))} })
	}
	s1("strings.TrimSpace", strings.TrimSpace)
	s1("strings.ToLower", strings.ToLower)
	s1("strings.ToUpper", strings.ToUpper)
	s1("path.Ext", path.Ext)
	s1("path.Base", path.Base)
	s1("path.Dir", path.Dir)
	s1("path/filepath.Ext", path.Ext)
	s1("path/filepath.Base", path.Base)
	s1("path/filepath.Dir", path.Dir)
	s2 := func(n string, f func(a, b string) Value) {
		def(n, func(st *State, a []Value, cc *ssa.CallCommon) Value { return f(cstr(a[0]), cstr(a[1])) })
	}
	b2 := func(n string, f func(a, b string) bool) {
		def(n, func(st *State, a []Value, cc *ssa.CallCommon) Value { return st.r.c.Bool(f(cstr(a[0]), cstr(a[1]))) })
	}
	i2 := func(n string, f func(a, b string) int) {
		def(n, func(st *State, a []Value, cc *ssa.CallCommon) Value { return st.r.mkInt(f(cstr(a[0]), cstr(a[1]))) })
	}
	s2("strings.Trim", func(a, b string) Value { return &Str{S: strings.Trim(a, b)} })
	s2("strings.TrimLeft", func(a, b string) Value { return &Str{S: strings.TrimLeft(a, b)} })
	s2("strings.TrimRight", func(a, b string) Value { return &Str{S: strings.TrimRight(a, b)} })
	s2("strings.TrimPrefix", func(a, b string) Value { return &Str{S: strings.TrimPrefix(a, b)} })
	s2("strings.TrimSuffix", func(a, b string) Value { return &Str{S: strings.TrimSuffix(a, b)} })
	b2("strings.HasPrefix", strings.HasPrefix)
	b2("strings.HasSuffix", strings.HasSuffix)
	b2("strings.Contains", strings.Contains)
	b2("strings.ContainsAny", strings.ContainsAny)
	b2("strings.EqualFold", strings.EqualFold)
	i2("strings.Index", strings.Index)
	i2("strings.LastIndex", strings.LastIndex)
	i2("strings.Count", strings.Count)
	def("strings.IndexByte", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		return st.r.mkInt(strings.IndexByte(cstr(a[0]), byte(cint(st, a[1]))))
	})
	intrinsics["internal/bytealg.IndexByteString"] = intrinsics["strings.IndexByte"]
	def("strings.Repeat", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		return &Str{S: strings.Repeat(cstr(a[0]), int(cint(st, a[1])))}
	})
	def("strings.Replace", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		return &Str{S: strings.Replace(cstr(a[0]), cstr(a[1]), cstr(a[2]), int(cint(st, a[3])))}
	})
	def("strings.ReplaceAll", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		return &Str{S: strings.ReplaceAll(cstr(a[0]), cstr(a[1]), cstr(a[2]))}
	})
	join := func(st *State, vs []string, sep string) Value { return &Str{S: strings.Join(vs, sep)} }
	def("strings.Join", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		var ss []string
		for _, v := range st.sliceVals(a[0].(*Slice)) {
			ss = append(ss, cstr(v))
		}
		return join(st, ss, cstr(a[1]))
	})
	def("path.Join", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		var ss []string
		for _, v := range st.sliceVals(a[0].(*Slice)) {
			ss = append(ss, cstr(v))
		}
		return &Str{S: path.Join(ss...)}
	})
	intrinsics["path/filepath.Join"] = intrinsics["path.Join"]
	def("internal/bytealg.IndexByte", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		s := a[0].(*Slice)
		ch := a[1].(*smt.Term)
		for i, v := range st.sliceVals(s) {
			if st.branch(st.r.c.Eq(v.(*smt.Term), ch)) {
				return st.r.mkInt(i)
			}
		}
		return st.r.mkInt(-1)
	})
	intrinsics["bytes.IndexByte"] = intrinsics["internal/bytealg.IndexByte"]
	def("internal/bytealg.Count", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		n := 0
		ch := a[1].(*smt.Term)
		for _, v := range st.sliceVals(a[0].(*Slice)) {
			if st.branch(st.r.c.Eq(v.(*smt.Term), ch)) {
				n++
			}
		}
		return st.r.mkInt(n)
	})
	def("internal/bytealg.MakeNoZero", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		n := int(cint(st, a[0]))
		s := st.makeSlice(nil, st.r.byteConst(0), n)
		s.Len = n
		return s
	})
	def("internal/stringslite.Clone", func(st *State, a []Value, cc *ssa.CallCommon) Value { return a[0] })
	def("strings.Clone", func(st *State, a []Value, cc *ssa.CallCommon) Value { return a[0] })
	def("(*strings.Builder).copyCheck", func(st *State, a []Value, cc *ssa.CallCommon) Value { return nil })
	def("(*strings.Builder).String", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		b := st.load(a[0].(*Ptr)).(*Struct)
		s := b.F[1].(*Slice)
		var bs []*smt.Term
		for _, v := range st.sliceVals(s) {
			bs = append(bs, v.(*smt.Term))
		}
		return st.r.mkStr(bs)
	})
	uc := func(n string, f func(rune) bool) {
		def(n, func(st *State, a []Value, cc *ssa.CallCommon) Value {
			return st.r.c.Bool(f(rune(cint(st, a[0]))))
		})
	}
	uc("unicode.IsSpace", unicode.IsSpace)
	uc("unicode.IsDigit", unicode.IsDigit)
	uc("unicode.IsLetter", unicode.IsLetter)
	uc("unicode.IsUpper", unicode.IsUpper)

	numErr := func(st *State, fn, s string) Value { return st.r.opaqueErr("strconv." + fn + ": parsing " + s) }
	pint := func(st *State, fn string, s string, base, bits int) Value {
		r := st.r
		if v, neg, ok := r.untoken(s); ok {
			t, isInt := v.(*smt.Term)
			if !isInt {
				// a float token where an integer is expected
				return &Tuple{[]Value{r.mkInt(0), numErr(st, fn, s)}}
			}
			if neg {
				t = r.c.Neg(t)
			}
			return &Tuple{[]Value{t, nilErr()}}
		}
		n, err := strconv.ParseInt(s, base, bits)
		if err != nil {
			return &Tuple{[]Value{r.mkInt(int(n)), numErr(st, fn, s)}}
		}
		return &Tuple{[]Value{r.mkInt(int(n)), nilErr()}}
	}
	def("strconv.Atoi", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		return pint(st, "Atoi", cstr(a[0]), 10, 64)
	})
	def("strconv.ParseInt", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		return pint(st, "ParseInt", cstr(a[0]), int(cint(st, a[1])), int(cint(st, a[2])))
	})
	def("strconv.ParseFloat", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		r := st.r
		s := cstr(a[0])
		if v, neg, ok := r.untoken(s); ok {
			var f *Flt
			switch x := v.(type) {
			case *Flt:
				f = x
			case *smt.Term:
				f = r.fltReal(64, r.c.ToReal(x))
			}
			if neg {
				f = r.fneg(f)
			}
			return &Tuple{[]Value{f, nilErr()}}
		}
		f, err := strconv.ParseFloat(s, int(cint(st, a[1])))
		if err != nil {
			return &Tuple{[]Value{r.fltConst(64, f), numErr(st, "ParseFloat", s)}}
		}
		return &Tuple{[]Value{r.fltConst(64, f), nilErr()}}
	})
	def("strconv.Itoa", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		return &Str{S: strconv.Itoa(int(cint(st, a[0])))}
	})
	def("fmt.Sprintf", func(st *State, a []Value, cc *ssa.CallCommon) Value { return st.sprintf(cstr(a[0]), a[1]) })
	def("fmt.Sprint", func(st *State, a []Value, cc *ssa.CallCommon) Value { return st.sprint(a[0], false) })
	def("fmt.Sprintln", func(st *State, a []Value, cc *ssa.CallCommon) Value { return st.sprint(a[0], true) })

	// sync
	def("(*sync.Mutex).Lock", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		st.syncPoint()
		return st.lockOp(a[0].(*Ptr), false)
	})
	def("(*sync.RWMutex).Lock", intrinsics["(*sync.Mutex).Lock"])
	def("(*sync.Mutex).TryLock", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		st.syncPoint()
		k := a[0].(*Ptr).key()
		l := st.lock(k)
		if l.w != 0 || l.rd != 0 {
			return st.r.c.False
		}
		st.lockOp(a[0].(*Ptr), false)
		return st.r.c.True
	})
	def("(*sync.RWMutex).RLock", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		st.syncPoint()
		return st.lockOp(a[0].(*Ptr), true)
	})
	unlock := func(rd bool) intrinsic {
		return func(st *State, a []Value, cc *ssa.CallCommon) Value {
			k := a[0].(*Ptr).key()
			l := st.lock(k)
			if rd {
				if l.rd == 0 {
					st.throw("sync: RUnlock of unlocked RWMutex")
				}
				l.rd--
			} else {
				if l.w == 0 {
					st.throw("sync: unlock of unlocked mutex")
				}
				l.w = 0
			}
			st.release("mu" + k)
			return nil
		}
	}
	def("(*sync.Mutex).Unlock", unlock(false))
	def("(*sync.RWMutex).Unlock", unlock(false))
	def("(*sync.RWMutex).RUnlock", unlock(true))
	wgAdd := func(st *State, p *Ptr, n int) {
		if st.wgs == nil {
			st.wgs = map[string]int{}
		}
		k := p.key()
		if n < 0 {
			st.release("wg" + k)
		}
		st.wgs[k] += n
		if st.wgs[k] < 0 {
			st.throw("sync: negative WaitGroup counter")
		}
	}
	def("(*sync.WaitGroup).Add", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		n := int(cint(st, a[1]))
		st.syncPoint()
		wgAdd(st, a[0].(*Ptr), n)
		return nil
	})
	def("(*sync.WaitGroup).Done", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		st.syncPoint()
		wgAdd(st, a[0].(*Ptr), -1)
		return nil
	})
	def("(*sync.WaitGroup).Wait", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		k := a[0].(*Ptr).key()
		if st.wgs[k] > 0 {
			st.block("wg:" + k)
			return retryLater{}
		}
		st.th().wait = ""
		st.acquire("wg" + k)
		return nil
	})
	// atomics on plain integers
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		w := w
		kind := map[string]types.BasicKind{"Int32": types.Int32, "Int64": types.Int64, "Uint32": types.Uint32, "Uint64": types.Uint64}[w]
		at := func(st *State, p *Ptr, f func(old Value) Value) Value {
			st.syncPoint()
			k := "at" + p.key()
			st.acquire(k)
			nr := st.r.NoRace
			st.r.NoRace = true
			old := st.load(p)
			nv := f(old)
			if nv != nil {
				st.store(p, nv)
			}
			st.r.NoRace = nr
			st.release(k)
			return old
		}
		def("sync/atomic.Load"+w, func(st *State, a []Value, cc *ssa.CallCommon) Value {
			return at(st, a[0].(*Ptr), func(Value) Value { return nil })
		})
		def("sync/atomic.Store"+w, func(st *State, a []Value, cc *ssa.CallCommon) Value {
			at(st, a[0].(*Ptr), func(Value) Value { return a[1] })
			return nil
		})
		def("sync/atomic.Add"+w, func(st *State, a []Value, cc *ssa.CallCommon) Value {
			var nv Value
			at(st, a[0].(*Ptr), func(o Value) Value {
				x, y := o.(*smt.Term), a[1].(*smt.Term)
				if x.Sort.IsBV() {
					nv = st.r.c.BVBin("bvadd", x, y)
				} else {
					nv = st.r.wrap(st.r.c.Add(x, y), types.Typ[kind])
				}
				return nv
			})
			return nv
		})
		def("sync/atomic.CompareAndSwap"+w, func(st *State, a []Value, cc *ssa.CallCommon) Value {
			p := a[0].(*Ptr)
			st.syncPoint()
			nr := st.r.NoRace
			st.r.NoRace = true
			old := st.load(p).(*smt.Term)
			st.r.NoRace = nr
			eq := st.branch(st.r.c.Eq(old, a[1].(*smt.Term)))
			st.acquire("at" + p.key())
			if eq {
				st.r.NoRace = true
				st.store(p, a[2])
				st.r.NoRace = nr
			}
			st.release("at" + p.key())
			return st.r.c.Bool(eq)
		})
	}

	// math/rand: arbitrary values
	rnd := func(st *State, a []Value, cc *ssa.CallCommon) Value {
		r := st.r
		if st.names == nil {
			st.names = map[string]int{}
		}
		st.names["rand"]++
		name := fmt.Sprintf("rand#%d", st.names["rand"])
		if r.FPMode {
			f := st.inputFP(name, 64)
			if len(f.FP.Defs) == 0 {
				c := r.c
				f.FP.Defs = append(f.FP.Defs, c.FPCmp("fp.leq", c.FPC(smt.FP64, 0), f.FP), c.FPCmp("fp.lt", f.FP, c.FPC(smt.FP64, 1)))
			}
			return f
		}
		lo := 0.0
		if r.RandOpen {
			lo = 1.0 / (1 << 40)
		}
		f := st.inputFloat(name, lo, 1-1.0/(1<<53), "rand")
		return f
	}
	for _, n := range []string{"math/rand.Float64", "math/rand/v2.Float64"} {
		def(n, rnd)
	}
	// a generator with a constant seed yields exactly the numbers Go's does
	def("math/rand.NewSource", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		what := "rand.Source"
		if t, ok := a[0].(*smt.Term); ok && t.IsConst() && !st.r.FPMode {
			what = fmt.Sprintf("seed:%d", t.R.Num().Int64())
		}
		return &Iface{T: st.r.E.runtimeErr, V: Opaque{what}}
	})
	def("math/rand.New", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		var src Value = Opaque{"rand"}
		if i, ok := a[0].(*Iface); ok && isOpaque(i.V) {
			src = i.V
		}
		return st.alloc(&Struct{F: []Value{src, st.r.mkInt(0)}})
	})
	def("(*math/rand.Rand).Float64", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		p := a[0].(*Ptr)
		st.access(p, true) // generators are not safe for concurrent use
		if v, _ := st.mem.Get(p.Obj); v != nil && p.key() == (&Ptr{Obj: p.Obj}).key() {
			if s, ok := v.(*Struct); ok && len(s.F) == 2 {
				var seed int64
				if o, ok := s.F[0].(Opaque); ok {
					if k, _ := fmt.Sscanf(o.What, "seed:%d", &seed); k == 1 {
						n := s.F[1].(*smt.Term).R.Num().Int64()
						st.mem = st.mem.Set(p.Obj, &Struct{F: []Value{s.F[0], st.r.mkInt(int(n) + 1)}})
						return st.r.fltConst(64, randStream(seed, int(n)))
					}
				}
			}
		}
		return rnd(st, a, cc)
	})
	def("(time.Time).UnixNano", func(st *State, a []Value, cc *ssa.CallCommon) Value {
		if st.r.FPMode {
			return st.r.zeroOf(cc.Signature().Results().At(0).Type())
		}
		if st.names == nil {
			st.names = map[string]int{}
		}
		st.names["now"]++
		v := st.r.c.Var(fmt.Sprintf("now#%d", st.names["now"]), smt.Int)
		if v.Lo == nil {
			v.Lo, v.Hi = new(big.Rat), new(big.Rat).SetInt64(1<<62)
			v.Defs = append(v.Defs, st.r.c.App("<=", smt.Bool, st.r.c.IntC(0), v), st.r.c.App("<=", smt.Bool, v, st.r.c.IntC(1<<62)))
		}
		return v
	})
	def("math/rand.Seed", noop)
	def("os.Getenv", func(st *State, a []Value, cc *ssa.CallCommon) Value { return &Str{} })
}

func (st *State) lockOp(p *Ptr, rd bool) Value {
	k := p.key()
	l := st.lock(k)
	if rd {
		if l.w != 0 {
			st.block("rlock:" + k)
			return retryLater{}
		}
		l.rd++
	} else {
		if l.w != 0 || l.rd != 0 {
			st.block("lock:" + k)
			return retryLater{}
		}
		l.w = st.cur + 1
	}
	st.th().wait = ""
	st.acquire("mu" + k)
	return nil
}

func (st *State) strSlice(ss []string) Value {
	var vs []Value
	for _, s := range ss {
		vs = append(vs, &Str{S: s})
	}
	return st.makeSlice(vs, &Str{}, len(vs))
}

// native converts a concrete value to a Go value for formatting.
func (st *State) native(v Value) (interface{}, bool) {
	switch x := v.(type) {
	case *Iface:
		if x.T == nil {
			return nil, true
		}
		if b, ok := x.T.(*types.Basic); ok {
			if t, ok := x.V.(*smt.Term); ok {
				if t.Sort == smt.Bool {
					if t.IsConst() {
						return t.B, true
					}
					return nil, false
				}
				t = st.simpNum(t)
				if !t.IsConst() {
					return nil, false
				}
				var n int64
				if t.Sort.IsBV() {
					n = t.SVal()
				} else {
					n = t.R.Num().Int64()
				}
				switch b.Kind() {
				case types.Uint8:
					return uint8(n), true
				case types.Int32:
					return int32(n), true
				case types.Uint64, types.Uint, types.Uint32, types.Uint16:
					return uint64(n), true
				}
				return int(n), true
			}
		}
		if _, ok := x.T.(*types.Basic); !ok {
			// named types may have String methods: only plain underlying formatting of
			// named numeric types without methods
			if n, ok := x.T.(*types.Named); ok && n.NumMethods() > 0 {
				return nil, false
			}
		}
		switch y := x.V.(type) {
		case *Flt:
			f, ok := y.isConst()
			return f, ok
		case *Str:
			if y.B != nil {
				return nil, false
			}
			return y.S, true
		case *smt.Term:
			if t := st.simpNum(y); t.IsConst() && t.Sort != smt.Bool {
				return st.concInt(t), true
			}
		}
	}
	return nil, false
}

func (st *State) sprintf(f string, args Value) Value {
	var as []interface{}
	s := args.(*Slice)
	for _, v := range st.sliceVals(s) {
		x, ok := st.native(v)
		if !ok {
			// keep symbolic ints/floats as tokens when formatted with %v/%d
			if i, isI := v.(*Iface); isI {
				if t, isT := i.V.(*smt.Term); isT && t.Sort != smt.Bool {
					as = append(as, rawText{st.r.token(t)})
					continue
				}
				if fl, isF := i.V.(*Flt); isF {
					as = append(as, rawText{st.r.token(fl)})
					continue
				}
			}
			return &Str{S: "<formatted text>"}
		}
		as = append(as, x)
	}
	return &Str{S: fmt.Sprintf(f, as...)}
}

type rawText struct{ s string } // not a string: Print puts spaces between numbers

func (t rawText) Format(s fmt.State, verb rune) { s.Write([]byte(t.s)) }

func (st *State) sprint(args Value, ln bool) Value {
	var as []interface{}
	for _, v := range st.sliceVals(args.(*Slice)) {
		x, ok := st.native(v)
		if !ok {
			if i, isI := v.(*Iface); isI {
				if t, isT := i.V.(*smt.Term); isT && t.Sort != smt.Bool {
					as = append(as, rawText{st.r.token(t)})
					continue
				}
			}
			return &Str{S: "<formatted text>"}
		}
		as = append(as, x)
	}
	if ln {
		return &Str{S: fmt.Sprintln(as...)}
	}
	return &Str{S: fmt.Sprint(as...)}
}

var randMu sync.Mutex
var randGens = map[int64]*rand.Rand{}
var randVals = map[int64][]float64{}

// randStream is the n'th Float64 of math/rand's generator with the given seed.
func randStream(seed int64, n int) float64 {
	randMu.Lock()
	defer randMu.Unlock()
	g := randGens[seed]
	if g == nil {
		g = rand.New(rand.NewSource(seed))
		randGens[seed] = g
	}
	for len(randVals[seed]) <= n {
		randVals[seed] = append(randVals[seed], g.Float64())
	}
	return randVals[seed][n]
}

// decimal returns the number a constant was written as.
func decimal(f float64) *big.Rat {
	q, _ := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, 64))
	return q
}
