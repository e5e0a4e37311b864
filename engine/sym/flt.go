package sym

import (
	"fmt"
	"math"
	"math/big"

	"vengine/smt"
)

// Flt is a floating-point value. In FP mode only FP is set. In real mode the
// value is NaN if NaN, else infinite if Inf (with sign neg), else the real V.
// The sign of a zero is neg as well.
type Flt struct {
	W        int
	FP       *smt.Term
	NaN, Inf *smt.Term
	neg      func() *smt.Term
	V        *smt.Term
}

var ratOne = big.NewRat(1, 1)

func (r *Run) lazy(f func() *smt.Term) func() *smt.Term {
	var v *smt.Term
	return func() *smt.Term {
		if v == nil {
			v = f()
		}
		return v
	}
}

func (r *Run) fltConst(w int, f float64) *Flt {
	if r.FPMode {
		s := smt.FP64
		if w == 32 {
			s = smt.FP32
		}
		return &Flt{W: w, FP: r.c.FPC(s, f)}
	}
	if w == 32 {
		f = float64(float32(f))
	}
	c := r.c
	x := &Flt{W: w, NaN: c.False, Inf: c.False, V: r.zero}
	neg := c.Bool(math.Signbit(f))
	x.neg = func() *smt.Term { return neg }
	switch {
	case f != f:
		x.NaN = c.True
	case math.IsInf(f, 0):
		x.Inf = c.True
	default:
		x.V = c.RealF(f)
	}
	return x
}

func (r *Run) fltReal(w int, v *smt.Term) *Flt {
	c := r.c
	return &Flt{W: w, NaN: c.False, Inf: c.False, V: v, neg: func() *smt.Term { return c.False }}
}

// isConst reports a concrete float.
func (x *Flt) isConst() (float64, bool) {
	if x.FP != nil {
		if x.FP.IsConst() {
			return x.FP.F, true
		}
		return 0, false
	}
	if x.NaN.IsTrue() {
		return math.NaN(), true
	}
	if !x.NaN.IsFalse() {
		return 0, false
	}
	if x.Inf.IsTrue() {
		if n := x.neg(); n.IsConst() {
			if n.B {
				return math.Inf(-1), true
			}
			return math.Inf(1), true
		}
		return 0, false
	}
	if !x.Inf.IsFalse() || !x.V.IsConst() {
		return 0, false
	}
	f, _ := x.V.R.Float64()
	if f == 0 {
		if n := x.neg(); n.IsTrue() {
			return math.Copysign(0, -1), true
		}
	}
	return f, true
}

// sign: true if the sign bit is set.
func (r *Run) sign(x *Flt) *smt.Term {
	c := r.c
	lt := c.Lt(x.V, r.zero)
	return c.Ite(c.Or(x.Inf, c.Eq(x.V, r.zero)), x.neg(), lt)
}

func (r *Run) finite(x *Flt) bool { return x.NaN.IsFalse() && x.Inf.IsFalse() }

func (r *Run) fneg(x *Flt) *Flt {
	if x.FP != nil {
		return &Flt{W: x.W, FP: r.c.FPNeg(x.FP)}
	}
	return &Flt{W: x.W, NaN: x.NaN, Inf: x.Inf, V: r.c.Neg(x.V), neg: r.lazy(func() *smt.Term { return r.c.Not(x.neg()) })}
}

func (r *Run) fadd(a, b *Flt) *Flt {
	c := r.c
	if a.FP != nil {
		return &Flt{W: a.W, FP: c.FPBin("fp.add", a.FP, b.FP)}
	}
	x := &Flt{W: a.W, V: c.Canon(c.Add(a.V, b.V))}
	if r.finite(a) && r.finite(b) {
		x.NaN, x.Inf = c.False, c.False
	} else {
		both := c.And(a.Inf, b.Inf)
		nn := c.False
		if !both.IsFalse() {
			nn = c.And(both, c.Xor(a.neg(), b.neg()))
		}
		x.NaN = c.Or(a.NaN, b.NaN, nn)
		x.Inf = c.Or(a.Inf, b.Inf)
	}
	x.neg = r.lazy(func() *smt.Term {
		z := c.And(c.Eq(a.V, r.zero), c.Eq(b.V, r.zero), a.neg(), b.neg())
		return c.Ite(a.Inf, a.neg(), c.Ite(b.Inf, b.neg(), z))
	})
	return x
}

func (r *Run) fsub(a, b *Flt) *Flt {
	if a.FP != nil {
		return &Flt{W: a.W, FP: r.c.FPBin("fp.sub", a.FP, b.FP)}
	}
	return r.fadd(a, r.fneg(b))
}

func (r *Run) fmul(a, b *Flt) *Flt {
	c := r.c
	if a.FP != nil {
		return &Flt{W: a.W, FP: c.FPBin("fp.mul", a.FP, b.FP)}
	}
	x := &Flt{W: a.W, V: c.Canon(c.Mul(a.V, b.V))}
	if r.finite(a) && r.finite(b) {
		x.NaN, x.Inf = c.False, c.False
	} else {
		za := c.And(c.Not(a.Inf), c.Eq(a.V, r.zero))
		zb := c.And(c.Not(b.Inf), c.Eq(b.V, r.zero))
		x.NaN = c.Or(a.NaN, b.NaN, c.And(a.Inf, zb), c.And(b.Inf, za))
		x.Inf = c.Or(a.Inf, b.Inf)
	}
	x.neg = r.lazy(func() *smt.Term { return c.Xor(r.sign(a), r.sign(b)) })
	return x
}

func (st *State) fdiv(a, b *Flt) *Flt {
	r := st.r
	c := r.c
	if a.FP != nil {
		return &Flt{W: a.W, FP: c.FPBin("fp.div", a.FP, b.FP)}
	}
	bz := c.And(c.Not(b.Inf), c.Eq(b.V, r.zero))
	bz = st.settle(bz)
	az := c.And(c.Not(a.Inf), c.Eq(a.V, r.zero))
	if !bz.IsFalse() {
		az = st.settle(az)
	}
	x := &Flt{W: a.W}
	x.NaN = c.Or(a.NaN, b.NaN, c.And(a.Inf, b.Inf), c.And(az, bz))
	x.Inf = c.Or(a.Inf, c.And(bz, c.Not(az)))
	q := r.zero
	if !bz.IsTrue() {
		q = c.Canon(c.Mul(a.V, r.inv(b.V)))
		if s := quoSimplify(c, a.V, b.V); s != nil {
			q = s
		}
	}
	x.V = c.Ite(b.Inf, r.zero, q)
	x.neg = r.lazy(func() *smt.Term { return c.Xor(r.sign(a), r.sign(b)) })
	return x
}

func quoSimplify(c *smt.Ctx, a, b *smt.Term) *smt.Term {
	if a == b {
		return c.RealC(ratOne)
	}
	if a == c.Neg(b) {
		return c.RealC(big.NewRat(-1, 1))
	}
	return nil
}

// inv is the reciprocal of a term known (or guarded) to be nonzero.
func (r *Run) inv(d *smt.Term) *smt.Term {
	c := r.c
	if d.IsConst() {
		if d.R.Sign() == 0 {
			return r.zero
		}
		return c.RealC(new(big.Rat).Inv(d.R))
	}
	if d.Op == "-" && len(d.Args) == 1 {
		return c.Neg(r.inv(d.Args[0]))
	}
	if d.Op == "*" {
		return c.Mul(r.inv(d.Args[0]), r.inv(d.Args[1]))
	}
	if d.Op == "ite" {
		return c.Ite(d.Args[0], r.inv(d.Args[1]), r.inv(d.Args[2]))
	}
	if o, ok := r.invOf[d]; ok {
		return o
	}
	key, sgn := c.PolyKey(d)
	q := c.Memo("inv:"+key, "inv", smt.Real, func(q *smt.Term) {
		base := d
		if sgn < 0 {
			base = c.Neg(d)
		}
		q.Defs = append(q.Defs, c.Implies(c.Not(c.Eq(base, r.zero)), c.App("=", smt.Bool, c.Mul(q, base), c.RealC(ratOne))))
		c.SetInverse(q, base)
		if base.Lo != nil && base.Lo.Sign() > 0 {
			q.Lo = new(big.Rat)
			if base.Hi != nil {
				q.Lo = new(big.Rat).Inv(base.Hi)
			}
			q.Hi = new(big.Rat).Inv(base.Lo)
		}
		r.invOf[q] = base
	})
	if sgn < 0 {
		return c.Neg(q)
	}
	return q
}

func (st *State) fsqrt(x *Flt) *Flt {
	r := st.r
	c := r.c
	if x.FP != nil {
		return &Flt{W: x.W, FP: c.FPSqrt(x.FP)}
	}
	if f, ok := x.isConst(); ok && (f <= 0 || math.IsInf(f, 0) || f != f) {
		return r.fltConst(x.W, math.Sqrt(f))
	}
	if r.finite(x) && !x.V.IsConst() {
		if q := c.PolySqrt(x.V); q != nil {
			if !q.IsConst() && !st.branch(c.Le(r.zero, q)) {
				q = c.Neg(q)
			}
			return r.fltReal(x.W, q)
		}
	}
	bad := st.settle(c.And(c.Not(x.Inf), c.Lt(x.V, r.zero)))
	y := &Flt{W: x.W, NaN: c.Or(x.NaN, c.And(x.Inf, x.neg()), bad), Inf: x.Inf, V: r.sqrtT(x.V)}
	if x.Inf.IsFalse() {
		y.NaN = c.Or(x.NaN, bad)
	}
	y.neg = x.neg
	return y
}

// sqrtT is the square root of a term known (or guarded) to be >= 0.
func (r *Run) sqrtT(v *smt.Term) *smt.Term {
	c := r.c
	if v.IsConst() {
		if v.R.Sign() <= 0 {
			return r.zero
		}
		n := new(big.Int).Sqrt(v.R.Num())
		d := new(big.Int).Sqrt(v.R.Denom())
		q := new(big.Rat).SetFrac(n, d)
		if new(big.Rat).Mul(q, q).Cmp(v.R) == 0 {
			return c.RealC(q)
		}
	}
	if v.Op == "*" && v.Args[0] == v.Args[1] {
		return r.absT(v.Args[0])
	}
	key, _ := c.PolyKey(v)
	if _, sg := c.PolyKey(v); sg < 0 {
		key = "n" + key
	}
	return c.Memo("sqrt:"+key, "sqrt", smt.Real, func(s *smt.Term) {
		s.Lo = new(big.Rat)
		if v.Hi != nil && v.Hi.Sign() > 0 {
			f, _ := v.Hi.Float64()
			if f < 1e300 {
				s.Hi = new(big.Rat).SetFloat64(math.Sqrt(f)*(1+1e-9) + 1e-300)
			}
		}
		if v.Lo != nil && v.Lo.Sign() > 0 {
			f, _ := v.Lo.Float64()
			if f < 1e300 {
				s.Lo = new(big.Rat).SetFloat64(math.Sqrt(f) * (1 - 1e-9))
			}
		}
		s.Defs = append(s.Defs, c.App("<=", smt.Bool, r.zero, s),
			c.Implies(c.App("<=", smt.Bool, r.zero, v), c.App("=", smt.Bool, c.Mul(s, s), v)))
		if v.IsConst() {
			s.Defs = append(s.Defs, c.App("<=", smt.Bool, c.RealC(s.Lo), s), c.App("<=", smt.Bool, s, c.RealC(s.Hi)))
		}
		c.SetSquare(s, v)
	})
}

func (r *Run) absT(v *smt.Term) *smt.Term {
	c := r.c
	if v.Lo != nil && v.Lo.Sign() >= 0 {
		return v
	}
	if v.Hi != nil && v.Hi.Sign() <= 0 {
		return c.Neg(v)
	}
	return c.Ite(c.Le(r.zero, v), v, c.Neg(v))
}

// ---- comparisons

func (r *Run) flt(a, b *Flt) *smt.Term { // a < b
	c := r.c
	if a.FP != nil {
		return c.FPCmp("fp.lt", a.FP, b.FP)
	}
	t := c.Lt(a.V, b.V)
	if !b.Inf.IsFalse() {
		t = c.Ite(b.Inf, c.Not(b.neg()), t)
	}
	if !a.Inf.IsFalse() {
		s := a.neg()
		if !b.Inf.IsFalse() {
			s = c.Ite(b.Inf, c.And(s, c.Not(b.neg())), s)
		}
		t = c.Ite(a.Inf, s, t)
	}
	return c.And(c.Not(a.NaN), c.Not(b.NaN), t)
}

func (r *Run) fle(a, b *Flt) *smt.Term {
	c := r.c
	if a.FP != nil {
		return c.FPCmp("fp.leq", a.FP, b.FP)
	}
	return c.And(c.Not(a.NaN), c.Not(b.NaN), c.Not(r.flt(b, a)))
}

func (r *Run) feq(a, b *Flt) *smt.Term {
	c := r.c
	if a.FP != nil {
		return c.FPCmp("fp.eq", a.FP, b.FP)
	}
	t := c.Eq(a.V, b.V)
	if !a.Inf.IsFalse() || !b.Inf.IsFalse() {
		both := c.And(a.Inf, b.Inf)
		any := c.Or(a.Inf, b.Inf)
		same := c.False
		if !both.IsFalse() {
			same = c.And(both, c.Eq(a.neg(), b.neg()))
		}
		t = c.Ite(any, same, t)
	}
	return c.And(c.Not(a.NaN), c.Not(b.NaN), t)
}

func (r *Run) isNaN(a *Flt) *smt.Term {
	if a.FP != nil {
		return r.c.FPIs("fp.isNaN", a.FP)
	}
	return a.NaN
}

func (r *Run) isInf(a *Flt, sign int) *smt.Term {
	c := r.c
	if a.FP != nil {
		i := c.FPIs("fp.isInfinite", a.FP)
		n := c.FPIs("fp.isNegative", a.FP)
		switch {
		case sign > 0:
			return c.And(i, c.Not(n))
		case sign < 0:
			return c.And(i, n)
		}
		return i
	}
	i := c.And(c.Not(a.NaN), a.Inf)
	if i.IsFalse() {
		return i
	}
	switch {
	case sign > 0:
		return c.And(i, c.Not(a.neg()))
	case sign < 0:
		return c.And(i, a.neg())
	}
	return i
}

func (r *Run) fite(g *smt.Term, a, b *Flt) *Flt {
	c := r.c
	if g.IsTrue() || a == b {
		return a
	}
	if g.IsFalse() {
		return b
	}
	if a.FP != nil {
		return &Flt{W: a.W, FP: c.Ite(g, a.FP, b.FP)}
	}
	x := &Flt{W: a.W, NaN: c.Ite(g, a.NaN, b.NaN), Inf: c.Ite(g, a.Inf, b.Inf), V: c.Ite(g, a.V, b.V)}
	x.neg = r.lazy(func() *smt.Term { return c.Ite(g, a.neg(), b.neg()) })
	return x
}

// settle tries to decide a condition from the path condition; it returns
// True, False or the condition itself.
func (st *State) settle(t *smt.Term) *smt.Term {
	t = st.simp(t)
	if t.IsConst() {
		return t
	}
	if st.r.NoSettle {
		return t
	}
	if st.infeasible(t) {
		st.learn(st.r.c.Not(t))
		return st.r.c.False
	}
	return t
}

// fabs, floor, etc.

func (r *Run) fabs(x *Flt) *Flt {
	c := r.c
	if x.FP != nil {
		return &Flt{W: x.W, FP: c.FPAbs(x.FP)}
	}
	return &Flt{W: x.W, NaN: x.NaN, Inf: x.Inf, V: r.absT(x.V), neg: func() *smt.Term { return c.False }}
}

func (r *Run) fround(mode string, x *Flt) *Flt {
	c := r.c
	if x.FP != nil {
		return &Flt{W: x.W, FP: c.FPRound(mode, x.FP)}
	}
	fl := func(v *smt.Term) *smt.Term { return c.ToReal(c.ToInt(v)) }
	var v *smt.Term
	switch mode {
	case "RTN":
		v = fl(x.V)
	case "RTP":
		v = c.Neg(fl(c.Neg(x.V)))
	case "RTZ":
		v = c.Ite(c.Le(r.zero, x.V), fl(x.V), c.Neg(fl(c.Neg(x.V))))
	case "RNA":
		h := c.RealC(big.NewRat(1, 2))
		v = c.Ite(c.Le(r.zero, x.V), fl(c.Add(x.V, h)), c.Neg(fl(c.Add(c.Neg(x.V), h))))
	default:
		panic("fround " + mode)
	}
	return &Flt{W: x.W, NaN: x.NaN, Inf: x.Inf, V: v, neg: r.lazy(func() *smt.Term { return r.sign(x) })}
}

func (x *Flt) String() string {
	if f, ok := x.isConst(); ok {
		return fmt.Sprint(f)
	}
	if x.FP != nil {
		return x.FP.String()
	}
	return fmt.Sprintf("{nan %v inf %v %v}", x.NaN, x.Inf, x.V)
}

// trigArg returns key and sign for memoising odd/even functions.
func (r *Run) sincos(v *smt.Term) (s, co *smt.Term) {
	c := r.c
	if v.IsConst() {
		f, _ := v.R.Float64()
		return c.RealF(snap(math.Sin(f))), c.RealF(snap(math.Cos(f)))
	}
	key, sg := c.PolyKey(v)
	if p, ok := r.sc[key]; ok {
		if sg < 0 {
			return c.Neg(p.s), p.c
		}
		return p.s, p.c
	}
	one := big.NewRat(1, 1)
	mone := big.NewRat(-1, 1)
	ps := c.Fresh("sin", smt.Real)
	pc := c.Fresh("cos", smt.Real)
	for _, x := range []*smt.Term{ps, pc} {
		x.Lo, x.Hi = mone, one
	}
	def := c.App("=", smt.Bool, c.Add(c.Mul(ps, ps), c.Mul(pc, pc)), c.RealC(one))
	ps.Defs = append(ps.Defs, def)
	pc.Defs = append(pc.Defs, def)
	arg := v
	if sg < 0 {
		arg = c.Neg(v)
	}
	r.sc[key] = &scPair{s: ps, c: pc, arg: arg}
	r.scOrder = append(r.scOrder, key)
	if sg < 0 {
		return c.Neg(ps), pc
	}
	return ps, pc
}

// snap removes the rounding of sin and cos at multiples of 30 degrees: real mode
// identifies the float64 constant for pi with pi.
func snap(x float64) float64 {
	for _, y := range []float64{0, 1, -1, 0.5, -0.5} {
		if math.Abs(x-y) < 1e-12 {
			return y
		}
	}
	return x
}

type scPair struct{ s, c, arg *smt.Term }
