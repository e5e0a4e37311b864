// Package smt provides hash-consed SMT terms with light simplification,
// an SMT-LIB2 printer, and solver process handling.
package smt

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort of a term.
type Sort int

const (
	Bool Sort = iota
	Int
	Real
	FP64
	FP32
	BVBase // BV(n) is BVBase+n
)

func BV(n int) Sort        { return BVBase + Sort(n) }
func (s Sort) IsBV() bool  { return s > BVBase }
func (s Sort) Width() int  { return int(s - BVBase) }
func (s Sort) IsFP() bool  { return s == FP64 || s == FP32 }
func (s Sort) IsNum() bool { return s == Int || s == Real }
func (s Sort) String() string {
	switch s {
	case Bool:
		return "Bool"
	case Int:
		return "Int"
	case Real:
		return "Real"
	case FP64:
		return "(_ FloatingPoint 11 53)"
	case FP32:
		return "(_ FloatingPoint 8 24)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s.Width())
}

// Term is an immutable hash-consed term. Op is the SMT-LIB operator, or one of
// "const" and "var".
type Term struct {
	ID   int
	Op   string
	Sort Sort
	Args []*Term

	Name string   // variables
	B    bool     // Bool constants
	R    *big.Rat // Int/Real constants
	U    uint64   // BV constants
	F    float64  // FP constants

	// Bounds for Int/Real terms (nil = unbounded), used for cheap decisions.
	Lo, Hi *big.Rat

	// Defs are the definitional constraints of a variable introduced by the
	// engine (division results, square roots, ...). They are part of every
	// query in which the variable occurs.
	Defs []*Term

	poly    *Poly
	polyTry bool
}

// Ctx owns a term universe.
type Ctx struct {
	tab   map[string]*Term
	n     int
	vars  map[string]*Term
	True  *Term
	False *Term
	fresh int
	memo  map[string]*Term // memoised definitional variables
	rules map[int][]rule
	byID  map[int]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, vars: map[string]*Term{}, memo: map[string]*Term{}, rules: map[int][]rule{}, byID: map[int]*Term{}}
	c.True = c.intern(&Term{Op: "const", Sort: Bool, B: true}, "T")
	c.False = c.intern(&Term{Op: "const", Sort: Bool, B: false}, "F")
	return c
}

func (c *Ctx) NumTerms() int { return c.n }

func (c *Ctx) intern(t *Term, key string) *Term {
	if o, ok := c.tab[key]; ok {
		return o
	}
	c.n++
	t.ID = c.n
	c.tab[key] = t
	return t
}

func key(op string, s Sort, args []*Term) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(int(s)))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	return b.String()
}

func (c *Ctx) app(op string, s Sort, args ...*Term) *Term {
	a := append([]*Term(nil), args...)
	return c.intern(&Term{Op: op, Sort: s, Args: a}, key(op, s, a))
}

func (t *Term) IsConst() bool { return t.Op == "const" }
func (t *Term) IsTrue() bool  { return t.Op == "const" && t.Sort == Bool && t.B }
func (t *Term) IsFalse() bool { return t.Op == "const" && t.Sort == Bool && !t.B }

// Var declares (or returns) the variable with the given name.
func (c *Ctx) Var(name string, s Sort) *Term {
	if v, ok := c.vars[name]; ok {
		if v.Sort != s {
			panic("smt: variable redeclared with other sort: " + name)
		}
		return v
	}
	v := c.intern(&Term{Op: "var", Sort: s, Name: name}, "v|"+name)
	c.vars[name] = v
	return v
}

// Fresh returns a new variable.
func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh), s)
}

// Memo returns a definitional variable, created once per key.
func (c *Ctx) Memo(key, prefix string, s Sort, def func(v *Term)) *Term {
	if v, ok := c.memo[key]; ok {
		return v
	}
	v := c.Fresh(prefix, s)
	c.memo[key] = v
	if def != nil {
		def(v)
	}
	return v
}

// ---- constants

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) IntC(v int64) *Term { return c.IntBig(big.NewInt(v)) }

func (c *Ctx) IntBig(v *big.Int) *Term {
	r := new(big.Rat).SetInt(v)
	return c.intern(&Term{Op: "const", Sort: Int, R: r, Lo: r, Hi: r}, "i|"+v.String())
}

func (c *Ctx) RealC(r *big.Rat) *Term {
	return c.intern(&Term{Op: "const", Sort: Real, R: r, Lo: r, Hi: r}, "r|"+r.RatString())
}

func (c *Ctx) RealF(f float64) *Term {
	r := new(big.Rat)
	if r.SetFloat64(f) == nil {
		panic("RealF: not finite")
	}
	return c.RealC(r)
}

func (c *Ctx) BVC(w int, v uint64) *Term {
	if w < 64 {
		v &= (1 << uint(w)) - 1
	}
	return c.intern(&Term{Op: "const", Sort: BV(w), U: v}, fmt.Sprintf("b|%d|%d", w, v))
}

func (c *Ctx) FPC(s Sort, f float64) *Term {
	if s == FP32 {
		f = float64(float32(f))
	}
	bits := math.Float64bits(f)
	if f != f {
		bits = 0x7ff8000000000001
		f = math.NaN()
	}
	return c.intern(&Term{Op: "const", Sort: s, F: f}, fmt.Sprintf("f|%d|%x", s, bits))
}

// signed value of BV constant
func (t *Term) SVal() int64 {
	w := t.Sort.Width()
	if w == 64 {
		return int64(t.U)
	}
	v := t.U
	if v&(1<<uint(w-1)) != 0 {
		v |= ^uint64(0) << uint(w)
	}
	return int64(v)
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(!a.B)
	}
	if a.Op == "not" {
		return a.Args[0]
	}
	return c.app("not", Bool, a)
}

func (c *Ctx) And(as ...*Term) *Term { return c.nary("and", as) }
func (c *Ctx) Or(as ...*Term) *Term  { return c.nary("or", as) }

func (c *Ctx) nary(op string, as []*Term) *Term {
	unit := op == "and"
	seen := map[int]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.IsConst() {
			return t.B == unit
		}
		if t.Op == op {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.ID] {
			return true
		}
		if seen[c.Not(t).ID] {
			return false
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.Bool(!unit)
		}
	}
	switch len(out) {
	case 0:
		return c.Bool(unit)
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return c.app(op, Bool, out...)
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Xor(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.IsConst() {
		if g.B {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite: sorts differ: %v %v", a.Sort, b.Sort))
	}
	if g.Op == "not" {
		g, a, b = g.Args[0], b, a
	}
	if a.Sort == Bool {
		if a.IsConst() {
			if a.B {
				return c.Or(g, b)
			}
			return c.And(c.Not(g), b)
		}
		if b.IsConst() {
			if b.B {
				return c.Or(c.Not(g), a)
			}
			return c.And(g, a)
		}
	}
	if a.Op == "ite" && a.Args[0] == g {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == g {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	t := c.app("ite", a.Sort, g, a, b)
	if t.Lo == nil && a.Lo != nil && b.Lo != nil {
		t.Lo = minR(a.Lo, b.Lo)
	}
	if t.Hi == nil && a.Hi != nil && b.Hi != nil {
		t.Hi = maxR(a.Hi, b.Hi)
	}
	return t
}

func minR(a, b *big.Rat) *big.Rat {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxR(a, b *big.Rat) *big.Rat {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// Eq is SMT equality (for FP this is structural equality, not fp.eq).
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq: sorts differ: %v %v", a.Sort, b.Sort))
	}
	if a.IsConst() && b.IsConst() {
		return c.False // hash-consed, distinct
	}
	if a.Sort == Bool {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.B {
				return a
			}
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	}
	if a.Sort.IsNum() {
		if disjoint(a, b) {
			return c.False
		}
		if a.Sort == Real {
			if k, ok := c.ConstDiff(a, b); ok {
				return c.Bool(k.Sign() == 0)
			}
		}
		// push equality with constant through ite with constant branches
		if r := c.cmpIte("=", a, b); r != nil {
			return r
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.app("=", Bool, a, b)
}

func disjoint(a, b *Term) bool {
	if a.Lo != nil && b.Hi != nil && a.Lo.Cmp(b.Hi) > 0 {
		return true
	}
	if b.Lo != nil && a.Hi != nil && b.Lo.Cmp(a.Hi) > 0 {
		return true
	}
	return false
}

// cmpIte: comparison of ite(g,k1,k2) with a constant, where k1/k2 are constants.
func (c *Ctx) cmpIte(op string, a, b *Term) *Term {
	f := func(x, y *Term) *Term {
		if op == "=" {
			return c.Eq(x, y)
		}
		return c.cmp(op, x, y)
	}
	if a.Op == "ite" && b.IsConst() && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
		return c.Ite(a.Args[0], f(a.Args[1], b), f(a.Args[2], b))
	}
	if b.Op == "ite" && a.IsConst() && (b.Args[1].IsConst() || b.Args[2].IsConst()) {
		return c.Ite(b.Args[0], f(a, b.Args[1]), f(a, b.Args[2]))
	}
	return nil
}

// ---- arithmetic on Int and Real

func (c *Ctx) numC(s Sort, r *big.Rat) *Term {
	if s == Int {
		if !r.IsInt() {
			panic("numC: non integer")
		}
		return c.IntBig(new(big.Int).Set(r.Num()))
	}
	return c.RealC(r)
}

func (c *Ctx) setB(t *Term, lo, hi *big.Rat) *Term {
	if t.IsConst() {
		return t
	}
	if lo != nil && (t.Lo == nil || t.Lo.Cmp(lo) < 0) {
		t.Lo = lo
	}
	if hi != nil && (t.Hi == nil || t.Hi.Cmp(hi) > 0) {
		t.Hi = hi
	}
	return t
}

func addR(a, b *big.Rat) *big.Rat {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Rat).Add(a, b)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.numC(a.Sort, new(big.Rat).Add(a.R, b.R))
	}
	if a.IsConst() && a.R.Sign() == 0 {
		return b
	}
	if b.IsConst() && b.R.Sign() == 0 {
		return a
	}
	if b.Op == "-" && len(b.Args) == 1 {
		return c.Sub(a, b.Args[0])
	}
	if a.Op == "-" && len(a.Args) == 1 {
		return c.Sub(b, a.Args[0])
	}
	// (x + k1) + k2
	if b.IsConst() && a.Op == "+" && a.Args[1].IsConst() {
		return c.Add(a.Args[0], c.numC(a.Sort, new(big.Rat).Add(a.Args[1].R, b.R)))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if !b.IsConst() && a.ID > b.ID {
		a, b = b, a
	}
	t := c.app("+", a.Sort, a, b)
	return c.setB(t, addR(a.Lo, b.Lo), addR(a.Hi, b.Hi))
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.IsConst() {
		return c.numC(a.Sort, new(big.Rat).Neg(a.R))
	}
	if a.Op == "-" {
		if len(a.Args) == 1 {
			return a.Args[0]
		}
		return c.Sub(a.Args[1], a.Args[0])
	}
	if a.Op == "*" && a.Args[0].IsConst() {
		return c.Mul(c.numC(a.Sort, new(big.Rat).Neg(a.Args[0].R)), a.Args[1])
	}
	t := c.app("-", a.Sort, a)
	var lo, hi *big.Rat
	if a.Hi != nil {
		lo = new(big.Rat).Neg(a.Hi)
	}
	if a.Lo != nil {
		hi = new(big.Rat).Neg(a.Lo)
	}
	return c.setB(t, lo, hi)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.numC(a.Sort, new(big.Rat))
	}
	if b.IsConst() {
		return c.Add(a, c.numC(a.Sort, new(big.Rat).Neg(b.R)))
	}
	if a.IsConst() && a.R.Sign() == 0 {
		return c.Neg(b)
	}
	if b.Op == "-" && len(b.Args) == 1 {
		return c.Add(a, b.Args[0])
	}
	t := c.app("-", a.Sort, a, b)
	var lo, hi *big.Rat
	if a.Lo != nil && b.Hi != nil {
		lo = new(big.Rat).Sub(a.Lo, b.Hi)
	}
	if a.Hi != nil && b.Lo != nil {
		hi = new(big.Rat).Sub(a.Hi, b.Lo)
	}
	return c.setB(t, lo, hi)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.numC(a.Sort, new(big.Rat).Mul(a.R, b.R))
	}
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		switch {
		case a.R.Sign() == 0:
			return a
		case a.R.Cmp(big.NewRat(1, 1)) == 0:
			return b
		case a.R.Cmp(big.NewRat(-1, 1)) == 0:
			return c.Neg(b)
		}
		if b.Op == "*" && b.Args[0].IsConst() {
			return c.Mul(c.numC(a.Sort, new(big.Rat).Mul(a.R, b.Args[0].R)), b.Args[1])
		}
		if b.Op == "-" && len(b.Args) == 1 {
			return c.Mul(c.Neg(a), b.Args[0])
		}
	} else {
		if a.Op == "-" && len(a.Args) == 1 {
			return c.Neg(c.Mul(a.Args[0], b))
		}
		if b.Op == "-" && len(b.Args) == 1 {
			return c.Neg(c.Mul(a, b.Args[0]))
		}
		if a.Op == "*" && a.Args[0].IsConst() {
			return c.Mul(a.Args[0], c.Mul(a.Args[1], b))
		}
		if b.Op == "*" && b.Args[0].IsConst() {
			return c.Mul(b.Args[0], c.Mul(a, b.Args[1]))
		}
		if a.ID > b.ID {
			a, b = b, a
		}
	}
	t := c.app("*", a.Sort, a, b)
	if a == b {
		t = c.setB(t, new(big.Rat), nil)
	}
	if a.Lo != nil && a.Hi != nil && b.Lo != nil && b.Hi != nil {
		var lo, hi *big.Rat
		for _, x := range []*big.Rat{a.Lo, a.Hi} {
			for _, y := range []*big.Rat{b.Lo, b.Hi} {
				p := new(big.Rat).Mul(x, y)
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
		t = c.setB(t, lo, hi)
	} else if a.Lo != nil && b.Lo != nil && a.Lo.Sign() >= 0 && b.Lo.Sign() >= 0 {
		t = c.setB(t, new(big.Rat).Mul(a.Lo, b.Lo), nil)
	}
	return t
}

// IntDiv/IntMod: SMT-LIB euclidean (floor for positive divisor) on Int.
func (c *Ctx) IntDivE(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.R.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.R.Num(), b.R.Num(), m)
		return c.IntBig(q)
	}
	if b.IsConst() && b.R.Cmp(big.NewRat(1, 1)) == 0 {
		return a
	}
	t := c.app("div", Int, a, b)
	if b.IsConst() && b.R.Sign() > 0 {
		if a.Lo != nil && a.Hi != nil {
			lo := new(big.Int).Div(floorBig(a.Lo), b.R.Num())
			hi := new(big.Int).Div(floorBig(a.Hi), b.R.Num())
			t = c.setB(t, new(big.Rat).SetInt(lo), new(big.Rat).SetInt(hi))
		}
	} else if b.Lo != nil && b.Lo.Sign() > 0 && a.Lo != nil && a.Lo.Sign() >= 0 {
		t = c.setB(t, new(big.Rat), a.Hi)
	}
	return t
}

func floorBig(r *big.Rat) *big.Int {
	return new(big.Int).Div(r.Num(), r.Denom())
}

func (c *Ctx) IntModE(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.R.Sign() != 0 {
		m := new(big.Int).Mod(a.R.Num(), b.R.Num())
		return c.IntBig(m)
	}
	t := c.app("mod", Int, a, b)
	var hi *big.Rat
	if b.Hi != nil {
		hi = new(big.Rat).Sub(b.Hi, big.NewRat(1, 1))
	}
	return c.setB(t, new(big.Rat), hi)
}

func (c *Ctx) ToReal(a *Term) *Term {
	if a.Sort == Real {
		return a
	}
	if a.IsConst() {
		return c.RealC(a.R)
	}
	t := c.app("to_real", Real, a)
	return c.setB(t, a.Lo, a.Hi)
}

// ToInt is floor.
func (c *Ctx) ToInt(a *Term) *Term {
	if a.IsConst() {
		return c.IntBig(floorBig(a.R))
	}
	if a.Op == "to_real" {
		return a.Args[0]
	}
	if a.Op == "ite" {
		return c.Ite(a.Args[0], c.ToInt(a.Args[1]), c.ToInt(a.Args[2]))
	}
	t := c.app("to_int", Int, a)
	var lo, hi *big.Rat
	if a.Lo != nil {
		lo = new(big.Rat).SetInt(floorBig(a.Lo))
	}
	if a.Hi != nil {
		hi = new(big.Rat).SetInt(floorBig(a.Hi))
	}
	return c.setB(t, lo, hi)
}

func (c *Ctx) Lt(a, b *Term) *Term { return c.cmp("<", a, b) }
func (c *Ctx) Le(a, b *Term) *Term { return c.cmp("<=", a, b) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.cmp("<", b, a) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.cmp("<=", b, a) }

func (c *Ctx) cmp(op string, a, b *Term) *Term {
	if a == b {
		return c.Bool(op == "<=")
	}
	if a.Hi != nil && b.Lo != nil {
		k := a.Hi.Cmp(b.Lo)
		if k < 0 || (k == 0 && op == "<=") {
			return c.True
		}
	}
	if a.Lo != nil && b.Hi != nil {
		k := a.Lo.Cmp(b.Hi)
		if k > 0 || (k == 0 && op == "<") {
			return c.False
		}
	}
	if a.IsConst() && b.IsConst() {
		k := a.R.Cmp(b.R)
		return c.Bool(k < 0 || (k == 0 && op == "<="))
	}
	if a.Sort == Real {
		if k, ok := c.ConstDiff(a, b); ok {
			return c.Bool(k.Sign() < 0 || (k.Sign() == 0 && op == "<="))
		}
	}
	if r := c.cmpIte(op, a, b); r != nil {
		return r
	}
	// canonical form: only "<=" and "not <=" : a<b  ==  not (b<=a)
	if op == "<" {
		return c.Not(c.app("<=", Bool, b, a))
	}
	return c.app("<=", Bool, a, b)
}

// ---- generic application (BV and FP)

func (c *Ctx) App(op string, s Sort, args ...*Term) *Term { return c.app(op, s, args...) }

// ---- printing

func (t *Term) constString() string {
	switch {
	case t.Sort == Bool && t.Name != "":
		return t.Name // rounding mode
	case t.Sort == Bool:
		return strconv.FormatBool(t.B)
	case t.Sort == Int:
		n := t.R.Num()
		if n.Sign() < 0 {
			return "(- " + new(big.Int).Neg(n).String() + ")"
		}
		return n.String()
	case t.Sort == Real:
		n, d := t.R.Num(), t.R.Denom()
		s := new(big.Int).Abs(n).String() + ".0"
		if d.Cmp(big.NewInt(1)) != 0 {
			s = "(/ " + s + " " + d.String() + ".0)"
		}
		if n.Sign() < 0 {
			s = "(- " + s + ")"
		}
		return s
	case t.Sort == FP64:
		if t.F != t.F {
			return "(_ NaN 11 53)"
		}
		b := math.Float64bits(t.F)
		return fmt.Sprintf("(fp #b%d #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&(1<<52-1))
	case t.Sort == FP32:
		if t.F != t.F {
			return "(_ NaN 8 24)"
		}
		b := math.Float32bits(float32(t.F))
		return fmt.Sprintf("(fp #b%d #b%08b #b%023b)", b>>31, (b>>23)&0xff, b&(1<<23-1))
	case t.Sort.IsBV():
		return fmt.Sprintf("(_ bv%d %d)", t.U, t.Sort.Width())
	}
	panic("constString")
}

func quote(n string) string { return "|" + n + "|" }

// String prints a term without sharing (debugging only).
func (t *Term) String() string {
	return t.str(6)
}
func (t *Term) str(d int) string {
	switch t.Op {
	case "const":
		if t.Sort == Real {
			f, _ := t.R.Float64()
			return fmt.Sprint(f)
		}
		return t.constString()
	case "var":
		return t.Name
	}
	if d == 0 {
		return "…"
	}
	var b strings.Builder
	b.WriteString("(" + t.Op)
	for _, a := range t.Args {
		b.WriteString(" " + a.str(d-1))
	}
	b.WriteString(")")
	return b.String()
}

// Script renders a query: declarations, definitions for shared terms, and assertions.
// Every definitional constraint of every variable in the cone is included.
func Script(asserts []*Term) (script string, vars []*Term) {
	s, v, _ := ScriptObs(asserts, nil)
	return s, v
}

// ScriptObs is Script with additional observed terms, which are not asserted;
// it returns the SMT-LIB expression to query for each.
func ScriptObs(asserts, obs []*Term) (script string, vars []*Term, obsRef []string) {
	cnt := map[*Term]int{}
	var order []*Term
	var varList []*Term
	var all []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
		if t.Op == "var" {
			varList = append(varList, t)
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		visit(a)
		all = append(all, a)
	}
	for _, o := range obs {
		visit(o)
	}
	for i := 0; i < len(varList); i++ {
		for _, d := range varList[i].Defs {
			visit(d)
			all = append(all, d)
		}
	}
	var b strings.Builder
	for _, v := range varList {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", quote(v.Name), v.Sort)
	}
	names := map[*Term]string{}
	ref := func(t *Term) string {
		if n, ok := names[t]; ok {
			return n
		}
		switch t.Op {
		case "const":
			return t.constString()
		case "var":
			return quote(t.Name)
		}
		panic("ref")
	}
	for _, t := range order {
		if t.Op == "const" || t.Op == "var" {
			continue
		}
		var e strings.Builder
		e.WriteString("(" + t.Op)
		for _, a := range t.Args {
			e.WriteByte(' ')
			e.WriteString(ref(a))
		}
		e.WriteByte(')')
		if cnt[t] == 1 && e.Len() < 4000 {
			names[t] = e.String()
			continue
		}
		n := fmt.Sprintf("t%d", t.ID)
		fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.Sort, e.String())
		names[t] = n
	}
	seen := map[*Term]bool{}
	for _, a := range all {
		if seen[a] {
			continue
		}
		seen[a] = true
		fmt.Fprintf(&b, "(assert %s)\n", ref(a))
	}
	for _, o := range obs {
		obsRef = append(obsRef, ref(o))
	}
	return b.String(), varList, obsRef
}

// Vars returns the variables in the cone of ts including definitional ones.
func Vars(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			visit(a)
		}
		if t.Op == "var" {
			out = append(out, t)
			for _, d := range t.Defs {
				visit(d)
			}
		}
	}
	for _, t := range ts {
		visit(t)
	}
	return out
}
