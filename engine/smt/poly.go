package smt

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Poly is a polynomial normal form over atoms (non-arithmetic Real terms).
// It is only used to recognise that two real terms differ by a constant.
type Poly struct {
	m   map[string]*mono
	red bool // a rewrite rule was used
}

type mono struct {
	k   *big.Rat
	ids []int // sorted atom ids, with repetition
}

const (
	polyMaxTerms = 400
	polyMaxDeg   = 14
)

func monoKey(ids []int) string {
	var b strings.Builder
	for _, i := range ids {
		b.WriteString(strconv.Itoa(i))
		b.WriteByte(',')
	}
	return b.String()
}

func (p *Poly) add(k *big.Rat, ids []int) {
	key := monoKey(ids)
	if o, ok := p.m[key]; ok {
		s := new(big.Rat).Add(o.k, k)
		if s.Sign() == 0 {
			delete(p.m, key)
		} else {
			p.m[key] = &mono{s, o.ids}
		}
		return
	}
	if k.Sign() != 0 {
		p.m[key] = &mono{k, ids}
	}
}

// rule rewrites the product of the variable v with the monomial lm to rhs.
type rule struct {
	lm  []int // sorted ids, including v
	rhs []*mono
}

func lessMono(a, b []int) bool { // graded lexicographic
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] > b[i]
		}
	}
	return false
}

func (p *Poly) lead() *mono {
	var l *mono
	for _, m := range p.m {
		if l == nil || lessMono(l.ids, m.ids) {
			l = m
		}
	}
	return l
}

// divides returns b/a as monomials.
func monoDiv(b, a []int) ([]int, bool) {
	if len(a) > len(b) {
		return nil, false
	}
	out := make([]int, 0, len(b)-len(a))
	i := 0
	for _, x := range b {
		if i < len(a) && a[i] == x {
			i++
			continue
		}
		if i < len(a) && a[i] < x {
			return nil, false
		}
		out = append(out, x)
	}
	return out, i == len(a)
}

func monoMul(a, b []int) []int {
	ids := make([]int, 0, len(a)+len(b))
	ids = append(append(ids, a...), b...)
	sort.Ints(ids)
	return ids
}

// addReduced adds k*ids after rewriting; it reports failure when the budget is exhausted.
func (c *Ctx) addReduced(p *Poly, k *big.Rat, ids []int, budget *int) bool {
	if len(c.rules) > 0 {
		for i, v := range ids {
			if i > 0 && ids[i-1] == v {
				continue
			}
			for _, r := range c.rules[v] {
				rest, ok := monoDiv(ids, r.lm)
				if !ok {
					continue
				}
				*budget--
				if *budget < 0 {
					return false
				}
				p.red = true
				for _, m := range r.rhs {
					if !c.addReduced(p, new(big.Rat).Mul(k, m.k), monoMul(rest, m.ids), budget) {
						return false
					}
				}
				return true
			}
		}
	}
	p.add(k, ids)
	return true
}

// SetInverse records q*base = 1 as a rewrite rule. The rule is used only for values
// that are guarded by base != 0.
func (c *Ctx) SetInverse(q, base *Term) {
	b := c.polyOf(base)
	if b == nil || len(b.m) == 0 || len(b.m) > 60 {
		return
	}
	l := b.lead()
	if len(l.ids) == 0 {
		return
	}
	ik := new(big.Rat).Inv(l.k)
	r := rule{lm: monoMul([]int{q.ID}, l.ids), rhs: []*mono{{ik, nil}}}
	for _, m := range b.m {
		if m == l {
			continue
		}
		r.rhs = append(r.rhs, &mono{new(big.Rat).Neg(new(big.Rat).Mul(ik, m.k)), monoMul([]int{q.ID}, m.ids)})
	}
	c.rules[q.ID] = append(c.rules[q.ID], r)
}

// SetSquare records that s*s = v as a rewrite rule (for values guarded by v >= 0).
func (c *Ctx) SetSquare(s, v *Term) {
	b := c.polyOf(v)
	if b == nil || len(b.m) > 120 {
		return
	}
	r := rule{lm: []int{s.ID, s.ID}}
	for _, m := range b.m {
		r.rhs = append(r.rhs, m)
	}
	c.rules[s.ID] = append(c.rules[s.ID], r)
}

// PolySqrt returns p with p*p = t, if t is a perfect square as a polynomial.
func (c *Ctx) PolySqrt(t *Term) *Term {
	p := c.polyOf(t)
	if p == nil || len(p.m) == 0 {
		return nil
	}
	rem := &Poly{m: map[string]*mono{}}
	for k, v := range p.m {
		rem.m[k] = v
	}
	l := rem.lead()
	if l.k.Sign() < 0 || len(l.ids)%2 != 0 {
		return nil
	}
	k := ratSqrt(l.k)
	if k == nil {
		return nil
	}
	var half []int
	for i := 0; i < len(l.ids); i += 2 {
		if l.ids[i] != l.ids[i+1] {
			return nil
		}
		half = append(half, l.ids[i])
	}
	root := []*mono{{k, half}}
	sub := func(k *big.Rat, ids []int) { rem.add(new(big.Rat).Neg(k), ids) }
	sub(l.k, l.ids)
	two := big.NewRat(2, 1)
	for len(rem.m) > 0 {
		if len(root) > 60 {
			return nil
		}
		m := rem.lead()
		q, ok := monoDiv(m.ids, half)
		if !ok {
			return nil
		}
		nk := new(big.Rat).Quo(m.k, new(big.Rat).Mul(two, k))
		for _, o := range root {
			sub(new(big.Rat).Mul(two, new(big.Rat).Mul(o.k, nk)), monoMul(o.ids, q))
		}
		sub(new(big.Rat).Mul(nk, nk), monoMul(q, q))
		if !lessMono(q, root[len(root)-1].ids) {
			return nil
		}
		root = append(root, &mono{nk, q})
	}
	return c.fromMonos(root)
}

func ratSqrt(r *big.Rat) *big.Rat {
	n := new(big.Int).Sqrt(r.Num())
	d := new(big.Int).Sqrt(r.Denom())
	q := new(big.Rat).SetFrac(n, d)
	if new(big.Rat).Mul(q, q).Cmp(r) == 0 {
		return q
	}
	return nil
}

func (c *Ctx) fromMonos(ms []*mono) *Term {
	sort.Slice(ms, func(i, j int) bool { return lessMono(ms[j].ids, ms[i].ids) })
	var sum *Term
	for _, m := range ms {
		var t *Term
		for _, id := range m.ids {
			a := c.byID[id]
			if t == nil {
				t = a
			} else {
				t = c.Mul(t, a)
			}
		}
		k := c.RealC(m.k)
		if t == nil {
			t = k
		} else {
			t = c.Mul(k, t)
		}
		if sum == nil {
			sum = t
		} else {
			sum = c.Add(sum, t)
		}
	}
	if sum == nil {
		return c.RealC(new(big.Rat))
	}
	return sum
}

// Canon rebuilds a term from its normal form when rewriting simplified it.
func (c *Ctx) Canon(t *Term) *Term {
	if t.IsConst() || len(c.rules) == 0 {
		return t
	}
	p := c.polyOf(t)
	if p == nil || !p.red || len(p.m) > 24 {
		return t
	}
	var ms []*mono
	for _, m := range p.m {
		ms = append(ms, m)
	}
	return c.fromMonos(ms)
}

func (c *Ctx) polyOf(t *Term) *Poly {
	if t.polyTry {
		return t.poly
	}
	t.polyTry = true
	t.poly = c.polyCompute(t)
	return t.poly
}

func (c *Ctx) polyCompute(t *Term) *Poly {
	switch {
	case t.IsConst():
		p := &Poly{m: map[string]*mono{}}
		p.add(t.R, nil)
		return p
	case t.Op == "+" || (t.Op == "-" && len(t.Args) == 2):
		a, b := c.polyOf(t.Args[0]), c.polyOf(t.Args[1])
		if a == nil || b == nil {
			return nil
		}
		p := &Poly{m: make(map[string]*mono, len(a.m)+len(b.m)), red: a.red || b.red}
		for k, v := range a.m {
			p.m[k] = v
		}
		for _, v := range b.m {
			k := v.k
			if t.Op == "-" {
				k = new(big.Rat).Neg(k)
			}
			p.add(k, v.ids)
		}
		if len(p.m) > polyMaxTerms {
			return nil
		}
		return p
	case t.Op == "-":
		a := c.polyOf(t.Args[0])
		if a == nil {
			return nil
		}
		p := &Poly{m: make(map[string]*mono, len(a.m)), red: a.red}
		for k, v := range a.m {
			p.m[k] = &mono{new(big.Rat).Neg(v.k), v.ids}
		}
		return p
	case t.Op == "*":
		a, b := c.polyOf(t.Args[0]), c.polyOf(t.Args[1])
		if a == nil || b == nil || len(a.m)*len(b.m) > 4*polyMaxTerms {
			return nil
		}
		p := &Poly{m: map[string]*mono{}, red: a.red || b.red}
		budget := 3000
		for _, x := range a.m {
			for _, y := range b.m {
				if len(x.ids)+len(y.ids) > polyMaxDeg {
					return nil
				}
				if !c.addReduced(p, new(big.Rat).Mul(x.k, y.k), monoMul(x.ids, y.ids), &budget) {
					return nil
				}
			}
		}
		if len(p.m) > polyMaxTerms {
			return nil
		}
		return p
	}
	p := &Poly{m: map[string]*mono{}}
	c.byID[t.ID] = t
	p.add(big.NewRat(1, 1), []int{t.ID})
	return p
}

// constDiff reports whether a-b is a constant polynomial.
func (c *Ctx) ConstDiff(a, b *Term) (*big.Rat, bool) {
	p, q := c.polyOf(a), c.polyOf(b)
	if p == nil || q == nil {
		return nil, false
	}
	// every nonconstant monomial must agree
	n := 0
	for k, v := range p.m {
		if k == "" {
			continue
		}
		n++
		w, ok := q.m[k]
		if !ok || w.k.Cmp(v.k) != 0 {
			return nil, false
		}
	}
	for k := range q.m {
		if k != "" {
			n--
		}
	}
	if n != 0 {
		return nil, false
	}
	r := new(big.Rat)
	if v, ok := p.m[""]; ok {
		r.Add(r, v.k)
	}
	if v, ok := q.m[""]; ok {
		r.Sub(r, v.k)
	}
	return r, true
}

// PolyKey returns a key identifying t up to sign, as a polynomial, and the sign
// (+1 or -1) of its leading coefficient in the canonical order.
func (c *Ctx) PolyKey(t *Term) (string, int) {
	p := c.polyOf(t)
	if p == nil || len(p.m) == 0 {
		return "#" + strconv.Itoa(t.ID), 1
	}
	keys := make([]string, 0, len(p.m))
	for k := range p.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	sg := 1
	// leading: first non-constant monomial in order, else the constant
	lead := keys[0]
	if lead == "" && len(keys) > 1 {
		lead = keys[1]
	}
	if p.m[lead].k.Sign() < 0 {
		sg = -1
	}
	var b strings.Builder
	for _, k := range keys {
		r := p.m[k].k
		if sg < 0 {
			r = new(big.Rat).Neg(r)
		}
		b.WriteString(r.RatString())
		b.WriteByte(':')
		b.WriteString(k)
		b.WriteByte(';')
	}
	return b.String(), sg
}

// LinearIn returns k,b if t = k*v + b.
func (c *Ctx) LinearIn(t, v *Term) (k, b *big.Rat, ok bool) {
	p := c.polyOf(t)
	if p == nil {
		return nil, nil, false
	}
	k, b = new(big.Rat), new(big.Rat)
	for key, m := range p.m {
		switch {
		case key == "":
			b = m.k
		case len(m.ids) == 1 && m.ids[0] == v.ID:
			k = m.k
		default:
			return nil, nil, false
		}
	}
	return k, b, k.Sign() != 0
}
