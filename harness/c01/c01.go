// C01: affine transforms form the algebra the documentation states.
package main

import (
	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/geom"
)

func same(a, b *geom.AffineTransform) bool {
	return vf.And(hx.SameV(a.A[0], b.A[0]), hx.SameV(a.A[1], b.A[1]), hx.SameV(a.A[2], b.A[2]), hx.SameV(a.B, b.B))
}

// Applying a transform is A p + b for points and A d for directions, so that the image of a
// displacement does not depend on where it starts.
func H_Apply() {
	t := hx.Affine("t")
	p, d := hx.V("p"), hx.V("d")
	hx.EqV(t.TransformPoint(p), hx.Apply(t, p), "TransformPoint is A p + b")
	hx.EqV(t.TransformDir(d), hx.ApplyDir(t, d), "TransformDir is A d")
	hx.EqV(hx.Sub(t.TransformPoint(hx.Add(p, d)), t.TransformPoint(p)), t.TransformDir(d), "TransformDir ignores translation")
	hx.ObsV("q", t.TransformPoint(p))
}

// The inverse of every non-singular transform undoes it from both sides, for points and directions.
func H_Inverse() {
	t := hx.Affine("t")
	vf.Assume(hx.Det(t.A) != 0)
	p := hx.V("p")
	inv := t.Inverse()
	q := inv.TransformPoint(t.TransformPoint(p))
	hx.EqV(q, p, "inverse after t")
	hx.EqV(t.TransformPoint(inv.TransformPoint(p)), p, "t after inverse")
	hx.EqV(inv.TransformDir(t.TransformDir(p)), p, "inverse after t on directions")
	hx.EqV(t.TransformDir(inv.TransformDir(p)), p, "t after inverse on directions")
	hx.ObsV("q", q)
}

// Before, After and ComposeLR apply the transforms in the documented order and leave the operands alone.
func H_Compose() {
	a, b, c := hx.Affine("a"), hx.Affine("b"), hx.Affine("c")
	a0, b0, c0 := *a, *b, *c
	p := hx.V("p")
	hx.EqV(a.Before(b).TransformPoint(p), hx.Apply(b, hx.Apply(a, p)), "a.Before(b) applies a first")
	hx.EqV(a.After(b).TransformPoint(p), hx.Apply(a, hx.Apply(b, p)), "a.After(b) applies b first")
	hx.EqV(geom.ComposeLR(a, b, c).TransformPoint(p), hx.Apply(c, hx.Apply(b, hx.Apply(a, p))), "ComposeLR applies leftmost first")
	hx.EqV(geom.ComposeLR(a, b, c).TransformDir(p), hx.ApplyDir(c, hx.ApplyDir(b, hx.ApplyDir(a, p))), "ComposeLR on directions")
	hx.EqV(geom.ComposeLR(a, b).TransformPoint(p), hx.Apply(b, hx.Apply(a, p)), "ComposeLR of two")
	hx.EqV(geom.ComposeLR(a).TransformPoint(p), hx.Apply(a, p), "ComposeLR of one")
	hx.EqV(geom.ComposeLR().TransformPoint(p), p, "ComposeLR of none")
	vf.Assert(same(a, &a0), "first operand unchanged")
	vf.Assert(same(b, &b0), "second operand unchanged")
	vf.Assert(same(c, &c0), "third operand unchanged")
	hx.ObsV("q", geom.ComposeLR(a, b, c).TransformPoint(p))
}

// Longer lists, of transforms of any kind.
func H_ComposeMany() {
	n := vf.Conc(vf.Int("n", 4, 5))
	kinds := vf.Conc(vf.Int("kinds", 0, 1<<uint(n)-1))
	var t []*geom.AffineTransform
	var t0 []geom.AffineTransform
	p := hx.V("p")
	q := p
	for i := 0; i < n; i++ {
		id := string(rune('a' + i))
		var x *geom.AffineTransform
		if kinds&(1<<uint(i)) != 0 {
			x = geom.Translate(hx.V(id))
		} else {
			x = &geom.AffineTransform{A: geom.Matrix{{0, 1, 0}, {vf.Float(id+".k", -3, 3), 0, 0}, {0, 0, -1}}, B: hx.V(id)}
		}
		t, t0 = append(t, x), append(t0, *x)
		q = hx.Apply(x, q)
	}
	hx.EqV(geom.ComposeLR(t...).TransformPoint(p), q, "ComposeLR applies leftmost first")
	for i := range t {
		vf.Assert(same(t[i], &t0[i]), "operands unchanged")
	}
}

// Translate, Scale, UnitTransform and MapBaseTo are the maps their documentation says.
func H_Elementary() {
	p, d, o := hx.V("p"), hx.V("d"), hx.V("o")
	s := vf.Float("s", -10, 10)
	hx.EqV(geom.Translate(d).TransformPoint(p), hx.Add(p, d), "Translate moves points")
	hx.EqV(geom.Translate(d).TransformDir(p), p, "Translate leaves directions")
	hx.EqV(geom.Scale(o, s).TransformPoint(p), hx.MAdd(o, s, hx.Sub(p, o)), "Scale about its origin")
	hx.EqV(geom.Scale(o, s).TransformDir(p), hx.Mul(s, p), "Scale scales directions")
	hx.EqV(geom.UnitTransform().TransformPoint(p), p, "unit transform on points")
	hx.EqV(geom.UnitTransform().TransformDir(p), p, "unit transform on directions")
	x, y, z := hx.V("x"), hx.V("y"), hx.V("z")
	m := geom.MapBaseTo(o, x, y, z)
	hx.EqV(m.TransformPoint(hx.Vec{0, 0, 0}), o, "MapBaseTo origin")
	hx.EqV(m.TransformPoint(hx.Vec{1, 0, 0}), x, "MapBaseTo x")
	hx.EqV(m.TransformPoint(hx.Vec{0, 1, 0}), y, "MapBaseTo y")
	hx.EqV(m.TransformPoint(hx.Vec{0, 0, 1}), z, "MapBaseTo z")
	hx.ObsV("q", m.TransformPoint(p))
}

// WithOrigin keeps the linear part and moves the fixed point.
func H_WithOrigin() {
	t := hx.Affine("t")
	t0 := *t
	o, d := hx.V("o"), hx.V("d")
	w := t.WithOrigin(o)
	// w(p) = o + t(p - o)
	p := hx.Add(o, d)
	hx.EqV(w.TransformPoint(p), hx.Add(o, hx.Apply(t, d)), "WithOrigin conjugates by the translation")
	hx.EqV(w.TransformDir(d), hx.ApplyDir(t, d), "WithOrigin keeps the linear part")
	t.B = hx.Vec{}
	hx.EqV(t.WithOrigin(o).TransformPoint(o), o, "the origin is the fixed point of a linear map")
	t.B = t0.B
	vf.Assert(same(t, &t0), "operand unchanged")
	hx.ObsV("q", w.TransformPoint(p))
}

// Matrix multiplication, inversion and scaling agree with their action on vectors.
func H_Matrix() {
	a, b := hx.Affine("a"), hx.Affine("b")
	v := hx.V("v")
	s := vf.Float("s", -10, 10)
	ab := a.A.Mul(&b.A)
	hx.EqV(ab.MulVec(v), hx.ApplyDir(a, hx.ApplyDir(b, v)), "Mul is composition")
	sa := a.A.Mulf(s)
	hx.EqV(sa.MulVec(v), hx.Mul(s, hx.ApplyDir(a, v)), "Mulf scales")
	u := geom.UnitMatrix()
	hx.EqV(u.MulVec(v), v, "UnitMatrix")
	vf.Assume(hx.Det(a.A) != 0)
	inv := a.A.Inverse()
	hx.EqV(inv.MulVec(hx.ApplyDir(a, v)), v, "Inverse")
	hx.ObsV("q", ab.MulVec(v))
}

// Vector algebra: sums, products, lengths, normalisation.
func H_Vec() {
	a, b := hx.V("a"), hx.V("b")
	s := vf.Float("s", -100, 100)
	hx.EqV(a.Add(b), hx.Add(a, b), "Add")
	hx.EqV(a.Sub(b), hx.Sub(a, b), "Sub")
	hx.EqV(a.Mul(s), hx.Mul(s, a), "Mul")
	hx.EqV(a.MAdd(s, b), hx.MAdd(a, s, b), "MAdd")
	vf.Assert(vf.Eq(a.Dot(b), hx.Dot(a, b)), "Dot")
	hx.EqV(a.Cross(b), hx.Cross(a, b), "Cross")
	vf.Assert(vf.Eq(a.Len2(), hx.Dot(a, a)), "Len2")
	l := a.Len()
	vf.Assert(vf.And(l >= 0, vf.Eq(l*l, hx.Dot(a, a))), "Len")
	vf.Assume(hx.Dot(a, a) > 0.01)
	n := a.Normalized()
	hx.EqV(hx.Mul(l, n), a, "Normalized is parallel")
	vf.Assert(vf.Eq(hx.Dot(n, n), 1), "Normalized has unit length")
	m := a
	m.Normalize()
	hx.EqV(m, n, "Normalize agrees with Normalized")
	vf.Assume(hx.Dot(hx.Cross(a, b), hx.Cross(a, b)) > 0.01)
	t := geom.TriangleNormal(a, b, hx.Vec{0, 0, 0})
	vf.Assert(vf.Eq(hx.Dot(t, a), 0), "TriangleNormal is perpendicular to one edge")
	vf.Assert(vf.Eq(hx.Dot(t, b), 0), "TriangleNormal is perpendicular to another edge")
	hx.ObsV("n", n)
}
