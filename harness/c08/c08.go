// C08: constructive solid geometry: the composite is hit at the first point of its surface.
package main

import (
	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
)

const gap = 0.001

var (
	ma = &hx.Mat{ID: 1}
	mb = &hx.Mat{ID: 2}
)

// Surfaces of different operands coincide nowhere and the ray does not start on one.
func apart(x float64, ss ...*hx.Solid) {
	for i, s := range ss {
		for _, e := range s.Edges() {
			vf.Assume(vf.Or(e > x+gap, e < x-gap))
			for _, u := range ss[i+1:] {
				for _, f := range u.Edges() {
					vf.Assume(vf.Or(e > f+gap, e < f-gap))
				}
			}
		}
	}
}

type edge struct {
	x  float64
	on bool // part of the composite's surface
	n  float64
	m  tracer.Material
}

// edgesOf lists the surfaces of s; in tells which positions belong to the composite's surface.
func edgesOf(s *hx.Solid, sign float64, in func(x float64) bool) []edge {
	var es []edge
	for i, x := range s.Edges() {
		n := -sign
		if i%2 == 1 {
			n = sign
		}
		es = append(es, edge{x, in(x), n, s.M})
	}
	return es
}

// checkHit asserts that h is the nearest of the given surface positions in front of the ray.
func checkHit(r *tracer.Ray, h tracer.HitRecord, es []edge) {
	x, d := r.Start[0], r.Dir[0]
	hit := h.T > 0
	hx0 := x + h.T*d
	any, ok := false, false
	for _, e := range es {
		front := vf.And(e.on, (e.x-x)*d > 0)
		any = vf.Or(any, front)
		vf.Assert(vf.Imp(front, vf.And(hit, vf.Le(h.T*d*d, (e.x-x)*d))), "no surface in front of the hit")
		ok = vf.Or(ok, vf.And(front, vf.Eq(hx0, e.x), vf.Eq(h.Normal[0], e.n), h.Material == e.m))
	}
	vf.Assert(vf.Imp(hit, any), "hit only if there is a surface in front")
	vf.Assert(vf.Imp(hit, ok), "the hit is on the surface, with its outward normal and material")
	vf.Assert(vf.Imp(hit, vf.And(vf.Eq(h.Normal[1], 0), vf.Eq(h.Normal[2], 0))), "normal direction")
	hx.ObsHit("h", h)
}

func aRay() *tracer.Ray {
	k := vf.Float("k", 0.5, 4)
	if vf.Conc(vf.Int("back", 0, 1)) == 1 {
		k = -k
	}
	return &tracer.Ray{Start: hx.Vec{vf.Float("x", -10, 10), 1, 2}, Dir: hx.Vec{k, 0, 0}}
}

func same(r *tracer.Ray, r0 tracer.Ray) {
	hx.EqV(r.Start, r0.Start, "ray start unchanged")
	hx.EqV(r.Dir, r0.Dir, "ray direction unchanged")
}

func size() int {
	if vf.Thorough() {
		return 2
	}
	return 1
}

func probe(o objects.Interface, want func(x float64) bool, ss ...*hx.Solid) {
	p := hx.VR("p", 10)
	vf.Assert(o.Inside(p) == want(p[0]), "Inside")
	vf.Assert(vf.Imp(want(p[0]), hx.InBox(o.Bounds(), p)), "Bounds enclose the inside")
}

// And: the common part of two solids.
//vf: merge=1
func H_And() {
	r := aRay()
	a, b := hx.Slabs("a", 2, ma, gap), hx.Slabs("b", size(), mb, gap)
	apart(r.Start[0], a, b)
	o := objects.And(a, b)
	r0 := *r
	h := o.Intersect(r)
	same(r, r0)
	checkHit(r, h, append(edgesOf(a, 1, b.In), edgesOf(b, 1, a.In)...))
	probe(o, func(x float64) bool { return vf.And(a.In(x), b.In(x)) })
}

// Or: the union of two solids; inner surfaces are invisible.
//vf: merge=1
func H_Or() {
	r := aRay()
	a, b := hx.Slabs("a", 2, ma, gap), hx.Slabs("b", size(), mb, gap)
	apart(r.Start[0], a, b)
	o := objects.Or(a, b)
	r0 := *r
	h := o.Intersect(r)
	same(r, r0)
	out := func(s *hx.Solid) func(float64) bool { return func(x float64) bool { return !s.In(x) } }
	checkHit(r, h, append(edgesOf(a, 1, out(b)), edgesOf(b, 1, out(a))...))
	probe(o, func(x float64) bool { return vf.Or(a.In(x), b.In(x)) })
}

// Difference: the part of a outside b, the cut showing b's surface with flipped normal.
//vf: merge=1
func H_Difference() {
	r := aRay()
	a, b := hx.Slabs("a", size(), ma, gap), hx.Slabs("b", 2, mb, gap)
	apart(r.Start[0], a, b)
	o := objects.Difference(a, b)
	r0 := *r
	h := o.Intersect(r)
	same(r, r0)
	checkHit(r, h, append(edgesOf(a, 1, func(x float64) bool { return !b.In(x) }), edgesOf(b, -1, a.In)...))
	probe(o, func(x float64) bool { return vf.And(a.In(x), !b.In(x)) })
}

// Restrict: only the part of a's surface inside b.
//vf: merge=1
func H_Restrict() {
	r := aRay()
	a, b := hx.Slabs("a", 2, ma, gap), hx.Slabs("b", size(), mb, gap)
	apart(r.Start[0], a, b)
	o := objects.Restrict(a, b)
	r0 := *r
	h := o.Intersect(r)
	same(r, r0)
	checkHit(r, h, edgesOf(a, 1, b.In))
	probe(o, func(x float64) bool { return vf.And(a.In(x), b.In(x)) })
}

// Not and Hollow: same surface; Not flips normals and inside, Hollow has no inside.
func H_NotHollow() {
	r := aRay()
	a := hx.Slabs("a", 2, ma, gap)
	apart(r.Start[0], a)
	p := hx.VR("p", 10)
	all := func(float64) bool { return true }
	if vf.Conc(vf.Int("hollow", 0, 1)) == 1 {
		o := objects.Hollow(a)
		checkHit(r, o.Intersect(r), edgesOf(a, 1, all))
		vf.Assert(!o.Inside(p), "hollow")
		vf.Assert(vf.Imp(a.Inside(p), hx.InBox(o.Bounds(), p)), "bounds")
	} else {
		o := objects.Not(a)
		checkHit(r, o.Intersect(r), edgesOf(a, -1, all))
		vf.Assert(o.Inside(p) == !a.Inside(p), "the inside is the outside")
		vf.Assert(vf.Imp(!a.Inside(p), hx.InBox(o.Bounds(), p)), "bounds")
	}
}

// The complement of a composite: it has the surface of the composite, seen from the other side.
//vf: merge=1
func H_NotOf() {
	var r *tracer.Ray
	if vf.Thorough() {
		r = aRay()
	} else {
		r = &tracer.Ray{Start: hx.Vec{vf.Float("x", -10, 10), 1, 2}, Dir: hx.Vec{1, 0, 0}}
	}
	a, b := hx.Slabs("a", 1, ma, gap), hx.Slabs("b", 1, mb, gap)
	apart(r.Start[0], a, b)
	out := func(s *hx.Solid) func(float64) bool { return func(x float64) bool { return !s.In(x) } }
	var c objects.Interface
	var es []edge
	switch vf.Conc(vf.Int("of", 0, 3)) {
	case 0:
		c = objects.And(a, b)
		es = append(edgesOf(a, -1, b.In), edgesOf(b, -1, a.In)...)
	case 1:
		c = objects.Or(a, b)
		es = append(edgesOf(a, -1, out(b)), edgesOf(b, -1, out(a))...)
	case 2:
		c = objects.Difference(a, b)
		es = append(edgesOf(a, -1, out(b)), edgesOf(b, 1, a.In)...)
	case 3:
		c = objects.And(objects.Not(a), objects.Not(b))
		es = append(edgesOf(a, 1, out(b)), edgesOf(b, 1, out(a))...)
	}
	o := objects.Not(c)
	checkHit(r, o.Intersect(r), es)
	p := hx.VR("p", 10)
	vf.Assert(o.Inside(p) == !c.Inside(p), "the inside is the outside")
	vf.Assert(vf.Imp(!c.Inside(p), hx.InBox(o.Bounds(), p)), "bounds")
}

// Nesting: (a and b) or c, and a minus (b or c), are hit like the solids they denote.
//vf: merge=1 budget=200
func H_Nested() {
	var r *tracer.Ray
	shapes := 1
	if vf.Thorough() {
		r = aRay()
	} else { // quick: along +x at unit speed, a minus (b or c)
		r = &tracer.Ray{Start: hx.Vec{vf.Float("x", -10, 10), 1, 2}, Dir: hx.Vec{1, 0, 0}}
		shapes = 0
	}
	mc := &hx.Mat{ID: 3}
	a, b, c := hx.Slabs("a", 1, ma, gap), hx.Slabs("b", 1, mb, gap), hx.Slabs("c", 1, mc, gap)
	apart(r.Start[0], a, b, c)
	var o objects.Interface
	var want func(x float64) bool
	var es []edge
	if vf.Conc(vf.Int("shape", 0, shapes)) == 1 {
		o = objects.Or(objects.And(a, b), c)
		want = func(x float64) bool { return vf.Or(vf.And(a.In(x), b.In(x)), c.In(x)) }
		es = append(edgesOf(a, 1, func(x float64) bool { return vf.And(b.In(x), !c.In(x)) }),
			append(edgesOf(b, 1, func(x float64) bool { return vf.And(a.In(x), !c.In(x)) }),
				edgesOf(c, 1, func(x float64) bool { return !vf.And(a.In(x), b.In(x)) })...)...)
	} else {
		o = objects.Difference(a, objects.Or(b, c))
		want = func(x float64) bool { return vf.And(a.In(x), !b.In(x), !c.In(x)) }
		es = append(edgesOf(a, 1, func(x float64) bool { return vf.And(!b.In(x), !c.In(x)) }),
			append(edgesOf(b, -1, func(x float64) bool { return vf.And(a.In(x), !c.In(x)) }),
				edgesOf(c, -1, func(x float64) bool { return vf.And(a.In(x), !b.In(x)) })...)...)
	}
	r0 := *r
	h := o.Intersect(r)
	same(r, r0)
	checkHit(r, h, es)
	probe(o, want)
}
