// C07: a transformed object is the original object moved by the transform.
package main

import (
	"math"

	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
)

// A similarity: rotation by an arbitrary angle about one of the axes, scale k, then translation.
// Returned with the reference map of points and directions.
func similarity(n string) (t *geom.AffineTransform, pt, dir func(hx.Vec) hx.Vec, k float64) {
	a := vf.Angle(n + ".angle")
	k = vf.Float(n+".scale", 0.25, 4)
	b := hx.VR(n+".shift", 20)
	axis := vf.Conc(vf.Int(n+".axis", 0, 2))
	s, c := math.Sin(a), math.Cos(a)
	i, j := (axis+1)%3, (axis+2)%3
	dir = func(v hx.Vec) hx.Vec {
		w := v
		w[i] = c*v[i] - s*v[j]
		w[j] = s*v[i] + c*v[j]
		return hx.Mul(k, w)
	}
	pt = func(p hx.Vec) hx.Vec { return hx.Add(dir(p), b) }
	t = &geom.AffineTransform{A: geom.Matrix{dir(hx.Vec{1, 0, 0}), dir(hx.Vec{0, 1, 0}), dir(hx.Vec{0, 0, 1})}, B: b}
	return
}

var inf = math.Inf(1)

func everywhere() objects.BoundingBox {
	return objects.BoundingBox{Min: hx.Vec{-inf, -inf, -inf}, Max: hx.Vec{inf, inf, inf}}
}

// The original is intersected with the ray carried back by the transform; the hit keeps its ray
// parameter, material and local coordinates, and the normal is carried forward. The ray is left unchanged.
func H_Intersect() {
	m := &hx.Mat{ID: 1}
	t, pt, dir, _ := similarity("t")
	o := &hx.Stub{B: everywhere(), H: tracer.HitRecord{T: vf.Float("T", 0.01, 100), Normal: hx.VR("n", 10), Local: hx.VR("l", 10), Material: m}}
	s, d := hx.VR("s", 10), hx.VR("d", 10) // ray in the original's coordinates
	vf.Assume(hx.Dot(d, d) > 0.01)
	r := &tracer.Ray{Start: pt(s), Dir: dir(d)}
	r0 := *r
	h := objects.Transformed(o, t).Intersect(r)
	vf.Assert(o.N == 1, "the original is consulted")
	hx.EqV(o.Got.Start, s, "start carried back")
	hx.EqV(o.Got.Dir, d, "direction carried back")
	vf.Assert(vf.Eq(h.T, o.H.T), "ray parameter")
	hx.EqV(h.Local, o.H.Local, "local coordinates")
	vf.Assert(h.Material == tracer.Material(m), "material")
	n := dir(o.H.Normal)
	hx.EqV(hx.Cross(h.Normal, n), hx.Vec{}, "normal carried forward")
	vf.Assert(vf.Imp(hx.Dot(n, n) > 0, hx.Dot(h.Normal, n) > 0), "normal orientation")
	hx.EqV(r.Start, r0.Start, "ray start unchanged")
	hx.EqV(r.Dir, r0.Dir, "ray direction unchanged")
	hx.ObsHit("h", h)
}

// A transformed instance of a transformed instance applies the inner transform first.
func H_Nested() {
	m := &hx.Mat{ID: 1}
	k1, sh1 := vf.Float("t.scale", 0.25, 4), hx.VR("t.shift", 20)
	t1 := &geom.AffineTransform{A: rot(3), B: sh1} // third of a turn, reflected, scale, shift
	for i := range t1.A {
		t1.A[i] = hx.Mul(k1, t1.A[i])
	}
	dir1 := func(v hx.Vec) hx.Vec { return hx.Vec{-k1 * v[2], -k1 * v[0], -k1 * v[1]} }
	pt1 := func(v hx.Vec) hx.Vec { return hx.Add(dir1(v), sh1) }
	sh := hx.VR("u.shift", 20)
	k := vf.Float("u.scale", 0.25, 4)
	t2 := &geom.AffineTransform{A: geom.Matrix{{k, 0, 0}, {0, 0, k}, {0, -k, 0}}, B: sh} // quarter turn about x, scale, shift
	dir2 := func(v hx.Vec) hx.Vec { return hx.Vec{k * v[0], -k * v[2], k * v[1]} }
	pt2 := func(v hx.Vec) hx.Vec { return hx.Add(dir2(v), sh) }
	o := &hx.Stub{B: everywhere(), H: tracer.HitRecord{T: vf.Float("T", 0.01, 100), Normal: hx.VR("n", 10), Material: m}}
	s, d := hx.VR("s", 10), hx.Vec{vf.Float("d.x", 0.01, 10), -vf.Float("d.y", 0.01, 10), vf.Float("d.z", 0.01, 10)}
	r := &tracer.Ray{Start: pt2(pt1(s)), Dir: dir2(dir1(d))}
	b1, b2 := *t1, *t2
	in := objects.Transformed(o, t1)
	out := objects.Transformed(in, t2)
	h := out.Intersect(r)
	vf.Assert(o.N == 1, "the original is consulted once")
	hx.EqV(o.Got.Start, s, "start carried back through both")
	hx.EqV(o.Got.Dir, d, "direction carried back through both")
	n := dir2(dir1(o.H.Normal))
	hx.EqV(hx.Cross(h.Normal, n), hx.Vec{}, "normal carried forward through both")
	vf.Assert(vf.Eq(h.T, o.H.T), "ray parameter")
	r1 := &tracer.Ray{Start: pt1(s), Dir: dir1(d)}
	in.Intersect(r1)
	hx.EqV(o.Got.Start, s, "the inner instance is unaffected by the outer")
	hx.EqV(t1.B, b1.B, "transforms are not modified")
	hx.EqV(t2.B, b2.B, "transforms are not modified")
	p := hx.VR("p", 10)
	out.Inside(pt2(pt1(p)))
	hx.EqV(o.GotP, p, "Inside carried back through both")
	hx.ObsHit("h", h)
}

// Inside asks the original about the point carried back.
func H_Inside() {
	t, pt, _, _ := similarity("t")
	o := &hx.Stub{B: everywhere(), In: vf.Bool("in")}
	p := hx.VR("p", 10)
	vf.Assert(objects.Transformed(o, t).Inside(pt(p)) == o.In, "Inside")
	hx.EqV(o.GotP, p, "the point is carried back")
	sh := hx.VR("shift", 10)
	vf.Assert(objects.Translated(o, sh).Inside(hx.Add(p, sh)) == o.In, "Inside")
	hx.EqV(o.GotP, p, "the point is carried back")
	hx.ObsV("p", o.GotP)
}

// rotations used where a symbolic angle would be out of reach: exact rational rotations.
func rot(i int) geom.Matrix {
	switch i {
	case 0:
		return geom.Matrix{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
	case 1: // 3-4-5 about z
		return geom.Matrix{{0.75, 1, 0}, {-1, 0.75, 0}, {0, 0, 1.25}}
	case 2: // quarter turn about x
		return geom.Matrix{{1, 0, 0}, {0, 0, 1}, {0, -1, 0}}
	case 4: // general position
		return geom.Matrix{{2, -1, 2}, {2, 2, -1}, {-1, 2, 2}}
	case 5: // general position, reflected
		return geom.Matrix{{0.25, 0.5, 0.5}, {0.5, 0.25, -0.5}, {0.5, -0.5, 0.25}}
	default: // third of a turn about the diagonal, reflected
		return geom.Matrix{{0, -1, 0}, {0, 0, -1}, {-1, 0, 0}}
	}
}

// Bounds of the instance enclose the image of every point within the original's bounds.
func H_Bounds() {
	b := hx.BoxIn("b", 10)
	m := rot(vf.Conc(vf.Int("rot", 0, 5)))
	t := &geom.AffineTransform{A: m, B: hx.VR("shift", 10)}
	k := vf.Float("scale", -3, 3)
	vf.Assume(vf.Or(k > 0.1, k < -0.1))
	for i := range t.A {
		t.A[i] = hx.Mul(k, t.A[i])
	}
	p := hx.VR("p", 10)
	vf.Assume(hx.InBox(b, p))
	o := objects.Transformed(&hx.Stub{B: b}, t)
	q := hx.Apply(t, p)
	vf.Assert(hx.InBox(o.Bounds(), q), "bounds enclose the image")
	hx.ObsV("min", o.Bounds().Min)
}

// The bounding-box test never drops a hit: whenever the ray, in the original's coordinates, meets the
// original at a point within its bounds, the instance reports it.
//vf: merge=1 budget=200
func H_NoCulling() {
	b := objects.BoundingBox{Min: hx.Vec{-1, -2, -1}, Max: hx.Vec{3, 1, 2}}
	k := 5
	if !vf.Thorough() {
		k = 1
	}
	t := &geom.AffineTransform{A: rot(vf.Conc(vf.Int("rot", 0, k))), B: hx.Vec{1, 2, -5}}
	p := hx.VR("p", 3)
	vf.Assume(hx.InBoxS(b, p))
	d := hx.Vec{vf.Float("d.x", 0.01, 5), vf.Float("d.y", 0.01, 5), -vf.Float("d.z", 0.01, 5)}
	T := vf.Float("T", 0.01, 10)
	o := &hx.Stub{B: b, H: tracer.HitRecord{T: T}}
	r := &tracer.Ray{Start: hx.Apply(t, hx.MAdd(p, -T, d)), Dir: hx.ApplyDir(t, d)}
	for _, x := range r.Dir { // directions parallel to a face of the box are covered by H_Parallel
		vf.Assume(vf.Or(x > 0.001, x < -0.001))
	}
	h := objects.Transformed(o, t).Intersect(r)
	vf.Assert(vf.Eq(h.T, T), "the hit is reported")
	hx.ObsHit("h", h)
}

// The same for rays parallel to coordinate axes.
func H_Parallel() {
	b := hx.BoxIn("b", 10)
	sh := hx.VR("shift", 10)
	p := hx.VR("p", 10)
	vf.Assume(hx.InBoxS(b, p))
	var d hx.Vec
	d[vf.Conc(vf.Int("axis", 0, 2))] = vf.Float("d", 0.1, 5) * float64(1-2*vf.Conc(vf.Int("neg", 0, 1)))
	T := vf.Float("T", 0.01, 10)
	o := &hx.Stub{B: b, H: tracer.HitRecord{T: T}}
	h := objects.Translated(o, sh).Intersect(&tracer.Ray{Start: hx.Add(hx.MAdd(p, -T, d), sh), Dir: d})
	vf.Assert(vf.Eq(h.T, T), "the hit is reported")
	hx.ObsHit("h", h)
}

// Unbounded objects (the complement of a solid, the backdrop) can be transformed like any other.
func H_Unbounded() {
	t, pt, dir, _ := similarity("t")
	p := hx.VR("p", 10)
	d := hx.VR("d", 10)
	vf.Assume(hx.Dot(d, d) > 0.01)
	r := &tracer.Ray{Start: pt(p), Dir: dir(d)}
	if vf.Conc(vf.Int("kind", 0, 1)) == 0 {
		m := &hx.Mat{ID: 1}
		o := objects.Transformed(objects.Backdrop(m), t)
		h := o.Intersect(r)
		vf.Assert(h.T > 1e30, "the backdrop is hit")
		vf.Assert(hx.InBox(o.Bounds(), pt(p)), "bounds")
		return
	}
	s := &hx.Stub{B: everywhere(), In: vf.Bool("in"), H: tracer.HitRecord{T: vf.Float("T", 0.01, 10)}}
	o := objects.Transformed(objects.Not(s), t)
	vf.Assert(vf.Eq(o.Intersect(r).T, s.H.T), "the complement is hit")
	vf.Assert(o.Inside(pt(p)) == !s.In, "the complement's inside")
	vf.Assert(hx.InBox(o.Bounds(), pt(p)), "bounds")
}
