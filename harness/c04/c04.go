// C04: boxes, triangles, quadrilaterals, rectangles, disks and the backdrop: the reported hit is exactly the first crossing.
package main

import (
	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
)

func ray(p, d hx.Vec, t float64) *tracer.Ray {
	return &tracer.Ray{Start: hx.MAdd(p, -t, d), Dir: d}
}

// a box, by either constructor.
func box(m tracer.Material) (o objects.Interface, min, max hx.Vec) {
	c := hx.VR("c", 10)
	w := hx.Vec{vf.Float("w.x", 0.1, 20), vf.Float("w.y", 0.1, 20), vf.Float("w.z", 0.1, 20)}
	min, max = hx.MAdd(c, -0.5, w), hx.MAdd(c, 0.5, w)
	if vf.Conc(vf.Int("ctor", 0, 1)) == 0 {
		return objects.Box(m, w[0], w[1], w[2], c), min, max
	}
	return objects.BoxWithBounds(m, min, max), min, max
}

// a point in the interior of face (axis, side) of a box.
func onFace(min, max hx.Vec) (p hx.Vec, axis int, side float64) {
	axis = vf.Conc(vf.Int("axis", 0, 2))
	side = float64(2*vf.Conc(vf.Int("side", 0, 1)) - 1)
	for i := range p {
		if i == axis {
			if side < 0 {
				p[i] = min[i]
			} else {
				p[i] = max[i]
			}
			continue
		}
		p[i] = vf.Float([]string{"p.x", "p.y", "p.z"}[i], -20, 20)
		vf.Assume(p[i] > min[i]+1e-6)
		vf.Assume(p[i] < max[i]-1e-6)
	}
	return p, axis, side
}

// direction with no zero component, given by the signs of its components.
func dirv(axis int, side float64) (d hx.Vec) {
	for i := range d {
		n := []string{"x", "y", "z"}[i]
		d[i] = vf.Float("d."+n, 0.0001, 10)
		if i == axis {
			d[i] *= side
		} else {
			d[i] *= float64(1 - 2*sign("neg."+n, i))
		}
	}
	return d
}

// sign splits cases on the sign of a component; the quick tier takes all signs
// of x and the signs (+,-) for y and z.
func sign(n string, i int) int {
	if i == 0 || vf.Thorough() {
		return vf.Conc(vf.Int(n, 0, 1))
	}
	return i - 1
}

// Box, entered from outside through a face: hit there, with the outward unit normal of that face.
//vf: budget=200 merge=1
func H_BoxEnter() {
	m := &hx.Mat{ID: 1}
	o, min, max := box(m)
	p, axis, side := onFace(min, max)
	d := dirv(axis, -side)
	t := vf.Float("t", 0.0001, 100)
	h := o.Intersect(ray(p, d, t))
	vf.Assert(vf.Eq(h.T, t), "enters at the near face")
	var n hx.Vec
	n[axis] = side
	hx.EqV(h.Normal, n, "outward normal")
	hx.EqV(h.Local, hx.Sub(p, min), "local coordinates are relative to the corner")
	vf.Assert(h.Material == tracer.Material(m), "material")
	hx.ObsHit("h", h)
}

// Box, ray starting inside: hit at the exit face.
//vf: budget=200 merge=1
func H_BoxExit() {
	m := &hx.Mat{ID: 1}
	o, min, max := box(m)
	p, axis, side := onFace(min, max)
	d := dirv(axis, side)
	t := vf.Float("t", 0.0001, 100)
	r := ray(p, d, t)
	for i := range p {
		vf.Assume(r.Start[i] > min[i])
		vf.Assume(r.Start[i] < max[i])
	}
	vf.Assert(o.Inside(r.Start), "the start is inside")
	h := o.Intersect(r)
	vf.Assert(vf.Eq(h.T, t), "leaves at the far face")
	var n hx.Vec
	n[axis] = side
	hx.EqV(h.Normal, n, "outward normal")
	vf.Assert(h.Material == tracer.Material(m), "material")
	hx.ObsHit("h", h)
}

// Box: a hit is never reported unless the point there is on the surface of the box.
//vf: budget=200 merge=1
func H_BoxSound() {
	m := &hx.Mat{ID: 1}
	min := hx.Vec{}
	max := hx.Vec{vf.Float("w.x", 0.1, 20), vf.Float("w.y", 0.1, 20), vf.Float("w.z", 0.1, 20)}
	o := objects.BoxWithBounds(m, min, max)
	d := dirv(-1, 0)
	r := &tracer.Ray{Start: hx.VR("s", 20), Dir: d}
	h := o.Intersect(r)
	if h.T > 0 {
		p := hx.At(r, h.T)
		on := false
		for i := range p {
			vf.Assert(vf.And(vf.Le(min[i], p[i]), vf.Le(p[i], max[i])), "the hit is on the box")
			on = vf.Or(on, vf.Eq(p[i], min[i]), vf.Eq(p[i], max[i]))
		}
		vf.Assert(on, "the hit is on a face")
	}
	hx.ObsHit("h", h)
}

// Box, in exact IEEE arithmetic: rays along an axis or a diagonal of two axes, from as far away as they like, hit the box
// or miss it, but never crash, and the normal is an outward one of a face that the ray can see from outside.
//vf: fp=1 feas=4000 budget=200
func H_BoxFar() {
	m := &hx.Mat{ID: 1}
	min := hx.Vec{-1, -2, -3}
	axis := 1
	where := 0
	if vf.Thorough() {
		axis = vf.Conc(vf.Int("axis", 0, 2))
		where = vf.Conc(vf.Int("where", 0, 1))
	}
	side := float64(2*vf.Conc(vf.Int("side", 0, 1)) - 1)
	min[axis] = []float64{0.1, -1e9}[where]
	max := min
	max[axis] += 1
	max[(axis+1)%3] = 1
	max[(axis+2)%3] = 1
	o := objects.BoxWithBounds(m, min, max)
	r := &tracer.Ray{}
	r.Dir[axis] = -side
	r.Start[axis] = side * vf.Float("far", 2e9, 1e14)
	if vf.Thorough() && vf.Conc(vf.Int("diagonal", 0, 1)) == 1 {
		r.Dir[(axis+1)%3] = 0.5
		r.Start[(axis+1)%3] = vf.Float("beside", -10, 10)
	}
	h := o.Intersect(r)
	if r.Dir[(axis+1)%3] == 0 {
		vf.Assert(h.T > 0, "hit")
	}
	if h.T > 0 {
		n := h.Normal
		vf.Assert(hx.Dot(n, n) == 1, "unit normal")
		vf.Assert(n[0] == 0 || n[0] == 1 || n[0] == -1, "along an axis")
		if r.Dir[(axis+1)%3] == 0 {
			vf.Assert(n[axis] == side, "normal of the face that is seen")
		}
	}
}

// Rays with zero direction components: axis-parallel rays hit the box iff they pass through the face.
func H_BoxAxis() {
	m := &hx.Mat{ID: 1}
	o, min, max := box(m)
	axis := vf.Conc(vf.Int("axis", 0, 2))
	side := float64(2*vf.Conc(vf.Int("side", 0, 1)) - 1)
	var d hx.Vec
	d[axis] = -side * vf.Float("d", 0.1, 10)
	p := hx.VR("p", 20)
	in := true
	for i := range p {
		if i == axis {
			continue
		}
		vf.Assume(vf.Or(p[i] < min[i], vf.And(p[i] > min[i]+1e-6, p[i] < max[i]-1e-6), p[i] > max[i]))
		in = vf.And(in, p[i] > min[i], p[i] < max[i])
	}
	p[axis] = max[axis]
	if side < 0 {
		p[axis] = min[axis]
	}
	t := vf.Float("t", 0.0001, 100)
	h := o.Intersect(ray(p, d, t))
	if in {
		vf.Assert(vf.Eq(h.T, t), "hit in front")
		vf.Assert(vf.Eq(h.Normal[axis], side), "outward normal")
	} else {
		vf.Assert(!(h.T > 0), "passes beside")
	}
	hx.ObsHit("h", h)
}


// A triangle whose vertices are ordered along each axis (the order of a triangle's
// vertices per axis only matters to its bounding box, which H_Flat covers for other orders).
func tri() (a, e, f, n hx.Vec) {
	a = hx.VR("a", 10)
	if !vf.Thorough() {
		a = hx.Vec{}
	}
	for i := range e {
		s := []string{"x", "y", "z"}[i]
		e[i], f[i] = vf.Float("e."+s, 0.01, 10), vf.Float("f."+s, 0.01, 20)
		vf.Assume(f[i] > e[i])
	}
	n = hx.Cross(e, f)
	vf.Assume(hx.Dot(n, n) > 0.0001)
	return
}

func dirs(n hx.Vec) hx.Vec {
	d := dirv(-1, 0)
	if !vf.Thorough() { // signs (+,+,-)
		d = hx.Vec{vf.Float("d.x", 0.0001, 10), vf.Float("d.y", 0.0001, 10), -vf.Float("d.z", 0.0001, 10)}
	}
	nd := hx.Dot(n, d)
	vf.Assume(vf.Or(nd > 0.0001, nd < -0.0001))
	return d
}

func normal(h tracer.HitRecord, n hx.Vec) {
	hx.EqV(hx.Cross(h.Normal, n), hx.Vec{}, "normal is perpendicular to the plane")
	vf.Assert(hx.Dot(h.Normal, n) > 0, "right-handed normal")
}

// Triangle: a ray through an interior point, from either side, hits exactly there.
//vf: budget=200
func H_TriangleHit() {
	m := &hx.Mat{ID: 1}
	a, e, f, n := tri()
	u, v := vf.Float("u", 0.001, 1), vf.Float("v", 0.001, 1)
	vf.Assume(u+v < 0.999)
	p := hx.MAdd(hx.MAdd(a, u, e), v, f)
	d := dirs(n)
	t := vf.Float("t", 0.0001, 100)
	h := objects.Triangle(m, a, hx.Add(a, e), hx.Add(a, f)).Intersect(ray(p, d, t))
	vf.Assert(vf.Eq(h.T, t), "hit at the point")
	normal(h, n)
	hx.EqV(h.Local, hx.Vec{u, v, 0}, "local coordinates interpolate (0,0), (1,0), (0,1)")
	vf.Assert(h.Material == tracer.Material(m), "material")
	hx.ObsHit("h", h)
}

// Objects of all sizes, seen from a distance in proportion to them or not.
//vf: merge=1
func H_Sizes() {
	k := []float64{1e-5, 1e-3, 1, 1e3, 1e6}[vf.Conc(vf.Int("size", 0, 4))]
	m := &hx.Mat{ID: 1}
	dist := 50.0
	if vf.Bool("far") {
		dist *= k
	}
	u, v := vf.Float("u", 0.001, 0.999), vf.Float("v", 0.001, 0.999)
	vf.Assume(u+v < 0.999)
	if dist < 2*k {
		dist = 2 * k
	}
	var o objects.Interface
	x, y, z := 2*k*u, 3*k*v, 0.0
	switch vf.Conc(vf.Int("shape", 0, 3)) {
	case 0:
		o = objects.Triangle(m, hx.Vec{}, hx.Vec{2 * k, 0, 0}, hx.Vec{0, 3 * k, 0})
	case 1:
		o = objects.RectangleWithVertices(m, hx.Vec{}, hx.Vec{2 * k, 0, 0}, hx.Vec{0, 3 * k, 0})
	case 2:
		o = objects.Quadrilateral(m, hx.Vec{}, hx.Vec{2 * k, 0, 0}, hx.Vec{2 * k, 3 * k, 0}, hx.Vec{0, 3 * k, 0})
	case 3:
		o, z = objects.BoxWithBounds(m, hx.Vec{0, 0, -k}, hx.Vec{2 * k, 3 * k, k}), k
	}
	h := o.Intersect(&tracer.Ray{Start: hx.Vec{x, y, z + dist}, Dir: hx.Vec{0, 0, -1}})
	vf.Assert(vf.Near(h.T, dist, 1e-6*(dist+k)), "hit")
	n := h.Normal
	vf.Assert(n[0] == 0 && n[1] == 0 && n[2] != 0, "normal")
	vf.Assert(!(o.Intersect(&tracer.Ray{Start: hx.Vec{x - 2*k, y, z + dist}, Dir: hx.Vec{0, 0, -1}}).T > 0), "beside it")
	hx.ObsHit("h", h)
}

// Triangle: a ray meeting the plane outside the triangle, or behind its start, does not hit.
//vf: budget=200 merge=1
func H_TriangleMiss() {
	m := &hx.Mat{ID: 1}
	a, e, f, n := tri()
	u, v := vf.Float("u", -3, 3), vf.Float("v", -3, 3)
	t := vf.Float("t", 0.0001, 100)
	if vf.Conc(vf.Int("behind", 0, 1)) == 1 {
		t = -t
	} else {
		switch vf.Conc(vf.Int("side", 0, 2)) {
		case 0:
			vf.Assume(u < -0.001)
		case 1:
			vf.Assume(v < -0.001)
		case 2:
			vf.Assume(u+v > 1.001)
		}
	}
	p := hx.MAdd(hx.MAdd(a, u, e), v, f)
	d := dirs(n)
	h := objects.Triangle(m, a, hx.Add(a, e), hx.Add(a, f)).Intersect(ray(p, d, t))
	vf.Assert(!(h.T > 0), "no hit")
	hx.ObsHit("h", h)
}

// Parallelogram (RectangleWithVertices): hit at every interior point, with continuous local coordinates.
//vf: budget=200 merge=1
func H_Parallelogram() {
	m := &hx.Mat{ID: 1}
	a, e, f, n := tri()
	u, v := vf.Float("u", 0.001, 0.999), vf.Float("v", 0.001, 0.999)
	p := hx.MAdd(hx.MAdd(a, u, e), v, f)
	d := dirs(n)
	t := vf.Float("t", 0.0001, 100)
	h := objects.RectangleWithVertices(m, a, hx.Add(a, e), hx.Add(a, f)).Intersect(ray(p, d, t))
	vf.Assert(vf.Eq(h.T, t), "hit at the point")
	normal(h, n)
	hx.EqV(h.Local, hx.Vec{u, v, 0}, "local coordinates")
	vf.Assert(h.Material == tracer.Material(m), "material")
	hx.ObsHit("h", h)
}

// Parallelogram in a plane along two axes, one side along an axis, the other slanted.
func H_Slanted() {
	m := &hx.Mat{ID: 1}
	k := vf.Conc(vf.Int("axis", 0, 2))
	var e, f hx.Vec
	e[k] = vf.Float("l", 0.1, 10)
	f[(k+1)%3], f[k] = vf.Float("w", 0.1, 10), vf.Float("slant", -5, 5)
	if vf.Conc(vf.Int("swap", 0, 1)) == 1 {
		e, f = f, e
	}
	n := hx.Cross(e, f)
	a := []hx.Vec{{}, {1, -2, 3}}[vf.Conc(vf.Int("at", 0, 1))]
	u, v := vf.Float("u", 0.001, 0.999), vf.Float("v", 0.001, 0.999)
	p := hx.MAdd(hx.MAdd(a, u, e), v, f)
	var d hx.Vec
	d[(k+2)%3], d[k] = float64(1-2*vf.Conc(vf.Int("from", 0, 1))), 0.25
	h := objects.RectangleWithVertices(m, a, hx.Add(a, e), hx.Add(a, f)).Intersect(ray(p, d, 2))
	vf.Assert(vf.Eq(h.T, 2), "hit at the point")
	normal(h, n)
	hx.EqV(h.Local, hx.Vec{u, v, 0}, "local coordinates")
}

// Horizontal rectangle and disk: hit exactly within their extent, upward normal.
//vf: budget=200 merge=1
func H_Flat() {
	m := &hx.Mat{ID: 1}
	c := hx.VR("c", 10)
	w, l := vf.Float("w", 0.1, 20), vf.Float("l", 0.1, 20)
	disk := vf.Conc(vf.Int("disk", 0, 1)) == 1
	var o objects.Interface
	if disk {
		o, l = objects.Disk(m, w, c), w
	} else {
		o = objects.Rectangle(m, w, l, c)
	}
	x, z := vf.Float("x", -15, 15), vf.Float("z", -15, 15)
	d := dirv(-1, 0)
	t := vf.Float("t", 0.0001, 100)
	front := vf.Conc(vf.Int("front", 0, 1)) == 1
	if !front {
		t = -t
	}
	var in bool
	if disk {
		in = x*x+z*z < w*w/4
		vf.Assume(vf.Or(x*x+z*z < w*w/4-0.001, x*x+z*z > w*w/4+0.001))
	} else {
		in = vf.And(x < w/2, x > -w/2, z < l/2, z > -l/2)
		far := vf.Or(x > w/2+0.001, x < -w/2-0.001, z > l/2+0.001, z < -l/2-0.001)
		vf.Assume(vf.Or(in, far))
	}
	h := o.Intersect(ray(hx.Add(c, hx.Vec{x, 0, z}), d, t))
	if vf.And(in, front) {
		vf.Assert(vf.Eq(h.T, t), "hit at the point")
		hx.EqV(h.Normal, hx.Vec{0, 1, 0}, "upward normal")
		vf.Assert(vf.Eq(h.Local[0]*l, z+l/2), "u runs along z")
		vf.Assert(vf.Eq(h.Local[1]*w, x+w/2), "v runs along x")
		vf.Assert(h.Material == tracer.Material(m), "material")
	} else {
		vf.Assert(!(h.T > 0), "no hit")
	}
	hx.ObsHit("h", h)
}

// Triangles with other vertex orders and with edges along the axes, seen in any direction.
//vf: budget=200 merge=1
func H_Shapes() {
	m := &hx.Mat{ID: 1}
	var a, e, f hx.Vec
	k := 3
	if !vf.Thorough() {
		k = 2
	}
	switch vf.Conc(vf.Int("shape", 0, k)) {
	case 0:
		a, e, f = hx.Vec{1, 2, 3}, hx.Vec{-2, 3, 0}, hx.Vec{1, -1, 4}
	case 1:
		a, e, f = hx.Vec{0, 0, 0}, hx.Vec{3, 0, 0}, hx.Vec{0, 2, 0}
	case 2:
		a, e, f = hx.Vec{-5, 1, 0}, hx.Vec{0, 0, -3}, hx.Vec{0, -2, -1}
	case 3:
		a, e, f = hx.Vec{2, 2, 2}, hx.Vec{-3, -4, -1}, hx.Vec{-1, -2, -7}
	}
	n := hx.Cross(e, f)
	u, v := vf.Float("u", -1, 2), vf.Float("v", -1, 2)
	in := vf.And(u > 0.001, v > 0.001, u+v < 0.999)
	vf.Assume(vf.Or(in, u < -0.001, v < -0.001, u+v > 1.001))
	p := hx.MAdd(hx.MAdd(a, u, e), v, f)
	d := dirs(n)
	t := vf.Float("t", 0.0001, 100)
	h := objects.Triangle(m, a, hx.Add(a, e), hx.Add(a, f)).Intersect(ray(p, d, t))
	if in {
		vf.Assert(vf.Eq(h.T, t), "hit at the point")
		normal(h, n)
		hx.EqV(h.Local, hx.Vec{u, v, 0}, "local coordinates")
	} else {
		vf.Assert(!(h.T > 0), "no hit")
	}
	hx.ObsHit("h", h)
}

// A ray parallel to a triangle's plane, off the plane, does not hit.
//vf: tier=thorough
func H_TriangleParallel() {
	a, e, f, n := tri()
	k := vf.Float("k", -10, 10)
	vf.Assume(vf.Or(k > 0.001, k < -0.001))
	u, v := vf.Float("u", -3, 3), vf.Float("v", -3, 3)
	d := hx.Add(hx.Mul(vf.Float("i", 0.01, 3), e), hx.Mul(vf.Float("j", 0.01, 3), f))
	r := &tracer.Ray{Start: hx.MAdd(hx.MAdd(hx.MAdd(a, u, e), v, f), k, n), Dir: d}
	h := objects.Triangle(nil, a, hx.Add(a, e), hx.Add(a, f)).Intersect(r)
	vf.Assert(!(h.T > 0), "no hit")
	hx.ObsHit("h", h)
}

// The backdrop is hit by every ray, behind everything else, with the direction as local coordinate.
func H_Backdrop() {
	m := &hx.Mat{ID: 1}
	r := hx.Ray("r")
	h := objects.Backdrop(m).Intersect(r)
	vf.Assert(h.T >= 1e30, "farther than any scene")
	hx.EqV(h.Local, r.Dir, "local coordinates are the direction")
	vf.Assert(h.Material == tracer.Material(m), "material")
	vf.Assert(!objects.Backdrop(m).Inside(r.Start), "hollow")
}
