// C06: bounding boxes enclose the object: every hit and every inside point lies within Bounds.
package main

import (
	"github.com/barnex/bruteray/geom"
	"math"

	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
)

func within(o objects.Interface, p hx.Vec, what string) {
	vf.Assert(hx.InBox(o.Bounds(), p), what+": bounds enclose the surface")
	hx.ObsV(what+" min", o.Bounds().Min)
	hx.ObsV(what+" max", o.Bounds().Max)
}

// Every point of a sphere, cylinder or capped cylinder lies within its bounds; so does every inside point.
func H_Round() {
	c, q := hx.V("c"), hx.VR("q", 10)
	p := hx.Add(c, q)
	rad := math.Sqrt(hx.Dot(q, q))
	vf.Assume(rad > 0.01)
	within(objects.Sphere(nil, 2*rad, c), p, "sphere")
	dir := vf.Conc(vf.Int("dir", 0, 2))
	e := q
	e[dir] = 0
	vf.Assume(hx.Dot(e, e) > 0.0001)
	H := vf.Float("height", 0.01, 100)
	vf.Assume(vf.And(q[dir] <= H/2, q[dir] >= -H/2))
	cr := math.Sqrt(hx.Dot(e, e))
	within(objects.CylinderDir(nil, dir, 2*cr, H, c), p, "cylinder")
	if dir == 1 {
		within(objects.Cylinder(nil, 2*cr, H, c), p, "cylinder")
		within(objects.CylinderWithCaps(nil, 2*cr, H, c), p, "capped cylinder")
	}
}

// Inside points are within the bounds.
func H_Inside() {
	c, p := hx.V("c"), hx.VR("p", 200)
	d, w, h := vf.Float("d", 0.01, 50), vf.Float("w", 0.01, 50), vf.Float("h", 0.01, 50)
	var o objects.Interface
	switch vf.Conc(vf.Int("kind", 0, 4)) {
	case 0:
		o = objects.Sphere(nil, d, c)
	case 1:
		o = objects.CylinderDir(nil, vf.Conc(vf.Int("dir", 0, 2)), d, h, c)
	case 2:
		o = objects.Box(nil, d, w, h, c)
	case 3:
		o = objects.CylinderWithCaps(nil, d, h, c)
	case 4:
		o = objects.Bounded(objects.Sphere(nil, d, c))
	}
	if o.Inside(p) {
		vf.Assert(hx.InBox(o.Bounds(), p), "bounds enclose the inside")
	}
	hx.ObsV("max", o.Bounds().Max)
}

// Flat shapes and boxes: every surface point is within the bounds.
//vf: merge=1
func H_Flat() {
	// one axis at a time: bounds are computed per axis
	a, b, c := hx.Vec{1, 2, 3}, hx.Vec{-1, 4, 3}, hx.Vec{2, 0, 7}
	axis := vf.Conc(vf.Int("axis", 0, 2))
	a[axis], b[axis], c[axis] = vf.Float("a", -100, 100), vf.Float("b", -100, 100), vf.Float("c", -100, 100)
	u, v := vf.Float("u", 0, 1), vf.Float("v", 0, 1)
	p := hx.MAdd(hx.MAdd(a, u, hx.Sub(b, a)), v, hx.Sub(c, a))
	m := &hx.Mat{}
	switch vf.Conc(vf.Int("kind", 0, 4)) {
	case 0:
		vf.Assume(u+v <= 1)
		within(objects.Triangle(m, a, b, c), p, "triangle")
	case 1:
		within(objects.RectangleWithVertices(m, a, b, c), p, "parallelogram")
	case 2:
		w, l := vf.Float("w", 0.01, 50), vf.Float("l", 0.01, 50)
		within(objects.Rectangle(m, w, l, a), hx.Add(a, hx.Vec{(u - 0.5) * w, 0, (v - 0.5) * l}), "rectangle")
	case 3:
		w := vf.Float("w", 0.01, 50)
		x, z := (u-0.5)*w, (v-0.5)*w
		vf.Assume(x*x+z*z <= w*w/4)
		within(objects.Disk(m, w, a), hx.Add(a, hx.Vec{x, 0, z}), "disk")
	case 4:
		s := hx.Vec{vf.Float("s.x", 0.01, 50), vf.Float("s.y", 0.01, 50), vf.Float("s.z", 0.01, 50)}
		f := hx.VR("f", 0.5)
		within(objects.Box(m, s[0], s[1], s[2], a), hx.Add(a, hx.Vec{f[0] * s[0], f[1] * s[1], f[2] * s[2]}), "box")
	}
}

// Wrappers keep the bounds; unions enclose all their parts, intersections the common part.
//vf: merge=1
func H_Compose() {
	b1, b2 := hx.BoxIn("b1", 10), hx.BoxIn("b2", 10)
	p := hx.VR("p", 10)
	in1, in2 := hx.InBox(b1, p), hx.InBox(b2, p)
	s1, s2 := &hx.Stub{B: b1}, &hx.Stub{B: b2}
	both, any := vf.And(in1, in2), vf.Or(in1, in2)
	vf.Assert(vf.Imp(in1, hx.InBox(objects.Bounded(s1).Bounds(), p)), "Bounded")
	vf.Assert(vf.Imp(in1, hx.InBox(objects.Hollow(s1).Bounds(), p)), "Hollow")
	vf.Assert(vf.Imp(in1, hx.InBox(objects.WithMaterial(nil, s1).Bounds(), p)), "WithMaterial")
	vf.Assert(vf.Imp(in1, hx.InBox(objects.Remap(s1, func(v hx.Vec) hx.Vec { return v }).Bounds(), p)), "Remap")
	vf.Assert(vf.Imp(any, hx.InBox(objects.Or(s1, s2).Bounds(), p)), "Or")
	vf.Assert(vf.Imp(any, hx.InBox(objects.Tree(s1, s2).Bounds(), p)), "Tree")
	vf.Assert(vf.Imp(both, hx.InBox(objects.And(s1, s2).Bounds(), p)), "And")
	vf.Assert(vf.Imp(both, hx.InBox(objects.Restrict(s1, s2).Bounds(), p)), "Restrict")
	vf.Assert(vf.Imp(in1, hx.InBox(objects.Difference(s1, s2).Bounds(), p)), "Difference")
	vf.Assert(hx.InBox(objects.Not(s1).Bounds(), p), "Not")
	hx.ObsV("or", objects.Or(s1, s2).Bounds().Min)
	hx.ObsV("and", objects.And(s1, s2).Bounds().Max)
}

// The points that place objects relative to one another: centers of the box and of its sides.
func H_Anchors() {
	b := hx.BoxIn("b", 100)
	mid := hx.Mul(0.5, hx.Add(b.Min, b.Max))
	hx.EqV(b.Center(), mid, "Center")
	hx.EqV(b.CenterBottom(), hx.Vec{mid[0], b.Min[1], mid[2]}, "CenterBottom")
	hx.EqV(b.CenterTop(), hx.Vec{mid[0], b.Max[1], mid[2]}, "CenterTop")
	hx.EqV(b.CenterBack(), hx.Vec{mid[0], mid[1], b.Min[2]}, "CenterBack")
	hx.EqV(b.CenterFront(), hx.Vec{mid[0], mid[1], b.Max[2]}, "CenterFront")
	hx.EqV(b.Size(), hx.Sub(b.Max, b.Min), "Size")
	hx.EqV(hx.Vec{b.Dx(), b.Dy(), b.Dz()}, b.Size(), "Dx, Dy, Dz")
	// unbounded along some axes: these do not matter for the others
	mask := vf.Conc(vf.Int("unbounded", 1, 7))
	half := b
	for i := range mid {
		if mask&(1<<uint(i)) != 0 {
			half.Min[i], half.Max[i], mid[i] = math.Inf(-1), math.Inf(1), 0
		}
	}
	hx.EqV(half.Center(), mid, "Center, partly unbounded")
	hx.EqV(hx.Vec{half.CenterBottom()[0], 0, half.CenterTop()[2]}, hx.Vec{mid[0], 0, mid[2]}, "CenterBottom and CenterTop, partly unbounded")
	hx.EqV(hx.Vec{half.CenterBack()[0], half.CenterFront()[1], 0}, hx.Vec{mid[0], mid[1], 0}, "CenterBack and CenterFront, partly unbounded")
	inf := objects.Backdrop(nil).Bounds()
	hx.EqV(inf.Center(), hx.Vec{}, "the center of an unbounded object is the origin")
	hx.ObsV("c", b.Center())
}

// Objects bounded on some sides only can be moved and turned as well.
func H_HalfBounded() {
	b := objects.BoundingBox{Min: hx.Vec{-1, -2, -3}, Max: hx.Vec{3, 2, 1}}
	mask := vf.Conc(vf.Int("unbounded", 1, 63))
	for i := range b.Min {
		if mask&(1<<uint(i)) != 0 {
			b.Min[i] = math.Inf(-1)
		}
		if mask&(8<<uint(i)) != 0 {
			b.Max[i] = math.Inf(1)
		}
	}
	t := geom.Translate(hx.Vec{5, 6, 7})
	if k := vf.Conc(vf.Int("axis", 0, 3)); k < 3 {
		var axis hx.Vec
		axis[k] = 1
		t = geom.Rotate(hx.Vec{1, 2, 3}, axis, 0.5)
	}
	p := hx.VR("p", 100)
	vf.Assume(hx.InBoxS(b, p))
	vf.Assert(hx.InBox(objects.Transformed(objects.BoxWithBounds(&hx.Mat{}, b.Min, b.Max), t).Bounds(), t.TransformPoint(p)), "encloses the object")
}

// A bounded object is the object: same hit for every ray meeting it at a point strictly within its bounds.
//vf: merge=1
func H_Bounded() {
	b := hx.BoxIn("b", 10)
	p := hx.VR("p", 10)
	vf.Assume(hx.InBoxS(b, p))
	d := hx.Vec{vf.Float("d.x", 0.01, 5), -vf.Float("d.y", 0.01, 5), vf.Float("d.z", 0.01, 5)}
	T := vf.Float("T", 0.01, 10)
	m := &hx.Mat{}
	o := &hx.Stub{B: b, H: tracer.HitRecord{T: T, Normal: d, Local: p, Material: m}, In: true}
	h := objects.Bounded(o).Intersect(&tracer.Ray{Start: hx.MAdd(p, -T, d), Dir: d})
	vf.Assert(vf.Eq(h.T, T), "the hit is reported")
	hx.EqV(h.Normal, d, "normal")
	hx.EqV(h.Local, p, "local")
	vf.Assert(h.Material == tracer.Material(m), "material")
	vf.Assert(objects.Bounded(o).Inside(p), "inside")
}

// Floating point, exactly: rounding the tree's boxes to single precision never loses part of an object.
//vf: fp=1
func H_TreeRounding() {
	x, y := vf.Float("x", -1e6, 1e6), vf.Float("y", -1e6, 1e6)
	vf.Assume(x < y)
	b := objects.BoundingBox{Min: hx.Vec{x, -1, -1}, Max: hx.Vec{y, 1, 1}}
	tb := objects.Tree(&hx.Stub{B: b}).Bounds()
	vf.Assert(tb.Min[0] <= x, "lower bound")
	vf.Assert(tb.Max[0] >= y, "upper bound")
}
