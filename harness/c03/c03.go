// C03: spheres and cylinders: the reported hit is exactly the first crossing of the surface in front of the ray.
package main

import (
	"math"

	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
)

// The rays are built from their answer: q is a point of the surface (relative to the
// center), t the ray parameter at which the ray passes it, entering or leaving.
// Every ray that meets the surface is of this form.
func through(c, q, d hx.Vec, t float64) *tracer.Ray {
	return &tracer.Ray{Start: hx.MAdd(hx.Add(c, q), -t, d), Dir: d}
}

func hitSphere(h tracer.HitRecord, m tracer.Material, q hx.Vec) {
	hx.EqV(hx.Cross(h.Normal, q), hx.Vec{}, "normal is radial")
	vf.Assert(hx.Dot(h.Normal, q) > 0, "normal points outward")
	vf.Assert(h.Material == m, "material")
	hx.EqV(h.Local, q, "local coordinates are relative to the center")
	hx.ObsHit("h", h)
}

// Sphere, entered from outside: the hit is the entry point.
func H_SphereEnter() {
	m := &hx.Mat{ID: 1}
	c, q, d := hx.V("c"), hx.VR("q", 10), hx.VR("d", 10)
	t := vf.Float("t", 0.0001, 100)
	vf.Assume(hx.Dot(d, q) < 0)
	h := objects.Sphere(m, 2*math.Sqrt(hx.Dot(q, q)), c).Intersect(through(c, q, d, t))
	vf.Assert(vf.Eq(h.T, t), "enters at the near point")
	hitSphere(h, m, q)
}

// Sphere, ray starting inside: the hit is the exit point.
func H_SphereExit() {
	m := &hx.Mat{ID: 1}
	c, q, d := hx.V("c"), hx.VR("q", 10), hx.VR("d", 10)
	t := vf.Float("t", 0.0001, 100)
	dq, dd := hx.Dot(d, q), hx.Dot(d, d)
	vf.Assume(dd > 0.0001)
	vf.Assume(2*dq > t*dd+0.0001)
	h := objects.Sphere(m, 2*math.Sqrt(hx.Dot(q, q)), c).Intersect(through(c, q, d, t))
	vf.Assert(vf.Eq(h.T, t), "leaves at the far point")
	hitSphere(h, m, q)
}

// Sphere behind the ray: no hit.
func H_SphereBehind() {
	m := &hx.Mat{ID: 1}
	c, q, d := hx.V("c"), hx.VR("q", 10), hx.VR("d", 10)
	t := vf.Float("t", 0.0001, 100)
	vf.Assume(hx.Dot(d, q) > 0)
	h := objects.Sphere(m, 2*math.Sqrt(hx.Dot(q, q)), c).Intersect(through(c, q, d, -t))
	vf.Assert(!(h.T > 0), "no hit behind the ray")
	hx.ObsHit("h", h)
}

// Sphere, line passing at a distance larger than the radius: no hit.
func H_SphereMiss() {
	m := &hx.Mat{ID: 1}
	c, w, d := hx.V("c"), hx.VR("w", 10), hx.VR("d", 10)
	t := vf.Float("t", -100, 100)
	vf.Assume(hx.Dot(d, d) > 0.0001)
	q := hx.Cross(w, d)
	rad := vf.Float("r", 0.001, 100)
	vf.Assume(hx.Dot(q, q) > rad*rad+0.0001)
	h := objects.Sphere(m, 2*rad, c).Intersect(through(c, q, d, t))
	vf.Assert(!(h.T > 0), "no hit")
	hx.ObsHit("h", h)
}

// perp removes the axial component.
func perp(q hx.Vec, dir int) hx.Vec {
	q[dir] = 0
	return q
}

func cyl(m tracer.Material, dir int, q hx.Vec, h float64, c hx.Vec) objects.Interface {
	p := perp(q, dir)
	diam := 2 * math.Sqrt(hx.Dot(p, p))
	if dir == 1 && vf.Conc(vf.Int("plain", 0, 1)) == 1 {
		return objects.Cylinder(m, diam, h, c)
	}
	return objects.CylinderDir(m, dir, diam, h, c)
}

func hitCyl(h tracer.HitRecord, m tracer.Material, q hx.Vec, dir int) {
	p := perp(q, dir)
	hx.EqV(hx.Cross(h.Normal, p), hx.Vec{}, "normal is radial")
	vf.Assert(hx.Dot(h.Normal, p) > 0, "normal points outward")
	vf.Assert(vf.Eq(h.Normal[dir], 0), "normal is perpendicular to the axis")
	vf.Assert(h.Material == m, "material")
	hx.EqV(h.Local, q, "local coordinates are relative to the center")
	hx.ObsHit("h", h)
}

const edge = 0.001 // keeps clear of the tiny margin around the ends of a cylinder

func inH(y, h float64) bool  { return vf.And(y < h/2, y > -h/2) }
func outH(y, h float64) bool { return vf.Or(y > h/2+edge, y < -h/2-edge) }

// Cylinder (any axis), near crossing within its height and in front: that is the hit.
func H_CylinderEnter() {
	m := &hx.Mat{ID: 1}
	dir := vf.Conc(vf.Int("dir", 0, 2))
	c, q, d := hx.V("c"), hx.VR("q", 10), hx.VR("d", 10)
	t := vf.Float("t", 0.0001, 100)
	p, e := perp(q, dir), perp(d, dir)
	vf.Assume(hx.Dot(e, p) <= 0)
	vf.Assume(hx.Dot(e, e) > 0.0001)
	vf.Assume(hx.Dot(p, p) > 0.0001)
	H := vf.Float("height", 0.001, 100)
	vf.Assume(inH(q[dir], H))
	h := cyl(m, dir, q, H, c).Intersect(through(c, q, d, t))
	vf.Assert(vf.Eq(h.T, t), "enters at the near point")
	hitCyl(h, m, q, dir)
}

// Cylinder, far crossing within its height and in front, near crossing behind the start or
// beyond the open ends: the far crossing is the hit.
func H_CylinderFar() {
	m := &hx.Mat{ID: 1}
	dir := vf.Conc(vf.Int("dir", 0, 2))
	c, q, d := hx.V("c"), hx.VR("q", 10), hx.VR("d", 10)
	t := vf.Float("t", 0.0001, 100)
	p, e := perp(q, dir), perp(d, dir)
	ep, ee := hx.Dot(e, p), hx.Dot(e, e)
	vf.Assume(ep >= 0)
	vf.Assume(ee > 0.0001)
	vf.Assume(hx.Dot(p, p) > 0.0001)
	H := vf.Float("height", 0.001, 100)
	vf.Assume(inH(q[dir], H))
	if vf.Bool("behind") { // the near crossing is at t-2ep/ee
		vf.Assume(t*ee+0.0001 < 2*ep)
	} else {
		s := vf.Float("s", 0.0001, 100) // near crossing, at t-s
		vf.AssumeEq(s*ee, 2*ep)
		vf.Assume(t-s > 0.0001)
		vf.Assume(outH(q[dir]-s*d[dir], H))
	}
	h := cyl(m, dir, q, H, c).Intersect(through(c, q, d, t))
	vf.Assert(vf.Eq(h.T, t), "hits at the far point")
	hitCyl(h, m, q, dir)
}

// Cylinder: no hit when both crossings are behind the start or beyond the ends.
func H_CylinderMiss() {
	m := &hx.Mat{ID: 1}
	dir := vf.Conc(vf.Int("dir", 0, 2))
	c, q, d := hx.V("c"), hx.VR("q", 10), hx.VR("d", 10)
	t := vf.Float("t", -100, 100)
	p, e := perp(q, dir), perp(d, dir)
	ep, ee := hx.Dot(e, p), hx.Dot(e, e)
	vf.Assume(ep >= 0)
	vf.Assume(ee > 0.0001)
	vf.Assume(hx.Dot(p, p) > 0.0001)
	H := vf.Float("height", 0.001, 100)
	s := vf.Float("s", 0, 100)
	vf.AssumeEq(s*ee, 2*ep)
	if vf.Bool("far behind") {
		vf.Assume(t < -0.0001)
	} else {
		vf.Assume(outH(q[dir], H))
		if vf.Bool("near behind") {
			vf.Assume(t-s < -0.0001)
		} else {
			vf.Assume(outH(q[dir]-s*d[dir], H))
		}
	}
	h := cyl(m, dir, q, H, c).Intersect(through(c, q, d, t))
	vf.Assert(!(h.T > 0), "no hit")
	hx.ObsHit("h", h)
}

// Cylinder: no hit for a line passing the axis at more than the radius, or parallel to the axis.
func H_CylinderPass() {
	m := &hx.Mat{ID: 1}
	dir := vf.Conc(vf.Int("dir", 0, 2))
	c, d := hx.V("c"), hx.VR("d", 10)
	rad, H := vf.Float("r", 0.001, 100), vf.Float("height", 0.001, 100)
	var s hx.Vec
	if vf.Bool("parallel") {
		d = hx.Vec{}
		d[dir] = vf.Float("dd", 0.1, 10) * float64(1-2*vf.Conc(vf.Int("neg", 0, 1)))
		s = hx.V("s")
	} else {
		e := perp(d, dir)
		ee := hx.Dot(e, e)
		vf.Assume(ee > 0.0001)
		// foot of the perpendicular: k times e turned by 90 degrees
		k := vf.Float("k", -100, 100)
		var ax hx.Vec
		ax[dir] = 1
		f := hx.Mul(k, hx.Cross(ax, e))
		vf.Assume(k*k*ee > rad*rad+0.0001)
		f[dir] = vf.Float("y", -100, 100)
		s = hx.MAdd(hx.Add(c, f), vf.Float("t", -100, 100), d)
	}
	h := objects.CylinderDir(m, dir, 2*rad, H, c).Intersect(&tracer.Ray{Start: s, Dir: d})
	vf.Assert(!(h.T > 0), "no hit")
	hx.ObsHit("h", h)
}

// Inside: a point is inside a sphere or cylinder exactly when it is within the radius (and height).
func H_Inside() {
	c, q := hx.V("c"), hx.VR("q", 10)
	rad, H := vf.Float("r", 0.001, 100), vf.Float("height", 0.001, 100)
	p := hx.Add(c, q)
	vf.Assert(objects.Sphere(nil, 2*rad, c).Inside(p) == (hx.Dot(q, q) < rad*rad), "inside the sphere")
	dir := vf.Conc(vf.Int("dir", 0, 2))
	e := perp(q, dir)
	in := objects.CylinderDir(nil, dir, 2*rad, H, c).Inside(p)
	vf.Assert(vf.Imp(in, vf.And(hx.Dot(e, e) < rad*rad, !outH(q[dir], H))), "inside the cylinder: within the radius and height")
	vf.Assert(vf.Imp(vf.And(hx.Dot(e, e) < rad*rad, inH(q[dir], H)), in), "within the radius and height: inside the cylinder")
	if dir == 1 {
		vf.Assert(objects.Cylinder(nil, 2*rad, H, c).Inside(p) == in, "Cylinder is CylinderDir along y")
	}
	vf.ObserveBool("in", in)
}
