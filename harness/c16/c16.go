// C16: cameras: every sensor position is mapped to the documented ray.
package main

import (
	"math"

	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
)

var ctx = tracer.NewCtx(1)

func uv() (float64, float64) { return vf.Float("u", 0, 1), vf.Float("v", 0, 1) }

// an arbitrary field of view: returned with the tangent of its half.
func fov() (f, tan float64) {
	a := vf.Float("half", 0.01, 1.56)
	vf.Assume(math.Cos(a) > 0.01)
	vf.Assume(math.Sin(a) > 0.009)
	return 2 * a, math.Sin(a) / math.Cos(a)
}

func check(r *tracer.Ray, start, along hx.Vec, label string) {
	hx.EqV(r.Start, start, label+": start")
	vf.Assert(vf.Eq(hx.Dot(r.Dir, r.Dir), 1), label+": unit direction")
	hx.EqV(hx.Cross(r.Dir, along), hx.Vec{}, label+": along")
	vf.Assert(hx.Dot(r.Dir, along) > 0, label+": forward")
}

// Perspective: from the origin, looking along -z, u to the right, v up, the width of the sensor spanning the field of view.
func H_Projective() {
	f, tan := fov()
	u, v := uv()
	r := cameras.Projective(f).RayFrom(ctx, u, v)
	check(r, hx.Vec{}, hx.Vec{(u - 0.5) * tan * 2, (v - 0.5) * tan * 2, -1}, "perspective")
}

// Fields of view that no camera can have are refused.
func H_BadFOV() {
	f := vf.Float("fov", -10, 10)
	p := vf.Panics(func() { cameras.Projective(f) })
	vf.Assert(vf.Or(p, vf.And(f > 0, f < math.Pi)), "refused")
	vf.Assert(vf.Or(!p, f <= 0, f >= math.Pi), "accepted")
}

// Aperture: rays start on a lens of that radius, and all those of a position meet in the plane at the focus
// distance, in the point a pinhole camera sees.
func H_Aperture() {
	f, tan := fov()
	u, v := uv()
	a, d := vf.Float("aperture", 0.001, 1), vf.Float("focus", 0.1, 100)
	r := cameras.ProjectiveAperture(f, a, d).RayFrom(ctx, u, v)
	vf.Assert(vf.Eq(r.Start[2], 0), "on the lens")
	vf.Assert(vf.Le(r.Start[0]*r.Start[0]+r.Start[1]*r.Start[1], a*a), "within the aperture")
	p := hx.Mul(d, hx.Vec{(u - 0.5) * tan * 2, (v - 0.5) * tan * 2, -1})
	check(r, r.Start, hx.Sub(p, r.Start), "through the point in focus")
}

// Whatever the aperture, rays start on the whole lens, not in its center only (random numbers below 2^-40 excepted).
//vf: randopen=1
func H_Lens() {
	u, v := uv()
	a, d := vf.Float("aperture", 1e-9, 1000), vf.Float("focus", 0.001, 1e6)
	s := cameras.ProjectiveAperture(1, a, d).RayFrom(ctx, u, v).Start
	n := s[0]*s[0] + s[1]*s[1]
	vf.Assert(vf.And(vf.Eq(s[2], 0), vf.Le(n, a*a)), "on the lens")
	vf.Assert(n > a*a*1e-13, "depth of field")
}

// Without aperture the focus distance is irrelevant.
func H_Pinhole() {
	f, tan := fov()
	u, v := uv()
	d := 0.0
	if vf.Bool("focus") {
		d = vf.Float("d", 0.1, 100)
	}
	r := cameras.ProjectiveAperture(f, 0, d).RayFrom(ctx, u, v)
	check(r, hx.Vec{}, hx.Vec{(u - 0.5) * tan * 2, (v - 0.5) * tan * 2, -1}, "pinhole")
}

// Isometric: parallel rays against the axis, from far away, covering a square of the given size;
// right and up on the sensor make a right-handed system with the axis.
func H_Isometric() {
	k := vf.Conc(vf.Int("axis", 0, 2))
	size := vf.Float("size", 0.1, 100)
	u, v := uv()
	c := cameras.Isometric(k, size)
	r := c.RayFrom(ctx, u, v)
	m := c.RayFrom(ctx, 0.5, 0.5)
	right := hx.Sub(c.RayFrom(ctx, 1, 0.5).Start, m.Start)
	up := hx.Sub(c.RayFrom(ctx, 0.5, 1).Start, m.Start)
	var e hx.Vec
	e[k] = 1
	check(r, hx.Add(m.Start, hx.Add(hx.Mul(2*(u-0.5), right), hx.Mul(2*(v-0.5), up))), hx.Mul(-1, e), "parallel")
	hx.EqV(hx.Cross(m.Start, e), hx.Vec{}, "center of the image on the axis")
	vf.Assert(hx.Dot(m.Start, e) > 1000, "from far away")
	vf.Assert(vf.And(vf.Eq(hx.Dot(right, right)*4, size*size), vf.Eq(hx.Dot(up, up)*4, size*size)), "covers the size")
	hx.EqV(hx.Mul(4, hx.Cross(right, up)), hx.Mul(size*size, e), "right-handed")
	y := 1
	if k == 1 {
		y = 2
	}
	vf.Assert(vf.Eq(math.Abs(up[y])*2, size), "upright")
	vf.Assert(k == 1 || up[1] > 0, "up is up")
}

func H_BadAxis() {
	k := vf.Int("axis", -5, 5)
	p := vf.Panics(func() { cameras.Isometric(k, 1) })
	vf.Assert(p == (k < 0 || k > 2), "only the three axes")
}

// Environment map: from the origin in all directions: the center looks along -z, u is the angle to the right (a
// full turn), v the elevation (pole to pole).
func H_EnvironmentMap() {
	u, v := uv()
	r := cameras.EnvironmentMap().RayFrom(ctx, u, v)
	hx.EqV(r.Start, hx.Vec{}, "start")
	ph, th := u*2*math.Pi, (v-0.5)*math.Pi
	hx.EqV(r.Dir, hx.Vec{-math.Sin(ph) * math.Cos(th), math.Sin(th), math.Cos(ph) * math.Cos(th)}, "direction")
	vf.Assert(vf.Eq(hx.Dot(r.Dir, r.Dir), 1), "unit direction")
}

func H_EnvironmentMapMarks() {
	c := cameras.EnvironmentMap()
	for _, m := range []struct {
		u, v float64
		d    hx.Vec
	}{{0.5, 0.5, hx.Vec{0, 0, -1}}, {0.75, 0.5, hx.Vec{1, 0, 0}}, {0.25, 0.5, hx.Vec{-1, 0, 0}}, {0, 0.5, hx.Vec{0, 0, 1}}, {0.3, 1, hx.Vec{0, 1, 0}}, {0.3, 0, hx.Vec{0, -1, 0}}} {
		d := c.RayFrom(ctx, m.u, m.v).Dir
		for k := range d {
			vf.Assert(vf.Near(d[k], m.d[k], 1e-9), "direction")
		}
	}
}

// stub camera.
type stub struct {
	s, d hx.Vec
	u, v float64
	n    int
}

func (c *stub) RayFrom(ctx *tracer.Ctx, u, v float64) *tracer.Ray {
	c.n++
	c.u, c.v = u, v
	r := ctx.Ray()
	r.Start, r.Dir = c.s, c.d
	return r
}

func mat(n string) geom.Matrix { return geom.Matrix{hx.VR(n+"0", 2), hx.VR(n+"1", 2), hx.VR(n+"2", 2)} }
func mul(m geom.Matrix, v hx.Vec) hx.Vec {
	return hx.ApplyDir(&geom.AffineTransform{A: m}, v)
}

// A transformed camera: rays of the original, turned about the camera's position and moved; further
// rotations and translations accumulate independently of each other; the original is not affected.
func H_Transform() {
	o := &stub{s: hx.V("s"), d: hx.V("d")}
	u, v := uv()
	m1, m2 := mat("m"), mat("n")
	t1, t2 := hx.V("t1"), hx.V("t2")
	a := cameras.Transform(o, m1, t1)
	b := cameras.Transform(a, m2, t2)
	r := a.RayFrom(ctx, u, v)
	hx.EqV(r.Start, hx.Add(mul(m1, o.s), t1), "once: start")
	hx.EqV(r.Dir, mul(m1, o.d), "once: direction")
	vf.Assert(o.u == u && o.v == v, "sensor position is passed on")
	r = b.RayFrom(ctx, u, v)
	hx.EqV(r.Start, hx.Add(mul(m2, mul(m1, o.s)), hx.Add(t1, t2)), "twice: start")
	hx.EqV(r.Dir, mul(m2, mul(m1, o.d)), "twice: direction")
	c := b.Translate(hx.V("t3"))
	r = c.RayFrom(ctx, u, v)
	hx.EqV(r.Start, hx.Add(mul(m2, mul(m1, o.s)), hx.Add(hx.V("t3"), hx.Add(t1, t2))), "translate: start")
	hx.EqV(r.Dir, mul(m2, mul(m1, o.d)), "translate: direction")
	r = a.RayFrom(ctx, u, v)
	hx.EqV(r.Start, hx.Add(mul(m1, o.s), t1), "original unaffected: start")
	hx.EqV(r.Dir, mul(m1, o.d), "original unaffected: direction")
}

// Yaw, pitch and roll turn the rays about the camera's own position; translation and rotation commute.
func H_YawPitchRoll() {
	o := &stub{s: hx.V("s"), d: hx.V("d")}
	u, v := uv()
	t := hx.V("t")
	yaw, pitch, roll := vf.Angle("yaw"), vf.Angle("pitch"), vf.Angle("roll")
	c0 := cameras.Transform(o, geom.UnitMatrix(), hx.Vec{})
	a := c0.Translate(t).YawPitchRoll(yaw, pitch, roll)
	b := c0.YawPitchRoll(yaw, pitch, roll).Translate(t)
	m := geom.YawPitchRoll(yaw, pitch, roll).A
	for _, c := range []*cameras.WithTransform{a, b} {
		r := c.RayFrom(ctx, u, v)
		hx.EqV(r.Start, hx.Add(mul(m, o.s), t), "start")
		hx.EqV(r.Dir, mul(m, o.d), "direction")
	}
}
