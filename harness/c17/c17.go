// C17: mirrors and glass: reflected and refracted rays obey the laws of optics.
package main

import (
	"math"

	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/materials"
)

// scene is an environment that remembers the rays that see it; rays on the side of w are seen in
// color a, the others in color b.
func scene(w hx.Vec, a, b colorf.Color) (*tracer.Scene, *hx.Probe) {
	p := &hx.Probe{F: func(r *tracer.Ray) colorf.Color {
		if hx.Dot(r.Dir, w) > 0 {
			return a
		}
		return b
	}}
	return tracer.NewScene(5, nil, p), p
}

// incoming is a ray hitting the surface at the given point from outside or inside.
// The normal lies in a coordinate plane or (thorough) anywhere.
type in struct {
	r    *tracer.Ray
	h    tracer.HitCoords
	p    hx.Vec  // hit point
	n    hx.Vec  // normal towards the ray
	c, s float64 // cos and sin of the angle of incidence
	t    hx.Vec  // tangent: Dir = -c n + s t
	out  bool    // comes from outside
}

func incoming() *in {
	a, b := vf.Angle("a"), vf.Angle("b")
	vf.Assume(math.Cos(a) > 0.01)
	i := &in{c: math.Cos(a), s: math.Sin(a)}
	e1, e2, e3 := hx.Vec{1, 0, 0}, hx.Vec{0, 1, 0}, hx.Vec{0, 0, 1}
	if vf.Thorough() {
		c, s := math.Cos(vf.Angle("tilt")), math.Sin(vf.Angle("tilt"))
		e1, e2 = hx.Vec{c, s, 0}, hx.Vec{-s, c, 0}
	}
	i.n = e2
	i.t = hx.Add(hx.Mul(math.Cos(b), e1), hx.Mul(math.Sin(b), e3))
	d := hx.Add(hx.Mul(-i.c, i.n), hx.Mul(i.s, i.t))
	i.p = hx.VR("p", 10)
	T := vf.Float("T", 0.1, 10)
	i.r = &tracer.Ray{Start: hx.MAdd(i.p, -T, d), Dir: d}
	i.h = tracer.HitCoords{T: T, Normal: i.n}
	i.out = !vf.Bool("inside")
	if !i.out {
		i.h.Normal = hx.Mul(-1, i.n)
	}
	return i
}

func ctx1() *tracer.Ctx {
	c := tracer.NewCtx(1)
	c.Init(0, 0)
	c.CurrentRecursionDepth = 1
	return c
}

// near the hit point, on the side of w.
func starts(r tracer.Ray, p, w hx.Vec, label string) {
	d := hx.Sub(r.Start, p)
	vf.Assert(vf.And(hx.Dot(d, w) > 0, hx.Dot(d, d) < 1e-10), label+": starts at the hit point, on its side")
}

func mirrored(i *in) hx.Vec { return hx.Add(hx.Mul(i.c, i.n), hx.Mul(i.s, i.t)) }

// A mirror sees the environment in the mirrored direction, times its color.
func H_Mirror() {
	i := incoming()
	col, c := hx.Refl("refl"), hx.Color("c")
	s, p := scene(i.n, c, colorf.Color{})
	got := materials.Reflective(col).Shade(ctx1(), s, i.r, i.h)
	vf.Assert(len(p.Rays) == 1 && p.Deep[0] == 2, "one ray, one level deeper")
	hx.EqV(p.Rays[0].Dir, mirrored(i), "angle of reflection")
	starts(p.Rays[0], i.p, i.n, "reflected")
	hx.EqC(got, hx.Mul3(col, c), "color")
	hx.ObsC("got", got)
}

// fresnel is the textbook reflected intensity.
func fresnel(n1, n2, ci, ct float64) float64 {
	rs := (n1*ci - n2*ct) / (n1*ci + n2*ct)
	rp := (n2*ci - n1*ct) / (n2*ci + n1*ct)
	return (rs*rs + rp*rp) / 2
}

// Glass: refraction by Snell's law and reflection, weighted by the Fresnel equations and adding up to
// one; only reflection beyond the critical angle. From both sides.
//vf: budget=100
func H_Glass() {
	i := incoming()
	n1, n2 := vf.Float("n1", 0.5, 3), vf.Float("n2", 0.5, 3)
	m := materials.Refractive2(n1, n2)
	if vf.Bool("air") {
		n1 = 1
		m = materials.Refractive(n2)
	}
	cr, ct := hx.Color("reflected"), hx.Color("transmitted")
	s, p := scene(i.n, cr, ct)
	got := m.Shade(ctx1(), s, i.r, i.h)
	a, b := n1, n2 // from a into b
	if !i.out {
		a, b = n2, n1
	}
	if len(p.Rays) == 1 {
		vf.Assert(vf.Le(b*b, a*a*i.s*i.s), "total reflection only beyond the critical angle")
		hx.EqV(p.Rays[0].Dir, mirrored(i), "total reflection")
		starts(p.Rays[0], i.p, i.n, "total reflection")
		hx.EqC(got, cr, "total reflection")
		return
	}
	vf.Assert(vf.Le(a*a*i.s*i.s, b*b), "total reflection beyond the critical angle")
	vf.Assert(len(p.Rays) == 2, "a refracted and a reflected ray")
	if len(p.Rays) != 2 {
		return
	}
	vf.Assert(p.Deep[0] == 2 && p.Deep[1] == 2, "one level deeper")
	t, r := p.Rays[0], p.Rays[1]
	if hx.Dot(t.Dir, i.n) > 0 {
		t, r = r, t
	}
	hx.EqV(r.Dir, mirrored(i), "reflected")
	starts(r, i.p, i.n, "reflected")
	starts(t, i.p, hx.Mul(-1, i.n), "refracted")
	cost := -hx.Dot(t.Dir, i.n)
	vf.Assert(cost >= 0, "refracted to the other side")
	vf.Assert(vf.Eq(hx.Dot(t.Dir, t.Dir), 1), "refracted: unit direction")
	// Snell: the tangential part is s*a/b along t
	hx.EqV(hx.Mul(b, hx.Add(t.Dir, hx.Mul(cost, i.n))), hx.Mul(a*i.s, i.t), "Snell's law")
	_ = got
}

// flat is a ray hitting a horizontal surface in a plane: the angle is all that matters.
func flat() *in {
	a := vf.Angle("a")
	vf.Assume(math.Cos(a) > 0.01)
	i := &in{c: math.Cos(a), s: math.Sin(a), n: hx.Vec{0, 1, 0}}
	d := hx.Vec{i.s, -i.c, 0}
	i.r = &tracer.Ray{Start: hx.Mul(-2, d), Dir: d}
	i.h = tracer.HitCoords{T: 2, Normal: i.n}
	return i
}

// The shares of reflection and transmission are those of the Fresnel equations and add up to one.
func glassWeights(n1, n2 float64) {
	i := flat()
	m := materials.Refractive2(n1, n2)
	if vf.Bool("inside") {
		i.h.Normal = hx.Vec{0, -1, 0}
		m = materials.Refractive2(n2, n1)
	}
	s, p := scene(i.n, colorf.Color{R: 1}, colorf.Color{G: 1})
	got := m.Shade(ctx1(), s, i.r, i.h)
	if len(p.Rays) == 1 {
		hx.EqC(got, colorf.Color{R: 1}, "all is reflected")
		return
	}
	R := fresnel(n1, n2, i.c, math.Sqrt(1-(n1/n2)*(n1/n2)*i.s*i.s))
	vf.Assert(vf.Eq(got.R, R), "reflected share")
	vf.Assert(vf.Eq(got.G, 1-R), "transmitted share")
	vf.Assert(vf.And(vf.Le(0, got.R), vf.Le(got.R, 1)), "shares between 0 and 1")
}

//vf: budget=60
func H_GlassWeights() { glassWeights(1.5, 1) }

//vf: budget=60 tier=thorough
func H_GlassWeights2() { glassWeights(1, 2) }

// Any light from either side is weighted with the same shares.
func H_GlassColors() {
	i := flat()
	i.r = &tracer.Ray{Start: hx.Vec{0, 2, 0}, Dir: hx.Vec{0, -1, 0}}
	cr, ct := hx.Color("reflected"), hx.Color("transmitted")
	s, _ := scene(i.n, cr, ct)
	got := materials.Refractive(3).Shade(ctx1(), s, i.r, i.h)
	R := 0.25
	hx.EqC(got, hx.AddC(hx.MulC(R, cr), hx.MulC(1-R, ct)), "Fresnel weights")
}

type sub struct {
	c colorf.Color
	n int
	h tracer.HitCoords
}

func (m *sub) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	m.n++
	m.h = h
	return m.c
}

// Varnish: reflection of an interface from air (either side) into index n, over another material.
//vf: budget=100
func H_Varnish() {
	i := incoming()
	n := vf.Float("n", 1, 20)
	c := hx.Color("c")
	u := &sub{c: hx.Color("under")}
	s, p := scene(i.n, c, colorf.Color{})
	got := materials.ReflectFresnel(n, u).Shade(ctx1(), s, i.r, i.h)
	vf.Assert(len(p.Rays) == 1 && u.n == 1 && u.h == i.h, "one reflected ray, the material below shaded")
	hx.EqV(p.Rays[0].Dir, mirrored(i), "reflected")
	starts(p.Rays[0], i.p, i.n, "reflected")
	_ = got
}

//vf: budget=60
func H_VarnishWeights() {
	i := flat()
	n := 2.0
	switch vf.Int("n", 0, 2) {
	case 1:
		n = 1
	case 2:
		n = 16
	}
	if vf.Bool("back") {
		i.h.Normal = hx.Vec{0, -1, 0}
	}
	u := &sub{c: colorf.Color{G: 1}}
	s, _ := scene(i.n, colorf.Color{R: 1}, colorf.Color{})
	got := materials.ReflectFresnel(n, u).Shade(ctx1(), s, i.r, i.h)
	R := fresnel(1, n, i.c, math.Sqrt(1-(1/n)*(1/n)*i.s*i.s))
	vf.Assert(vf.Eq(got.R, R), "reflected share")
	vf.Assert(vf.Eq(got.G, 1-R), "transmitted share")
	vf.Assert(vf.And(vf.Le(0, got.R), vf.Le(got.R, 1)), "shares between 0 and 1")
}

func H_VarnishColors() {
	i := flat()
	i.r = &tracer.Ray{Start: hx.Vec{0, 2, 0}, Dir: hx.Vec{0, -1, 0}}
	c := hx.Color("c")
	u := &sub{c: hx.Color("under")}
	s, _ := scene(i.n, c, colorf.Color{})
	k := vf.Conc(vf.Int("n", 0, 3))
	n := []float64{3, 1.5, 1.25, 1.02}[k]
	R := ((n - 1) / (n + 1)) * ((n - 1) / (n + 1))
	got := materials.ReflectFresnel(n, u).Shade(ctx1(), s, i.r, i.h)
	hx.EqC(got, hx.AddC(hx.MulC(R, c), hx.MulC(1-R, u.c)), "Fresnel weights")
}
