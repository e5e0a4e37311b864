// C19: lights: the sampled position lies on the light, with the intensity its object has in the scene.
package main

import (
	"math"

	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/lights"
	"github.com/barnex/bruteray/tracer/objects"
	"github.com/barnex/bruteray/tracer/sequence"
)

// at depth 3 the random numbers are arbitrary.
func ctx3() *tracer.Ctx {
	c := tracer.NewCtx(1)
	c.Init(0, 0)
	c.CurrentRecursionDepth = 3
	return c
}

func passes() int {
	if vf.Thorough() {
		return 4
	}
	return 1
}

// at depth 1 they are known.
func ctx1() (*tracer.Ctx, float64, float64) {
	pass := vf.Conc(vf.Int("pass", 0, passes()))
	c, d := tracer.NewCtx(1), tracer.NewCtx(1)
	c.Init(0, pass)
	d.Init(0, pass)
	c.CurrentRecursionDepth, d.CurrentRecursionDepth = 1, 1
	u, v := d.Generate2()
	return c, u, v
}

const eps = 1e-5

func center() hx.Vec {
	if vf.Thorough() {
		return hx.VR("center", 10)
	}
	return hx.Vec{1, 2, -1}
}

func bright() colorf.Color {
	return colorf.Color{R: vf.Float("bright.R", 0, 10), G: 0.5}
}

// lambert is the intensity at target of an area light of the given brightness and area, sampled at p.
func lambert(c colorf.Color, area float64, p, n, target hx.Vec) colorf.Color {
	d := hx.Sub(target, p)
	r2 := hx.Dot(d, d)
	dn := hx.Dot(d, n)
	k := vf.IteF(dn > 0, (1/math.Pi)*area*dn/(math.Sqrt(r2)*r2), 0)
	return hx.MulC(k, c)
}

func away(p, q hx.Vec) {
	d := hx.Sub(p, q)
	vf.Assume(hx.Dot(d, d) > 0.01)
}

// PointLight: isotropic, power over the sphere; its object is invisible.
func H_Point() {
	pow, pos, target := hx.Color("power"), hx.VR("pos", 10), hx.VR("target", 10)
	away(pos, target)
	l := lights.PointLight(pow, pos)
	p, c := l.Sample(ctx3(), target)
	hx.EqV(p, pos, "position")
	d := hx.Sub(target, pos)
	hx.EqC(hx.MulC(hx.Dot(d, d), c), hx.MulC(1/(4*math.Pi), pow), "power over the sphere")
	vf.Assert(!(l.Object().Intersect(hx.Ray("r")).T > 0), "invisible")
}

// PointLight: also at a tenth of a millimeter the intensity is the power over the sphere.
func H_PointNear() {
	pow, r := vf.Float("power", 0.1, 10), vf.Float("r", 1e-4, 0.1)
	_, c := lights.PointLight(colorf.Color{R: pow}, hx.Vec{1, 2, 3}).Sample(ctx3(), hx.Vec{1 + r, 2, 3})
	vf.Assert(vf.Near(c.R*(4*math.Pi*r*r), pow, 1e-6), "power over the sphere")
}

// Planar lights: also at a millimeter the intensity is Lambert's.
func H_PlanarNear() {
	r := vf.Float("r", 1e-3, 0.1)
	ctx, _, _ := ctx1()
	target := hx.Vec{1, 2 - r, 3}
	l, area := lights.RectangleLight(colorf.Color{R: 1e8}, 1e-4, 1e-4, hx.Vec{1, 2, 3}), 1.0
	if vf.Bool("disk") {
		l, area = lights.DiskLight(colorf.Color{R: 1e8}, 1e-4, hx.Vec{1, 2, 3}), math.Pi/4
	}
	p, c := l.Sample(ctx, target)
	d := hx.Sub(target, p)
	len := math.Sqrt(hx.Dot(d, d))
	vf.Assert(vf.Near(c.R*(math.Pi*len*len*len), -d[1]*area, 1e-7), "intensity")
}

// RectangleLight: any sample lies on the rectangle, with Lambert's intensity towards the target; nothing upwards.
//vf: tries=20
func H_Rectangle() {
	col, ctr, target := bright(), center(), hx.VR("target", 10)
	w, h := vf.Float("w", 0.01, 10), vf.Float("h", 0.01, 10)
	vf.Assume(math.Abs(target[1]-ctr[1]) > 0.1)
	p, c := lights.RectangleLight(col, w, h, ctr).Sample(ctx3(), target)
	d := hx.Sub(p, ctr)
	vf.Assert(vf.And(vf.Le(math.Abs(d[0]), w/2), vf.Le(math.Abs(d[2]), h/2), math.Abs(d[1]) < eps), "on the rectangle")
	hx.EqC(c, lambert(col, w*h, p, hx.Vec{0, -1, 0}, target), "intensity")
}

// The random numbers cover the rectangle uniformly.
func H_RectangleUniform() {
	ctx, u, v := ctx1()
	w, h := vf.Float("w", 0.01, 10), vf.Float("h", 0.01, 10)
	p, _ := lights.RectangleLight(colorf.Color{R: 1}, w, h, hx.Vec{}).Sample(ctx, hx.Vec{1, -5, 2})
	vf.Assert(vf.And(vf.Eq(p[0], (u-0.5)*w), vf.Eq(p[2], (v-0.5)*h)), "uniform")
}

//vf: tries=20
func H_Disk() {
	col, ctr, target := bright(), center(), hx.VR("target", 10)
	diam := vf.Float("diam", 0.01, 10)
	vf.Assume(math.Abs(target[1]-ctr[1]) > 0.1)
	p, c := lights.DiskLight(col, diam, ctr).Sample(ctx3(), target)
	d := hx.Sub(p, ctr)
	vf.Assert(vf.And(vf.Le(d[0]*d[0]+d[2]*d[2], diam*diam/4), math.Abs(d[1]) < eps), "on the disk")
	hx.EqC(c, lambert(col, math.Pi/4*diam*diam, p, hx.Vec{0, -1, 0}, target), "intensity")
}

func H_DiskUniform() {
	ctx, u, v := ctx1()
	diam := vf.Float("diam", 0.01, 10)
	p, _ := lights.DiskLight(colorf.Color{R: 1}, diam, hx.Vec{}).Sample(ctx, hx.Vec{1, -5, 2})
	x, y := sequence.UniformDisk(u, v)
	vf.Assert(vf.And(vf.Eq(p[0], x*diam/2), vf.Eq(p[2], y*diam/2)), "uniform")
}

// seen looks at a light's object from below or above: it is hit exactly where it is, and shows its
// brightness below, black above.
func seen(l tracer.Light, col colorf.Color, ctr hx.Vec, in func(x, z float64) bool, edge func(x, z float64) bool) {
	x, z := vf.Float("x", -8, 8), vf.Float("z", -8, 8)
	vf.Assume(edge(x, z))
	from := 1.0
	if vf.Bool("below") {
		from = -1
	}
	dx, T := 0.25, 3.0
	if vf.Thorough() {
		dx, T = vf.Float("dx", -2, 2), vf.Float("T", 0.1, 10)
	}
	// towards (x,0,z) relative to the center
	dir := hx.Vec{dx, -from, 0.5}
	hit := hx.Add(ctr, hx.Vec{x, 0, z})
	r := &tracer.Ray{Start: hx.MAdd(hit, -T, dir), Dir: dir}
	h := l.Object().Intersect(r)
	vf.Assert((h.T > 0) == in(x, z), "hit exactly where the light is")
	if !(h.T > 0) {
		return
	}
	vf.Assert(math.Abs(h.T-T) < eps, "in the plane of the light")
	c := h.Material.Shade(ctx3(), nil, r, tracer.HitCoords{T: h.T, Normal: h.Normal.Normalized(), Local: h.Local})
	if from < 0 {
		hx.EqC(c, col, "shows its brightness below")
	} else {
		hx.EqC(c, colorf.Color{}, "black above")
	}
}

func H_RectangleSeen() {
	col, ctr := bright(), center()
	w, h := vf.Float("w", 0.1, 10), vf.Float("h", 0.1, 10)
	seen(lights.RectangleLight(col, w, h, ctr), col, ctr,
		func(x, z float64) bool { return vf.And(math.Abs(x) < w/2, math.Abs(z) < h/2) },
		func(x, z float64) bool { return vf.And(math.Abs(math.Abs(x)-w/2) > 0.001, math.Abs(math.Abs(z)-h/2) > 0.001) })
}

func H_DiskSeen() {
	col, ctr := bright(), center()
	d := vf.Float("diam", 0.1, 10)
	seen(lights.DiskLight(col, d, ctr), col, ctr,
		func(x, z float64) bool { return x*x+z*z < d*d/4 },
		func(x, z float64) bool { return math.Abs(x*x+z*z-d*d/4) > 0.001 })
}

// A transformed light is asked for the target seen from its own place; its sample is put in the scene.
func H_Transformed() {
	t := hx.Affine("t")
	vf.Assume(math.Abs(hx.Det(t.A)) > 0.01)
	target := hx.VR("target", 10)
	o := &hx.Light{O: &hx.Stub{B: objects.BoundingBox{}}, Pos: hx.VR("pos", 10), C: bright()}
	l := lights.Transformed(o, t)
	p, c := l.Sample(ctx3(), target)
	vf.Assert(len(o.Got) == 1, "sampled once")
	hx.EqV(hx.Apply(t, o.Got[0]), target, "target")
	hx.EqV(p, hx.Apply(t, o.Pos), "position")
	hx.EqC(c, o.C, "intensity")
}

// A light of any kind, moved, turned and scaled (also twice), shines like the original at the target moved along, and is
// where it shines from.
func H_Moved() {
	turn := &geom.AffineTransform{A: geom.Matrix{{0.6, 0, -0.8}, {0, 1, 0}, {0.8, 0, 0.6}}}
	tip := &geom.AffineTransform{A: geom.Matrix{{0.5, 0, 0}, {0, 0, 0.5}, {0, -0.5, 0}}}
	move := geom.Translate(hx.Vec{3, vf.Float("move", -10, 10), -1})
	var l tracer.Light
	switch vf.Conc(vf.Int("kind", 0, 2)) {
	case 0:
		l = lights.PointLight(bright(), hx.Vec{1, 2, 3})
	case 1:
		l = lights.RectangleLight(bright(), 2, 1, hx.Vec{1, 2, 3})
	case 2:
		l = lights.DiskLight(bright(), 2, hx.Vec{1, 2, 3})
	}
	var t *geom.AffineTransform
	var m tracer.Light
	switch vf.Conc(vf.Int("how", 0, 3)) {
	case 0:
		t = move
		m = lights.Transformed(l, t)
	case 1:
		t = turn.Before(move)
		m = lights.Transformed(l, t)
	case 2:
		t = move.Before(tip)
		m = lights.Transformed(l, t)
	case 3:
		t = turn.Before(move).Before(tip)
		m = lights.Transformed(lights.Transformed(l, turn), move.Before(tip))
	}
	// targets along a line, so that distances are known
	target := hx.MAdd(hx.Vec{1, 1, 3}, vf.Float("at", 0, 10), hx.Vec{2, -1, 2})
	c0, _, _ := ctx1()
	c1, _, _ := ctx1()
	p0, i0 := l.Sample(c0, target)
	p1, i1 := m.Sample(c1, hx.Apply(t, target))
	hx.EqV(p1, hx.Apply(t, p0), "the light moves along")
	hx.EqC(i1, i0, "as bright")

	r := &tracer.Ray{Start: hx.Vec{vf.Float("x", -1, 3), 0, vf.Float("z", 1, 5)}, Dir: hx.Vec{0.25, 1, 0.5}}
	o0, o1 := l.Object().Intersect(r), m.Object().Intersect(&tracer.Ray{Start: hx.Apply(t, r.Start), Dir: hx.ApplyDir(t, r.Dir)})
	vf.Assert(vf.Imp(o1.T > 0, vf.And(o0.T > 0, vf.Near(o1.T, o0.T, 1e-9*(1+o0.T)))), "seen at the same place")
}

// The sun: in the given direction, of the given size, as bright as promised.
func sun(yaw, pitch float64, cy, sy, cp, sp float64) {
	col := bright()
	ang := vf.Float("diam", 0.001, 0.2)
	p, c := lights.SunLight(col, ang, yaw, pitch).Sample(ctx3(), hx.Vec{})
	dir := hx.Vec{-sy * cp, sp, -cy * cp}
	const r = 1e6
	vf.Assert(math.Abs(hx.Dot(p, dir)-r) < 1, "far in the given direction")
	vf.Assert(hx.Dot(p, p) <= r*r*(1+ang*ang/4)+100, "within the disk")
	vf.Assert(vf.And(c.R <= col.R*1.001, c.R >= 0.98*col.R), "bright as promised")
}

//vf: tries=20
func H_SunYaw() {
	a := vf.Angle("yaw")
	sun(a, 0, math.Cos(a), math.Sin(a), 1, 0)
}

//vf: tries=20
func H_SunPitch() {
	a := vf.Angle("pitch")
	sun(0, a, 1, 0, math.Cos(a), math.Sin(a))
}

// Rotating by yaw after pitch.
//vf: tries=20 tier=thorough
func H_Sun() {
	a, b := vf.Angle("yaw"), vf.Angle("pitch")
	sun(a, b, math.Cos(a), math.Sin(a), math.Cos(b), math.Sin(b))
}
