// C20: fog: light is attenuated exponentially with the length of its way through the fog.
package main

import (
	"math"

	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/media"
)

func ctx(depth int) *tracer.Ctx {
	c := tracer.NewCtx(1)
	c.Init(0, 0)
	c.CurrentRecursionDepth = depth
	return c
}

// way is a ray through fog below a height; with the interval of the ray, up to tMax, that is in the fog.
func way() (r *tracer.Ray, height, tMax, a, b float64) {
	y, dy := vf.Float("y", -10, 10), vf.Float("dy", -1, 1)
	r = &tracer.Ray{Start: hx.Vec{0.5, y, 0.25}, Dir: hx.Vec{0.5, dy, 0.75}}
	height = vf.Float("height", -10, 10)
	vf.Assume(y != height)
	tMax = vf.Float("tMax", 0.1, 20)
	switch {
	case dy == 0:
		if y < height {
			return r, height, tMax, 0, tMax
		}
		return r, height, tMax, 0, 0
	case dy > 0: // leaves the fog
		t := (height - y) / dy
		if t < 0 {
			return r, height, tMax, 0, 0
		}
		if t < tMax {
			return r, height, tMax, 0, t
		}
		return r, height, tMax, 0, tMax
	default: // enters
		t := (height - y) / dy
		if t > tMax {
			return r, height, tMax, 0, 0
		}
		if t < 0 {
			t = 0
		}
		return r, height, tMax, t, tMax
	}
}

// ExpFog: attenuation over the length of the way in the fog below its height; the ambient color for the rest.
func H_ExpFog() {
	r, height, tMax, a, b := way()
	d := vf.Float("density", 0.01, 2)
	amb, orig := hx.Color("ambient"), hx.Color("orig")
	c := media.ExpFog(d, amb, height).Filter(ctx(1), nil, r, tMax, orig)
	trans := math.Exp(-(b - a) * d)
	hx.EqC(c, hx.AddC(hx.MulC(trans, orig), hx.MulC(1-trans, amb)), "attenuation")
	vf.Assert(vf.And(vf.Le(c.R, vf.IteF(orig.R > amb.R, orig.R, amb.R)), c.R >= 0), "between object and ambient")
}

// Infinitely high fog is everywhere, in every direction; nothing hit is fog only.
func H_Everywhere() {
	d := vf.Float("density", 0.01, 2)
	amb, orig := hx.Color("ambient"), hx.Color("orig")
	r := &tracer.Ray{Start: hx.VR("start", 10), Dir: hx.VR("dir", 1)}
	tMax := vf.Float("tMax", 0.1, 20)
	trans := math.Exp(-tMax * d)
	if vf.Bool("sky") {
		tMax, trans = math.Inf(1), 0
	}
	c := media.ExpFog(d, amb, math.Inf(1)).Filter(ctx(1), nil, r, tMax, orig)
	hx.EqC(c, hx.AddC(hx.MulC(trans, orig), hx.MulC(1-trans, amb)), "attenuation")
}

// Only the camera's rays are in the fog.
func H_OnlyPrimary() {
	r, height, tMax, _, _ := way()
	orig := hx.Color("orig")
	depth := vf.Conc(vf.Int("depth", 2, 4))
	hx.EqC(media.ExpFog(1, hx.Color("ambient"), height).Filter(ctx(depth), nil, r, tMax, orig), orig, "exponential fog")
	hx.EqC(media.Fog(1, height, 1).Filter(ctx(depth), tracer.NewScene(4, nil), r, tMax, orig), orig, "scattering fog")
}

// Fog without light only attenuates.
func H_DarkFog() {
	r, height, tMax, a, b := way()
	d := vf.Float("density", 0.01, 2)
	orig := hx.Color("orig")
	c := media.Fog(d, height, 1).Filter(ctx(1), tracer.NewScene(1, nil), r, tMax, orig)
	trans := math.Exp(-(b - a) * d)
	hx.EqC(c, hx.MulC(trans, orig), "attenuation")
}

// Scattering fog adds the light that reaches a point of the way in the fog, in proportion to the light
// taken away; as many lights as asked for.
//vf: tries=10
func H_Scatter() {
	r, height, tMax, a, b := way()
	d := vf.Float("density", 0.01, 2)
	orig := hx.Color("orig")
	n := vf.Conc(vf.Int("lights", 0, 2))
	l0 := &hx.Light{O: hx.Nothing{}, C: hx.Color("light0"), Pos: hx.Vec{1, 50, 3}}
	l1 := &hx.Light{O: hx.Nothing{}, C: hx.Color("light1"), Pos: hx.Vec{-1, -40, 3}}
	s := tracer.NewScene(2, []tracer.Light{l0, l1})
	c := media.Fog(d, height, n).Filter(ctx(1), s, r, tMax, orig)
	trans := math.Exp(-(b - a) * d)
	want := hx.MulC(trans, orig)
	if n > 0 {
		want = hx.AddC(want, hx.MulC(1-trans, l0.C))
	}
	if n > 1 {
		want = hx.AddC(want, hx.MulC(1-trans, l1.C))
	}
	hx.EqC(c, want, "attenuated and scattered")
	for i, l := range []*hx.Light{l0, l1} {
		if i >= n {
			vf.Assert(len(l.Got) == 0, "no other lights")
			continue
		}
		vf.Assert(len(l.Got) == 1, "each light once")
		t := (l.Got[0][0] - 0.5) / 0.5
		vf.Assert(vf.Or(!(b > a), vf.And(t > a-1e-5, t < b+1e-5)), "at a point in the fog")
		hx.EqV(l.Got[0], hx.At(r, t), "on the ray")
	}
}

// Shadowed light is not scattered.
func H_Shadow() {
	d := vf.Float("density", 0.01, 2)
	orig := hx.Color("orig")
	l := &hx.Light{O: hx.Nothing{}, C: hx.Color("light"), Pos: hx.Vec{1, 50, 3}}
	bl := &blocker{t: vf.Float("t", -5, 100)}
	s := tracer.NewScene(2, []tracer.Light{l}, bl)
	r := &tracer.Ray{Start: hx.Vec{1, 0, 0}, Dir: hx.Vec{0, 0, 1}}
	c := media.Fog(d, 10, 1).Filter(ctx(1), s, r, 4, orig)
	vf.Assert(len(l.Got) == 1, "sampled once")
	if len(bl.r) == 0 { // no light to block
		hx.EqC(l.C, colorf.Color{}, "no shadow ray")
		hx.EqC(c, hx.MulC(math.Exp(-4*d), orig), "attenuated only")
		return
	}
	vf.Assert(len(bl.r) == 1, "one shadow ray")
	delta := hx.Sub(l.Pos, l.Got[0])
	dist := math.Sqrt(hx.Dot(delta, delta))
	hx.EqV(bl.r[0].Start, l.Got[0], "from the point")
	hx.EqV(hx.Mul(dist, bl.r[0].Dir), delta, "to the light")
	trans := math.Exp(-4 * d)
	want := hx.MulC(trans, orig)
	if !(bl.t > 0 && bl.t < dist) {
		want = hx.AddC(want, hx.MulC(1-trans, l.C))
	}
	hx.EqC(c, want, "shadow")
}

type blocker struct {
	t float64
	r []tracer.Ray
}

func (b *blocker) Intersect(r *tracer.Ray) tracer.HitRecord {
	b.r = append(b.r, *r)
	return tracer.HitRecord{T: b.t, Normal: hx.Vec{0, 1, 0}, Material: &hx.Mat{}}
}

