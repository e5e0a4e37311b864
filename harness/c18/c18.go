// C18: materials gather light as documented and never amplify it.
package main

import (
	"math"

	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/materials"
)

func ctx1() *tracer.Ctx {
	c := tracer.NewCtx(1)
	c.Init(0, 0)
	c.CurrentRecursionDepth = 1
	return c
}

// tex is a texture that is asked for the local coordinates.
type tex struct {
	c   colorf.Color
	got hx.Vec
	n   int
}

func (t *tex) At(p hx.Vec) colorf.Color { t.n++; t.got = p; return t.c }
func (t *tex) AtUV(u, v float64) colorf.Color {
	t.n++
	t.got = hx.Vec{u, v}
	return t.c
}

var _ texture.Texture = (*tex)(nil)

type sub struct {
	c colorf.Color
	n int
	h tracer.HitCoords
	r *tracer.Ray
}

func (m *sub) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	m.n++
	m.h = h
	m.r = r
	return m.c
}

var ray = &tracer.Ray{Start: hx.Vec{1, 5, 0}, Dir: hx.Vec{0, -0.6, 0.8}}

func coords() tracer.HitCoords {
	return tracer.HitCoords{T: 5, Normal: hx.Vec{0, 1, 0}, Local: hx.V("local")}
}

// Flat shows its texture at the local coordinates.
func H_Flat() {
	t := &tex{c: hx.Color("c")}
	h := coords()
	c := materials.Flat(t).Shade(ctx1(), nil, ray, h)
	hx.EqC(c, t.c, "texture")
	vf.Assert(t.n == 1 && t.got == h.Local, "at the local coordinates")
}

// Blend adds two materials with their weights.
func H_Blend() {
	a, b := &sub{c: hx.Color("a")}, &sub{c: hx.Color("b")}
	x, y := vf.Float("x", 0, 2), vf.Float("y", 0, 2)
	h := coords()
	c := materials.Blend(x, a, y, b).Shade(ctx1(), nil, ray, h)
	hx.EqC(c, hx.AddC(hx.MulC(x, a.c), hx.MulC(y, b.c)), "weighted sum")
	vf.Assert(a.h == h && b.h == h && a.r == ray && b.r == ray, "both shaded at the hit")
}

// BlendMap mixes two materials in the proportion of the texture, shading only what contributes.
func H_BlendMap() {
	a, b := &sub{c: hx.Color("a")}, &sub{c: hx.Color("b")}
	k := vf.Float("key", 0, 1)
	t := &tex{c: colorf.Color{R: k, G: k, B: k}}
	h := coords()
	c := materials.BlendMap(t, a, b).Shade(ctx1(), nil, ray, h)
	hx.EqC(c, hx.AddC(hx.MulC(k, a.c), hx.MulC(1-k, b.c)), "mixture")
	vf.Assert(vf.Or(a.n == 1, k == 0) && vf.Or(b.n == 1, k == 1), "shaded once")
	vf.Assert(t.got == h.Local, "at the local coordinates")
	vf.Assert(a.n == 0 || a.h == h && a.r == ray, "first shaded at the hit")
	vf.Assert(b.n == 0 || b.h == h && b.r == ray, "second shaded at the hit")
	hi := func(x, y float64) float64 { return vf.IteF(x > y, x, y) }
	vf.Assert(vf.And(vf.Le(c.R, hi(a.c.R, b.c.R)), vf.Le(0, c.R)), "between the two")
}

// Matte in the sun: what is in the way of a light source far away shadows it, wherever it is.
func H_MatteFar() {
	d := vf.Float("distance", 10, 1e9)
	l := &hx.Light{O: hx.Nothing{}, C: hx.Color("light"), Pos: hx.Vec{1, 2 + d, 4}}
	bl := &blocker{t: vf.Float("block", 0.01, 1e9)}
	vf.Assume(vf.Or(bl.t < d-0.01, bl.t > d+0.01))
	s := tracer.NewScene(1, []tracer.Light{l}, bl)
	c := materials.Matte(colorf.White).Shade(ctx1(), s, ray, coords())
	if bl.t < d {
		vf.Assert(c == colorf.Color{}, "in the shadow")
		return
	}
	vf.Assert(vf.And(vf.Near(c.R, l.C.R, 1e-4), vf.Near(c.G, l.C.G, 1e-4), vf.Near(c.B, l.C.B, 1e-4)), "in the sun")
}

// TwoSided shows one material to either side.
func H_TwoSided() {
	a, b := &sub{c: hx.Color("a")}, &sub{c: hx.Color("b")}
	r := &tracer.Ray{Dir: hx.V("d")}
	h := coords()
	dn := hx.Dot(r.Dir, h.Normal)
	vf.Assume(dn != 0)
	c := materials.TwoSided(a, b).Shade(ctx1(), nil, r, h)
	vf.Assert(a.n+b.n == 1, "one of the materials")
	vf.Assert((a.n == 1) == (dn > 0), "by the side")
	if a.n == 1 {
		hx.EqC(c, a.c, "front")
		vf.Assert(a.r == r && a.h == h, "shaded at the hit")
	} else {
		hx.EqC(c, b.c, "back")
		vf.Assert(b.r == r && b.h == h, "shaded at the hit")
	}
}

// Transparent sees on in the same direction, without the lights, filtered by its texture; shadows likewise.
func H_Transparent() {
	t := &tex{c: hx.Refl("c")}
	bg := hx.Color("bg")
	p := &hx.Probe{F: func(r *tracer.Ray) colorf.Color { return bg }}
	light := &hx.Light{O: hx.Nothing{}, C: colorf.Color{R: 1}, Pos: hx.Vec{0, 1, 0}}
	s := tracer.NewScene(3, []tracer.Light{light}, p)
	h := coords()
	if vf.Bool("leaving") {
		h.Normal = hx.Vec{0, -1, 0}
	}
	m := materials.Transparent(t, vf.Bool("rec"))
	c := m.Shade(ctx1(), s, ray, h)
	hx.EqC(c, hx.Mul3(bg, t.c), "filtered")
	vf.Assert(len(p.Rays) == 1 && t.got == h.Local, "one ray")
	hx.EqV(p.Rays[0].Dir, ray.Dir, "straight on")
	d := hx.Sub(p.Rays[0].Start, hx.At(ray, h.T))
	vf.Assert(vf.And(hx.Dot(d, ray.Dir) > 0, hx.Dot(d, d) < 1e-10), "from just behind the hit")
	f := m.(tracer.TransparentMaterial).Filter(ray, tracer.HitRecord{T: h.T, Normal: h.Normal, Local: h.Local, Material: m}, bg)
	hx.EqC(f, hx.Mul3(bg, t.c), "shadow")
	// lights are not seen through it
	lamp := &hx.Light{O: &hx.Probe{F: func(r *tracer.Ray) colorf.Color { return colorf.Color{R: 1, G: 1, B: 1} }}}
	c = m.Shade(ctx1(), tracer.NewScene(3, []tracer.Light{lamp}), ray, h)
	hx.EqC(c, colorf.Color{}, "no light through transparent materials")
}

// blocker is an opaque object at a fixed distance along shadow rays.
type blocker struct {
	t float64
	r []tracer.Ray
}

func (b *blocker) Intersect(r *tracer.Ray) tracer.HitRecord {
	b.r = append(b.r, *r)
	return tracer.HitRecord{T: b.t, Normal: hx.Vec{0, 1, 0}, Material: &hx.Mat{}}
}

// Matte: every light contributes its intensity times the cosine of incidence, unless it is on the far side
// or in shadow; one more ray, on the side of the viewer, gathers the indirect light; times the texture.
func matte(lights int, shadow bool) {
	t := &tex{c: hx.Refl("c")}
	env := hx.Color("env")
	var ls []tracer.Light
	var hl []*hx.Light
	for i := 0; i < lights; i++ {
		k := vf.IntTok(i)
		l := &hx.Light{O: hx.Nothing{}, C: hx.Color("light" + k), Pos: hx.VR("pos"+k, 10)}
		d := hx.Sub(l.Pos, hx.Vec{1, 2, 4}) // not at the surface point itself
		vf.Assume(hx.Dot(d, d) > 0.01)
		ls, hl = append(ls, l), append(hl, l)
	}
	p := &hx.Probe{F: func(r *tracer.Ray) colorf.Color { return env }}
	h := coords()
	up := 1.0
	if vf.Bool("back") {
		h.Normal = hx.Vec{0, -1, 0} // seen from the back: the side of the viewer counts
	}
	var objs []tracer.Object
	bl := &blocker{}
	if shadow {
		bl.t = vf.Float("block", 0.01, 40)
		objs = append(objs, bl)
	}
	lamp := &hx.Light{O: p} // the environment is a light: it may not contribute indirectly
	indirect := !vf.Bool("lamp")
	if indirect {
		objs = append(objs, p)
	} else {
		ls = append(ls, lamp)
	}
	s := tracer.NewScene(2, ls, objs...)
	if shadow {
		// nothing but the lights counts
		env = colorf.Color{}
	}
	c := materials.Matte(t).Shade(ctx1(), s, ray, h)
	pt := hx.At(ray, h.T)
	var want colorf.Color
	for _, l := range hl {
		vf.Assert(len(l.Got) == 1, "light sampled once")
		q := l.Got[0]
		d := hx.Sub(q, pt)
		vf.Assert(vf.And(hx.Dot(d, d) < 1e-10, up*d[1] > 0), "for the hit point")
		d = hx.Sub(l.Pos, q)
		dist := math.Sqrt(hx.Dot(d, d))
		cos := vf.IteF(d[1] > 0, d[1]/dist, 0)
		if shadow {
			cos = vf.IteF(bl.t < dist, 0, cos)
		}
		want = hx.AddC(want, hx.MulC(cos, l.C))
	}
	if indirect && !shadow {
		want = hx.AddC(want, env)
		vf.Assert(len(p.Rays) == 1 && p.Deep[0] == 2, "one indirect ray")
		r := p.Rays[0]
		vf.Assert(vf.And(r.Dir[1] >= 0, vf.Eq(hx.Dot(r.Dir, r.Dir), 1)), "into the hemisphere of the viewer")
		d := hx.Sub(r.Start, pt)
		vf.Assert(vf.And(hx.Dot(d, d) < 1e-10, d[1] > 0), "from the hit point")
	}
	hx.EqC(c, hx.Mul3(want, t.c), "light gathered")
	vf.Assert(t.got == h.Local, "texture at the local coordinates")
	hx.ObsC("c", c)
}

func H_Matte1() { matte(1, false) }
func H_Matte2() { matte(2, false) }

// Shadow: an opaque object between surface and light.
func H_MatteShadow() { matte(1, true) }

// Shiny is matte plus mirror, weights adding up to one.
func H_Shiny() {
	refl := vf.Float("refl", 0, 1)
	t := &tex{c: hx.Refl("c")}
	env := hx.Color("env")
	p := &hx.Probe{F: func(r *tracer.Ray) colorf.Color { return env }}
	c := materials.Shiny(t, refl).Shade(ctx1(), tracer.NewScene(2, nil, p), ray, coords())
	hx.EqC(c, hx.AddC(hx.MulC(1-refl, hx.Mul3(env, t.c)), hx.MulC(refl, env)), "in a uniform environment")
	vf.Assert(vf.And(vf.Le(c.R, env.R), vf.Le(c.G, env.G), vf.Le(c.B, env.B)), "never brighter than the environment")
}
