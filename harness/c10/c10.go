// C10: the light field of a scene: the frontmost object is shaded, once, within the recursion limit.
package main

import (
	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
)

type obj struct {
	hit tracer.HitRecord
	n   int
	r   tracer.Ray
}

func (o *obj) Intersect(r *tracer.Ray) tracer.HitRecord {
	o.n++
	o.r = *r
	return o.hit
}

// mat records how it is asked to shade and answers with its color.
type mat struct {
	col   colorf.Color
	n     int
	h     tracer.HitCoords
	r     tracer.Ray
	depth int
	s     *tracer.Scene
}

func (m *mat) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	m.n++
	m.h = h
	m.r = *r
	m.s = s
	m.depth = ctx.CurrentRecursionDepth
	return m.col
}

type light struct{ o *obj }

func (l *light) Object() tracer.Object { return l.o }
func (l *light) Sample(ctx *tracer.Ctx, target hx.Vec) (hx.Vec, colorf.Color) {
	return hx.Vec{}, colorf.Color{}
}

func color(n string) colorf.Color {
	return colorf.Color{R: vf.Float(n+".R", 0, 10), G: vf.Float(n+".G", 0, 10), B: vf.Float(n+".B", 0, 10)}
}

func eqC(a, b colorf.Color, l string) {
	vf.Assert(vf.Eq(a.R, b.R), l+" [R]")
	vf.Assert(vf.Eq(a.G, b.G), l+" [G]")
	vf.Assert(vf.Eq(a.B, b.B), l+" [B]")
}

// a number, or one of the special values an object may return
func anyT(n string) float64 {
	t := vf.FloatAny(n)
	vf.Assume(!(t > 1e300)) // a hit at infinity is out of scope
	return t
}

// front is the reference: the smallest positive hit, or -1.
func front(os []*obj) float64 {
	best := -1.0
	for _, o := range os {
		t := o.hit.T
		best = vf.IteF(vf.And(t > 0, vf.Or(best < 0, t < best)), t, best)
	}
	return best
}

func frontmost(nObj, nLight int) {
	var os []*obj
	var ms []*mat
	for i := 0; i < nObj+nLight; i++ {
		k := string(rune('0' + i))
		m := &mat{col: color("c" + k)}
		n := hx.Vec{3, 0, float64(4 + 0*i)}
		if i == 0 {
			n = hx.Vec{0, vf.Float("ny", 0.1, 5), 0}
		}
		os = append(os, &obj{hit: tracer.HitRecord{T: anyT("T" + k), Normal: n, Local: hx.Vec{float64(i), 1, 2}, Material: m}})
		ms = append(ms, m)
	}
	var objs []tracer.Object
	var lights []tracer.Light
	for i, o := range os {
		if i < nObj {
			objs = append(objs, o)
		} else {
			lights = append(lights, &light{o})
		}
	}
	limit, level := 3, 0
	if nObj+nLight < 3 { // on any level of the recursion
		limit = vf.Conc(vf.Int("limit", 1, 3))
		level = vf.Conc(vf.Int("level", 0, limit-1))
	}
	s := tracer.NewScene(limit, lights, objs...)
	ctx := &tracer.Ctx{CurrentRecursionDepth: level}
	r := &tracer.Ray{Start: hx.Vec{1, 2, 3}, Dir: hx.Vec{0, 0.6, 0.8}}
	indirect := vf.Bool("indirect")
	var c colorf.Color
	if indirect {
		c = s.LightFieldIndirect(ctx, r)
	} else {
		c = s.LightField(ctx, r)
	}
	best := front(os)
	var want colorf.Color
	shaded := 0
	for i, m := range ms {
		vf.Assert(os[i].n == 1 && os[i].r == *r, "every object is intersected with the ray")
		shaded += m.n
		if m.n == 0 {
			continue
		}
		want = m.col
		vf.Assert(vf.And(os[i].hit.T > 0, os[i].hit.T == best), "the frontmost object is shaded")
		vf.Assert(i < nObj || !indirect, "a light does not shine on its own in the indirect light field")
		vf.Assert(m.h.T == os[i].hit.T, "shaded at the hit")
		vf.Assert(m.h.Local == os[i].hit.Local, "local coordinates of the hit")
		vf.Assert(vf.Eq(hx.Dot(m.h.Normal, m.h.Normal), 1), "unit normal")
		vf.Assert(hx.Dot(m.h.Normal, os[i].hit.Normal) > 0, "same side")
		hx.EqV(hx.Cross(m.h.Normal, os[i].hit.Normal), hx.Vec{}, "normal of the hit")
		vf.Assert(m.r == *r, "shaded for the ray")
		vf.Assert(m.depth == level+1 && m.s == s, "recursion depth and scene are passed on")
	}
	vf.Assert(shaded <= 1, "shaded once")
	eqC(c, want, "color")
	if shaded == 0 {
		// black: nothing is hit, or what is hit first is a light in the indirect light field
		dark := best < 0
		if indirect {
			for i := nObj; i < len(os); i++ {
				dark = vf.Or(dark, os[i].hit.T == best)
			}
		}
		vf.Assert(dark, "black only if nothing is hit")
	}
	vf.Assert(ctx.CurrentRecursionDepth == level, "recursion depth is restored")
	vf.Assert(ctx.Stats.NumRays == 1, "one ray is counted")
	vf.Observe("R", c.R)
}

// Any number of objects, hits anywhere, missing, behind, or not a number.
func H_Front1() { frontmost(1, 0) }
func H_Front2() { frontmost(2, 0) }
func H_Front4() { frontmost(4, 0) }

// Lights are objects of their own; the indirect light field shows them as black.
func H_FrontLights() { frontmost(2, 2) }
func H_FrontLight()  { frontmost(1, 1) }

// An empty scene is black.
func H_Empty() {
	s := tracer.NewScene(vf.Int("depth", 0, 3), nil)
	c := s.LightField(&tracer.Ctx{}, &tracer.Ray{Dir: hx.Vec{0, 0, 1}})
	eqC(c, colorf.Color{}, "black")
	vf.Assert(len(s.Lights()) == 0 && len(s.ObjectsAndLights()) == 0, "nothing in it")
}

// recurse asks for the light field twice more and adds them up.
type recurse struct {
	max   int
	calls int
	k     int
}

func (m *recurse) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	m.calls++
	d := ctx.CurrentRecursionDepth
	if d > m.max {
		m.max = d
	}
	c := colorf.Color{R: 1}
	for i := 0; i < m.k; i++ {
		x := s.LightField(ctx, r)
		c = colorf.Color{R: c.R + x.R}
		vf.Assert(ctx.CurrentRecursionDepth == d, "depth is the same after every nested call")
	}
	return c
}

// The recursion limit: a material that recurses k ways is called 1+k+k²+... times, depth levels deep.
func H_Recursion() {
	depth := vf.Conc(vf.Int("depth", 0, 4))
	k := vf.Conc(vf.Int("k", 0, 3))
	m := &recurse{k: k}
	s := tracer.NewScene(depth, nil, &obj{hit: tracer.HitRecord{T: vf.Float("T", 0.1, 10), Normal: hx.Vec{0, 0, 1}, Material: m}})
	ctx := &tracer.Ctx{}
	want, pow := 0, 1
	for i := 0; i < depth; i++ {
		want += pow
		pow *= k
	}
	levels := depth
	if k == 0 && depth > 1 {
		levels = 1
	}
	for i := 0; i < 2; i++ { // the context can be used again
		m.calls, m.max = 0, 0
		c := s.LightField(ctx, &tracer.Ray{Dir: hx.Vec{0, 0, 1}})
		vf.Assert(m.calls == want, "number of evaluations")
		vf.Assert(m.max == levels, "recursion goes exactly to the limit")
		vf.Assert(c.R == float64(want), "result")
		vf.Assert(ctx.CurrentRecursionDepth == 0, "recursion depth is restored")
	}
}

type medium struct {
	f    float64
	add  float64
	n    int
	tmax float64
}

func (m *medium) Filter(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, tMax float64, c colorf.Color) colorf.Color {
	m.n++
	m.tmax = tMax
	return colorf.Color{R: m.f*c.R + m.add, G: c.G, B: c.B + m.add}
}

// Media filter the result in their order, once, up to the frontmost hit; without media the scene is as before.
func H_Media() {
	m := &mat{col: color("c")}
	os := []*obj{
		{hit: tracer.HitRecord{T: anyT("T0"), Normal: hx.Vec{0, 0, 1}, Material: m}},
		{hit: tracer.HitRecord{T: anyT("T1"), Normal: hx.Vec{0, 0, 1}, Material: m}},
	}
	med := []*medium{
		{f: vf.Float("f0", 0, 1), add: vf.Float("a0", 0, 1)},
		{f: vf.Float("f1", 0, 1), add: vf.Float("a1", 0, 1)},
	}
	s := tracer.NewSceneWithMedia(1, []tracer.Medium{med[0], med[1]}, nil, os[0], os[1])
	c := s.LightField(&tracer.Ctx{}, &tracer.Ray{Dir: hx.Vec{0, 0, 1}})
	best := front(os)
	want := m.col
	if best < 0 {
		want = colorf.Color{}
	}
	want = colorf.Color{R: med[1].f*(med[0].f*want.R+med[0].add) + med[1].add, G: want.G, B: want.B + med[0].add + med[1].add}
	eqC(c, want, "filtered by the media in order")
	for _, m := range med {
		vf.Assert(m.n == 1, "filtered once")
		vf.Assert(vf.Or(best < 0, m.tmax == best), "filtered up to the hit")
		vf.Assert(vf.Or(best > 0, m.tmax > 1e300), "filtered up to infinity")
	}
}

type camera struct {
	got [2]float64
	r   *tracer.Ray
}

func (k *camera) RayFrom(ctx *tracer.Ctx, u, v float64) *tracer.Ray {
	k.got = [2]float64{u, v}
	r := ctx.Ray()
	r.Start = hx.Vec{u, v, 1}
	r.Dir = hx.Vec{0, 1, 0}
	k.r = r
	return r
}

// The image function is the light field of the camera's ray.
func H_ImageFunc() {
	m := &mat{col: color("c")}
	o := &obj{hit: tracer.HitRecord{T: 1, Normal: hx.Vec{0, 0, 1}, Material: m}}
	s := tracer.NewScene(2, nil, o)
	k := &camera{}
	f := s.ImageFunc(k)
	ctx := tracer.NewCtx(1)
	for i := 0; i < 2; i++ {
		n := string(rune('0' + i))
		u, v := vf.Float("u"+n, 0, 1), vf.Float("v"+n, 0, 1)
		c := f(ctx, u, v)
		eqC(c, m.col, "color of the scene")
		vf.Assert(k.got[0] == u && k.got[1] == v, "camera asked for the position")
		vf.Assert(o.r.Start == hx.Vec{u, v, 1} && o.r.Dir == hx.Vec{0, 1, 0}, "ray of the camera")
	}
}

// Building a scene leaves the caller's slices alone and keeps them apart.
func H_NewScene() {
	all := make([]tracer.Object, 2, 4)
	all[0], all[1] = &obj{}, &obj{}
	spare := &obj{}
	tail := append(all, spare) // shares the array beyond len(all)
	l1, l2 := &light{&obj{}}, &light{&obj{}}
	lights := []tracer.Light{l1, l2}
	s := tracer.NewScene(1, lights, all...)
	vf.Assert(tail[2] == tracer.Object(spare), "caller's slice is not written")
	ol := s.ObjectsAndLights()
	vf.Assert(len(ol) == 4 && ol[0] == all[0] && ol[1] == all[1] && ol[2] == tracer.Object(l1.o) && ol[3] == tracer.Object(l2.o), "objects and lights")
	ls := s.Lights()
	vf.Assert(len(ls) == 2 && ls[0] == tracer.Light(l1) && ls[1] == tracer.Light(l2), "lights")
}
