// C11: shadows: a shadow ray is blocked exactly by what lies between its start and the light.
package main

import (
	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/objects"
)

// obj has surfaces across the ray, in order, where the ray that starts at z=3 hits them at T.
type obj struct {
	T []float64
	M []tracer.Material
	r tracer.Ray
	n int
}

func (o *obj) Intersect(r *tracer.Ray) tracer.HitRecord {
	o.r = *r
	o.n++
	var h tracer.HitRecord
	for i := range o.T {
		h = tracer.HitRecord{T: o.T[i], Normal: hx.Vec{0, 0, 1}, Local: hx.Vec{float64(i), 0, 0}, Material: o.M[i]}
		if r.Start[2] != 3 {
			h.T -= r.Start[2] - 3
		}
		if h.T > 0 {
			break
		}
	}
	return h
}

type glass struct {
	hx.Mat
	i    int
	t, f float64
	n    int
	ok   bool
}

func (g *glass) Filter(r *tracer.Ray, h tracer.HitRecord, c colorf.Color) colorf.Color {
	g.n++
	g.ok = vf.And(vf.Near(r.Start[2]-3+h.T, g.t, 1e-9*(1+g.t)), vf.And(r.Start[0] == 1, r.Start[1] == 2))
	g.ok = vf.And(g.ok, vf.And(h.Local == hx.Vec{float64(g.i), 0, 0}, r.Dir == hx.Vec{0, 0, 1}))
	return colorf.Color{R: g.f * c.R, G: c.G, B: c.B * g.f}
}

type light struct{ o *obj }

func (l *light) Object() tracer.Object { return l.o }
func (l *light) Sample(ctx *tracer.Ctx, target hx.Vec) (hx.Vec, colorf.Color) {
	return hx.Vec{}, colorf.Color{}
}

// Opaque surfaces strictly between start and light block it; transparent ones filter it, also when there are several in
// an object; what is behind the start or beyond the light, misses and lights do nothing.
func occlude(n ...int) {
	var os []tracer.Object
	var hits []*obj
	var gl []*glass
	var ts []float64
	var rep []bool
	far := 1e12 // the sun is far away
	if len(n) > 0 && n[0] > 1 {
		far = 1000
	}
	dist := vf.Float("len", 0.001, far)
	for i, m := range n {
		o := &obj{}
		for j := 0; j < m; j++ {
			k := vf.IntTok(i) + "." + vf.IntTok(j)
			var t float64
			if m == 1 {
				t = vf.FloatAny("T" + k)
			} else {
				t = vf.Float("T"+k, -10, 2000)
				if j > 0 {
					vf.Assume(t > o.T[j-1]+0.01)
				}
				vf.Assume(vf.Or(t < dist-1e-6, t > dist+1e-6))
			}
			var g *glass
			var mat tracer.Material
			if vf.Bool("glass" + k) {
				g = &glass{i: j, t: t, f: vf.Float("f"+k, 0, 1)}
				mat = g
			} else {
				mat = &hx.Mat{ID: i}
			}
			o.T, o.M = append(o.T, t), append(o.M, mat)
			gl, ts, rep = append(gl, g), append(ts, t), append(rep, m > 1)
		}
		os, hits = append(os, o), append(hits, o)
	}
	lt := &light{&obj{T: []float64{1}, M: []tracer.Material{&hx.Mat{}}}}
	s := tracer.NewScene(1, []tracer.Light{lt}, os...)
	orig := colorf.Color{R: vf.Float("R", 0, 10), G: vf.Float("G", 0, 10), B: vf.Float("B", 0, 10)}
	r := &tracer.Ray{Start: hx.Vec{1, 2, 3}, Dir: hx.Vec{0, 0, 1}}
	r0 := *r
	c := s.Occlude(r, dist, orig)
	vf.Assert(*r == r0, "ray unchanged")
	blocked := false
	f := 1.0
	for i, t := range ts {
		between := vf.And(t > 0, t < dist)
		if gl[i] == nil {
			blocked = vf.Or(blocked, between)
		} else {
			f *= vf.IteF(between, gl[i].f, 1)
			if gl[i].n > 0 {
				vf.Assert(between, "only what is between filters")
				vf.Assert(gl[i].n == 1, "filtered once")
				vf.Assert(gl[i].ok, "filtered with the hit")
			}
		}
	}
	for _, o := range hits {
		vf.Assert(vf.Or(o.n == 0, vf.And(o.r.Dir == r0.Dir, vf.And(o.r.Start[0] == 1, o.r.Start[1] == 2))), "objects are asked about the ray")
	}
	tol := 0.0
	if len(n) > 0 && n[0] > 1 {
		tol = 1e-9
	}
	vf.Assert(vf.Near(c.R, vf.IteF(blocked, 0, f*orig.R), tol), "red")
	vf.Assert(vf.Near(c.G, vf.IteF(blocked, 0, orig.G), tol), "green")
	vf.Assert(vf.Near(c.B, vf.IteF(blocked, 0, f*orig.B), tol), "blue")
	vf.Observe("R", c.R)
}

func H_One()   { occlude(1) }
func H_Two()   { occlude(1, 1) }
func H_Three() { occlude(1, 1, 1) }

// Without objects the light is as bright as it is.
func H_None() { occlude() }

// Objects with several surfaces: each filters or blocks.
func H_Surfaces2()  { occlude(2) }
func H_Surfaces3()  { occlude(3) }
func H_Surfaces21() { occlude(2, 1) }

// A shutter behind a pane of glass blocks the light, also when both are parts of the same object: a list, a tree or a union.
func H_Behind() {
	a, b := vf.Float("glass", 0.5, 4), vf.Float("shutter", 0.5, 4)
	vf.Assume(vf.Or(a > b+0.01, b > a+0.01))
	t := vf.Float("tint", 0, 1)
	pane := materials.Transparent(colorf.Color{R: t, G: t, B: t}, true)
	wall := materials.Flat(colorf.White)
	var os []tracer.Object
	g, w := objects.Rectangle(pane, 2, 2, hx.Vec{0, a, 0}), objects.Rectangle(wall, 2, 2, hx.Vec{0, b, 0})
	switch vf.Conc(vf.Int("how", 0, 2)) {
	case 0:
		os = []tracer.Object{g, w}
	case 1:
		os = []tracer.Object{objects.Tree(g, w)}
	case 2:
		os = []tracer.Object{objects.Or(objects.Box(pane, 1, 0.1, 1, hx.Vec{0, a, 0}), objects.Box(wall, 1, 0.1, 1, hx.Vec{0, b, 0}))}
		vf.Assume(vf.Or(a > b+0.2, b > a+0.2))
	}
	s := tracer.NewScene(1, nil, os...)
	x := vf.Float("x", -0.4, 0.4)
	r := &tracer.Ray{Start: hx.Vec{x, 0, 0.1}, Dir: hx.Vec{0, 1, 0}}
	c := s.Occlude(r, 5, colorf.White)
	vf.Assert(c == colorf.Color{}, "dark")
	c = s.Occlude(r, 0.3, colorf.White)
	vf.Assert(c == colorf.White, "bright before it")
}

var _ texture.Texture = colorf.Color{}
