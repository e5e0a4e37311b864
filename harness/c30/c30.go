// C30: the rays that a context hands out are clean and nobody else's until they are given back, and materials, media and
// cameras keep to that: while a ray is followed, nothing changes it.
package main

import (
	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/media"
)

func garbage(r *tracer.Ray) {
	r.Start = hx.Vec{1, 2, 3}
	r.Dir = hx.Vec{4, 5, 6}
}

// Any sequence of taking and giving back: a ray taken is zero and not one of those in use.
func H_Pool() {
	ctx := tracer.NewCtx(1)
	var live []*tracer.Ray
	n := 5
	if vf.Thorough() {
		n = 7
	}
	for k := 0; k < n; k++ {
		i := vf.Conc(vf.Int("op"+vf.IntTok(k), 0, n))
		vf.Assume(i <= len(live))
		if i < len(live) {
			ctx.PutRay(live[i])
			live = append(append([]*tracer.Ray{}, live[:i]...), live[i+1:]...)
			continue
		}
		r := ctx.Ray()
		vf.Assert(*r == tracer.Ray{}, "a new ray is empty")
		for _, o := range live {
			vf.Assert(o != r, "a new ray is not in use")
		}
		garbage(r)
		live = append(live, r)
	}
}

// world is an object around everything, made of the given materials: those that are seen directly, those seen in them and so on.
type world struct {
	mats  []tracer.Material
	ctx   *tracer.Ctx
	rays  []*tracer.Ray // being followed
	any   bool          // any normal, rather than two
	shade int
	occl  int
}

func (w *world) Intersect(r *tracer.Ray) tracer.HitRecord {
	d := w.ctx.CurrentRecursionDepth
	n := vf.IntTok(d)
	x, t := 0.75, 4.0
	if d == 1 || vf.Thorough() {
		if w.any || vf.Thorough() {
			x = vf.Float("tilt"+n, -0.9, 0.9)
		} else {
			x -= 1.5 * float64(vf.Conc(vf.Int("side"+n, 0, 1)))
		}
		t = vf.Float("t"+n, 1, 10)
	}
	nor := hx.Vec{0, 1, x} // the camera looks along z: seen from the front or the back
	if d > 1 && d <= len(w.mats) && vf.Conc(vf.Int("back"+n, 0, 1)) == 1 {
		nor = hx.Vec{0, -1, -x}
	}
	return tracer.HitRecord{T: t, Normal: nor, Material: w}
}

// the ray is compared before and after the material of this depth has shaded.
func (w *world) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	d := ctx.CurrentRecursionDepth
	w.shade++
	for _, o := range w.rays {
		vf.Assert(o != r, "a ray that is followed is not used for another")
	}
	if d > len(w.mats) {
		probe(ctx, append(w.rays, r))
		return colorf.Color{R: 1, G: 1, B: 1}
	}
	was := *r
	w.rays = append(w.rays, r)
	c := w.mats[d-1].Shade(ctx, s, r, h)
	w.rays = w.rays[:len(w.rays)-1]
	hx.EqV(r.Start, was.Start, "the ray that is followed keeps its start")
	hx.EqV(r.Dir, was.Dir, "the ray that is followed keeps its direction")
	vf.Assert(ctx.CurrentRecursionDepth == d, "the recursion depth is restored")
	probe(ctx, append(w.rays, r))
	return c
}

// Filter: what shadow rays meet is transparent.
func (w *world) Filter(r *tracer.Ray, h tracer.HitRecord, background colorf.Color) colorf.Color {
	w.occl++
	return background
}

// taking rays out of the pool yields none that is in use, and none twice.
func probe(ctx *tracer.Ctx, live []*tracer.Ray) {
	var out []*tracer.Ray
	for k := 0; k < 4; k++ {
		r := ctx.Ray()
		for _, o := range live {
			vf.Assert(o != r, "a ray in use is not handed out")
		}
		for _, o := range out {
			vf.Assert(o != r, "a ray is handed out once")
		}
		out = append(out, r)
	}
	for k := range out {
		garbage(out[k])
		ctx.PutRay(out[k])
	}
}

type white struct{}

func (white) At(p geom.Vec) colorf.Color     { return colorf.Color{R: 0.5, G: 0.5, B: 0.5} }
func (white) AtUV(u, v float64) colorf.Color { return colorf.Color{R: 0.5, G: 0.5, B: 0.5} }

var _ texture.Texture = white{}

const numMat = 8

func mat(i int) tracer.Material {
	w := white{}
	switch i {
	case 0:
		return materials.Matte(w)
	case 1:
		return materials.Reflective(colorf.Color{R: 1, G: 1, B: 1})
	case 2:
		return materials.Refractive(1.5)
	case 3:
		return materials.Transparent(w, true)
	case 4:
		return materials.ReflectFresnel(1.5, materials.Matte(w))
	case 5:
		return materials.Blend(0.5, materials.Matte(w), 0.5, materials.Refractive(1.5))
	case 6:
		return materials.TwoSided(materials.Reflective(colorf.Color{R: 1, G: 1, B: 1}), materials.Matte(w))
	}
	return materials.BlendMap(w, materials.Transparent(w, false), materials.ReflectFresnel(1.5, materials.Refractive(1.5)))
}

// A picture of any two materials, one seen in the other, lit by a light anywhere, with fog, through any camera: every ray
// keeps start and direction while it is followed, and all rays are returned once.
// vf: unwind=64 budget=240
func H_Scene() {
	ctx := tracer.NewCtx(1)
	second := vf.Conc(vf.Int("second", 0, numMat-1))
	first := vf.Conc(vf.Int("first", 0, numMat-1))
	w := &world{ctx: ctx, any: first >= 1 && first <= 3, mats: []tracer.Material{
		mat(first),
		mat(second),
	}}
	l := &hx.Light{Pos: hx.Vec{3, 20, vf.Float("light", -5, 5)}, C: colorf.Color{R: 1, G: 1, B: 1}, O: hx.Nothing{}}
	var med []tracer.Medium
	s := tracer.NewSceneWithMedia(3, med, []tracer.Light{l}, w)
	ctx.Init(0, 0)
	c := s.ImageFunc(cameras.Projective(1))(ctx, 0.5, 0.5)
	vf.Assert(ctx.CurrentRecursionDepth == 0, "the recursion depth is restored")
	vf.Assert(w.shade > 0, "shaded")
	probe(ctx, nil)
	_ = c
}

// The same with media, and through each camera.
// vf: unwind=64
func H_Media() {
	ctx := tracer.NewCtx(1)
	w := &world{ctx: ctx, mats: []tracer.Material{mat(1)}}
	l := &hx.Light{Pos: hx.Vec{3, 20, vf.Float("light", -5, 5)}, C: colorf.Color{R: 1, G: 1, B: 1}, O: hx.Nothing{}}
	med := []tracer.Medium{media.Fog(0.1, 5, 1), media.ExpFog(0.1, colorf.Color{R: 1, G: 1, B: 1}, 7)}
	if vf.Conc(vf.Int("order", 0, 1)) == 1 {
		med[0], med[1] = med[1], med[0]
	}
	s := tracer.NewSceneWithMedia(2, med, []tracer.Light{l}, w)
	ctx.Init(0, 0)
	var cam tracer.Camera
	switch vf.Conc(vf.Int("camera", 0, 3)) {
	case 0:
		cam = cameras.Projective(1)
	case 1:
		cam = cameras.ProjectiveAperture(1, 0.1, 3)
	case 2:
		cam = cameras.EnvironmentMap()
	case 3:
		cam = cameras.Isometric(1, 2)
	}
	s.ImageFunc(cam)(ctx, 0.5, 0.5)
	vf.Assert(ctx.CurrentRecursionDepth == 0, "the recursion depth is restored")
	vf.Assert(w.shade > 0, "shaded")
	probe(ctx, nil)
}
