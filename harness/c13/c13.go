// C13: pixel geometry: pixels are square, cover the sensor centrally, and antialiasing stays in the pixel.
package main

import (
	"math"

	"vh/vf"

	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/sampler"
	"github.com/barnex/bruteray/tracer"
)

func toCam(which, w, h int, x, y float64) (float64, float64) {
	if which == 0 {
		return tracer.IndexToCam(w, h, x, y)
	}
	return sampler.IndexToCam(w, h, x, y)
}

// Every position of the image maps into the unit square: to its center relative to the image's
// center, u to the right, v up, one pixel being 1/max(w,h) in both directions.
func H_Map() {
	w, h := vf.Int("w", 1, 100000), vf.Int("h", 1, 100000)
	which := vf.Conc(vf.Int("which", 0, 1))
	x, y := vf.Float("x", -0.5, 100000), vf.Float("y", -0.5, 100000)
	vf.Assume(x <= float64(w)-0.5)
	vf.Assume(y <= float64(h)-0.5)
	u, v := toCam(which, w, h, x, y)
	m := vf.IteF(w > h, float64(w), float64(h))
	vf.Assert(vf.Eq((u-0.5)*m, x+0.5-0.5*float64(w)), "u")
	vf.Assert(vf.Eq((v-0.5)*m, 0.5*float64(h)-0.5-y), "v")
	vf.Assert(vf.And(vf.Le(0, u), vf.Le(u, 1), vf.Le(0, v), vf.Le(v, 1)), "within the unit square")
	vf.Observe("u", u)
	vf.Observe("v", v)
}

// Positions outside of the image are refused.
func H_Outside() {
	w, h := vf.Int("w", 1, 1000), vf.Int("h", 1, 1000)
	which := vf.Conc(vf.Int("which", 0, 1))
	x, y := vf.Float("x", -2000, 2000), vf.Float("y", -2000, 2000)
	out := vf.Or(x < -0.51, y < -0.51, x > float64(w)-0.49, y > float64(h)-0.49)
	in := vf.And(x > -0.49, y > -0.49, x < float64(w)-0.51, y < float64(h)-0.51)
	p := vf.Panics(func() { toCam(which, w, h, x, y) })
	if p {
		vf.Assert(!in, "positions inside are accepted")
	} else {
		vf.Assert(!out, "positions outside are refused")
	}
}

// The size of a pixel is the distance of neighbouring pixels.
func H_PixelSize() {
	w, h := vf.Int("w", 2, 100000), vf.Int("h", 2, 100000)
	u0, v0 := tracer.IndexToCam(w, h, 0, 0)
	u1, v1 := tracer.IndexToCam(w, h, 1, 1)
	s := tracer.PixelSize(w, h)
	m := vf.IteF(w > h, float64(w), float64(h))
	vf.Assert(vf.Eq((u1-u0)*m, s*m), "horizontally")
	vf.Assert(vf.Eq((v0-v1)*m, s*m), "vertically")
}

var sizes = [][2]int{{1, 1}, {3, 2}, {1, 3}, {4, 1}}

// With antialiasing, samples stay within their pixel, differ from sample to sample and spread over it.
//vf: ncpu=1 steps=2000000
func H_AntiAlias() {
	sz := sizes[vf.Conc(vf.Int("size", 0, 3))]
	w, h := sz[0], sz[1]
	n := vf.Conc(vf.Int("n", 2, 4)) * 8
	offs := make([][][2]float64, w*h)
	f := func(ctx *tracer.Ctx, u, v float64) colorf.Color {
		m := math.Max(float64(w), float64(h))
		x := (u-0.5)*m + float64(w)/2
		y := (0.5-v)*m + float64(h)/2
		ix, iy := int(math.Floor(x)), int(math.Floor(y))
		if ix < 0 || iy < 0 || ix >= w || iy >= h {
			vf.Assert(false, "inside the image")
			return colorf.Color{}
		}
		offs[iy*w+ix] = append(offs[iy*w+ix], [2]float64{x - float64(ix) - 0.5, y - float64(iy) - 0.5})
		return colorf.Color{}
	}
	tracer.NewSampler(f, w, h, true).Sample(n)
	for _, os := range offs {
		vf.Assert(len(os) == n, "every sample lies in its pixel")
		var min, max [2]float64
		distinct := true
		for i, o := range os {
			for k := range o {
				min[k], max[k] = math.Min(min[k], o[k]), math.Max(max[k], o[k])
			}
			for _, q := range os[:i] {
				distinct = distinct && !(vf.Eq(o[0], q[0]) && vf.Eq(o[1], q[1]))
			}
		}
		vf.Assert(distinct, "samples of a pixel differ")
		for k := range min {
			vf.Assert(min[k] < -0.25 && max[k] > 0.25, "samples spread over the pixel")
		}
	}
}
