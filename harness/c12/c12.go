// C12: the sampler samples every pixel exactly as often as asked, and averages the samples.
package main

import (
	"math"

	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
)

// pixel is the index of the pixel containing sensor position (u,v).
func pixel(w, h int, u, v float64) (int, int) {
	m := math.Max(float64(w), float64(h))
	x := (u-0.5)*m + float64(w)/2
	y := (0.5-v)*m + float64(h)/2
	return int(math.Floor(x)), int(math.Floor(y))
}

var sizes = [][2]int{{1, 1}, {3, 2}, {2, 5}, {17, 2}, {1, 33}, {16, 16}, {33, 17}}

func sizeOf() (int, int) {
	n := 4
	if vf.Thorough() {
		n = len(sizes) - 1
	}
	s := sizes[vf.Conc(vf.Int("size", 0, n))]
	return s[0], s[1]
}

// Every pixel is sampled exactly once per pass, at its center, by whichever goroutine, also when
// continuing an earlier call.
//vf: race=1 tries=5 steps=4000000 budget=200 threads=8 preempt=1 preempt_t=2
func H_Count() {
	w, h := sizeOf()
	n0, n1 := vf.Conc(vf.Int("n0", 0, 1)), vf.Conc(vf.Int("n1", 1, 2))
	count := make([]int, w*h)
	f := func(ctx *tracer.Ctx, u, v float64) colorf.Color {
		ix, iy := pixel(w, h, u, v)
		ok := ix >= 0 && iy >= 0 && ix < w && iy < h
		vf.Assert(ok, "sampled inside the image")
		ctx.GenerateLens() // random numbers of its own
		if ok {
			m := math.Max(float64(w), float64(h))
			vf.Assert(vf.Eq(u, 0.5+(float64(ix)+0.5-0.5*float64(w))/m), "center of the pixel [u]")
			vf.Assert(vf.Eq(v, 0.5-(float64(iy)+0.5-0.5*float64(h))/m), "center of the pixel [v]")
			count[iy*w+ix]++
		}
		return colorf.Color{R: float64(ix), G: float64(iy), B: 1}
	}
	s := tracer.NewSampler(f, w, h, false)
	s.Sample(n0)
	s.Sample(n1)
	img := s.Image()
	ok := len(img) == h
	for iy := 0; iy < h && ok; iy++ {
		ok = len(img[iy]) == w
		for ix := 0; ix < w && ok; ix++ {
			c := img[iy][ix]
			ok = count[iy*w+ix] == n0+n1 && vf.And(vf.Eq(c.R, float64(ix)), vf.Eq(c.G, float64(iy)), vf.Eq(c.B, 1))
		}
	}
	vf.Assert(ok, "every pixel is sampled once per pass and shows its own color")
}

// The pixel is the mean of its samples, whatever they are, over all calls; the deviation is their standard deviation.
//vf: ncpu=1 merge=1
func H_Mean() {
	const w, h = 2, 1
	n0, n1 := vf.Conc(vf.Int("n0", 1, 2)), vf.Conc(vf.Int("n1", 0, 2))
	var got [w * h][]colorf.Color
	f := func(ctx *tracer.Ctx, u, v float64) colorf.Color {
		ix, iy := pixel(w, h, u, v)
		p := iy*w + ix
		k := "c" + vf.IntTok(p) + "." + vf.IntTok(len(got[p]))
		c := colorf.Color{R: vf.Float(k+".R", -5, 5), G: vf.Float(k+".G", 0, 5), B: vf.Float(k+".B", 0, 1e6)}
		got[p] = append(got[p], c)
		return c
	}
	s := tracer.NewSampler(f, w, h, false)
	s.Sample(n0)
	s.Sample(n1)
	img, dev := s.Image(), s.StdDev()
	n := float64(n0 + n1)
	for p, cs := range got {
		vf.Assert(len(cs) == n0+n1, "number of samples")
		var sum, sq colorf.Color
		for _, c := range cs {
			sum = colorf.Color{R: sum.R + c.R, G: sum.G + c.G, B: sum.B + c.B}
		}
		c := img[0][p]
		vf.Assert(vf.Eq(c.R*n, sum.R), "mean [R]")
		vf.Assert(vf.Eq(c.G*n, sum.G), "mean [G]")
		vf.Assert(vf.Eq(c.B*n, sum.B), "mean [B]")
		if n >= 2 {
			for _, c := range cs {
				sq.R += (c.R - sum.R/n) * (c.R - sum.R/n)
				sq.G += (c.G - sum.G/n) * (c.G - sum.G/n)
				sq.B += (c.B - sum.B/n) * (c.B - sum.B/n)
			}
			d := dev[0][p]
			vf.Assert(vf.And(d.R >= 0, vf.Eq(d.R*d.R*(n-1), sq.R)), "deviation [R]")
			vf.Assert(vf.And(d.G >= 0, vf.Eq(d.G*d.G*(n-1), sq.G)), "deviation [G]")
			vf.Assert(vf.And(d.B >= 0, vf.Eq(d.B*d.B*(n-1), sq.B)), "deviation [B]")
		}
		vf.Observe("R"+vf.IntTok(p), c.R)
	}
}

// A sample that is not a number does not spoil the pixel, nor its neighbours.
//vf: ncpu=1
func H_NaN() {
	const w, h = 2, 1
	n := vf.Conc(vf.Int("n", 1, 3))
	var sum [w]float64
	var k [w]int
	f := func(ctx *tracer.Ctx, u, v float64) colorf.Color {
		ix, _ := pixel(w, h, u, v)
		x := vf.Float("c"+vf.IntTok(ix)+"."+vf.IntTok(k[ix]), 0, 5)
		k[ix]++
		if ix == 0 && vf.Bool("nan"+vf.IntTok(k[0])) {
			switch vf.Conc(vf.Int("which", 0, 2)) {
			case 0:
				return colorf.Color{R: math.NaN(), G: 1, B: 1}
			case 1:
				return colorf.Color{R: 1, G: math.NaN(), B: 1}
			default:
				return colorf.Color{R: 1, G: 1, B: math.NaN()}
			}
		}
		sum[ix] += x
		return colorf.Color{R: x, G: x, B: x}
	}
	s := tracer.NewSampler(f, w, h, false)
	s.Sample(n)
	vf.Assert(k[0] == n && k[1] == n, "all samples are taken")
	img := s.Image()
	a, b := img[0][0], img[0][1]
	vf.Assert(vf.Finite(a.R) && vf.Finite(a.G) && vf.Finite(a.B), "still a number")
	vf.Assert(vf.And(vf.Le(0, a.R), vf.Le(a.R, 5), vf.Eq(a.R, a.G), vf.Eq(a.G, a.B)), "within the range of the samples")
	vf.Assert(vf.Eq(b.R*float64(n), sum[1]), "the neighbour is the mean of its samples")
}

// The convenience function is a sampler run once.
//vf: ncpu=1
func H_Uniform() {
	f := func(ctx *tracer.Ctx, u, v float64) colorf.Color {
		return colorf.Color{R: vf.Float("r", 0, 1), G: u, B: v}
	}
	n := vf.Conc(vf.Int("n", 1, 3))
	img := tracer.Uniform(f, n, 2, 1, false)
	vf.Assert(len(img) == 1 && len(img[0]) == 2, "size")
	vf.Assert(vf.Eq(img[0][0].R, vf.Float("r", 0, 1)), "mean")
	vf.Assert(vf.Eq(img[0][1].G, 0.75) && vf.Eq(img[0][1].B, 0.5), "position")
}

// The context passed to the image function belongs to the goroutine, is initialised for the pixel and
// continues the pixel's sequence over passes and calls, whoever samples it.
//vf: race=1 tries=5 steps=2000000 threads=8 preempt=1 preempt_t=2
func H_Sequence() {
	const w, h = 17, 1
	var first [w][2]float64
	var n [w]int
	f := func(ctx *tracer.Ctx, u, v float64) colorf.Color {
		ix, _ := pixel(w, h, u, v)
		vf.Assert(ctx.CurrentRecursionDepth == 0, "fresh recursion depth")
		ctx.CurrentRecursionDepth = 1
		a, b := ctx.Generate2()
		ctx.CurrentRecursionDepth = 0
		vf.Assert(a >= 0 && a < 1 && b >= 0 && b < 1, "random numbers in [0,1)")
		if n[ix] == 0 {
			first[ix] = [2]float64{a, b}
		} else {
			// second element of the base-2 and base-3 sequence, relative to the first
			vf.Assert(vf.Near(frac(a-first[ix][0]), 0.75, 1e-9), "second sample continues the sequence [u]")
			vf.Assert(vf.Near(frac(b-first[ix][1]), 1.0/3, 1e-9), "second sample continues the sequence [v]")
		}
		n[ix]++
		return colorf.Color{}
	}
	s := tracer.NewSampler(f, w, h, false)
	s.Sample(1)
	s.Sample(1)
	vf.Assert(n[0] == 2 && n[16] == 2, "two samples")
	vf.Assert(first[0] != first[1] && first[0] != first[16], "pixels use different random numbers")
}

func frac(x float64) float64 { return x - math.Floor(x) }

var _ = hx.R
