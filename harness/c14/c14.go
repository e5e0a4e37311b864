// C14: the low-discrepancy sequences are the Halton sequence, randomly shifted per pixel.
package main

import (
	"math"

	"vh/vf"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/sequence"
	"github.com/barnex/bruteray/util"
)

var bases = []int{2, 3, 5, 7, 11, 13, 4, 10}
var bound = []int{8, 5, 4, 3, 3, 3, 4, 3} // digits
var boundT = []int{16, 10, 7, 6, 5, 5, 8, 5}

func base() (b, digits int) {
	k := vf.Conc(vf.Int("base", 0, len(bases)-1))
	if vf.Thorough() {
		return bases[k], boundT[k]
	}
	return bases[k], bound[k]
}

func pow(b, n int) int {
	p := 1
	for i := 0; i < n; i++ {
		p *= b
	}
	return p
}

// Element i is the number whose digits in base b are those of i+1 mirrored at the point.
// The number is built from its digits.
// vf: unwind=64 unwind_t=64
func H_Digits() {
	b, n := base()
	i, want := 0, 0.0
	for k := 0; k < n; k++ {
		d := vf.Int("d"+vf.IntTok(k), 0, b-1)
		i += d * pow(b, k)
		want += float64(d) / float64(pow(b, k+1))
	}
	vf.Assume(i >= 1)
	h := sequence.Halton(b, i-1)
	vf.Assert(vf.Near(h, want, 1e-12), "digits mirrored")
	vf.Assert(h > 0 && h < 1, "strictly between 0 and 1")
	vf.Observe("h", h)
}

// The same far into the sequence, where only the lowest and the highest digits are not zero.
// vf: unwind=64 unwind_t=64
func H_Far() {
	k := vf.Conc(vf.Int("base", 0, 5))
	b := bases[k]
	top := []int{16, 12, 10, 8, 6, 6}[k]
	if vf.Thorough() {
		top = []int{28, 17, 12, 9, 7, 7}[k]
	}
	i, want := 0, 0.0
	ps := []int{0, top}
	if b < 5 || vf.Thorough() {
		ps = []int{0, 1, top, top + 1}
	}
	for _, p := range ps {
		d := vf.Int("d"+vf.IntTok(p), 0, b-1)
		i += d * pow(b, p)
		want += float64(d) / float64(pow(b, p+1))
	}
	vf.Assume(i >= 1)
	h := sequence.Halton(b, i-1)
	vf.Assert(vf.Near(h, want, 1e-12), "digits mirrored")
	vf.Assert(h > 0 && h < 1, "strictly between 0 and 1")
}

// Frac is the fractional part, in [0,1).
func H_Frac() {
	x := vf.Float("x", -1000, 1000)
	f := util.Frac(x)
	vf.Assert(f >= 0 && f < 1, "in [0,1)")
	d := x - f
	vf.Assert(math.Floor(d) == d, "differs from x by an integer")
}

// A sequence yields, for pass k of a pixel, Halton element k in both bases, shifted by the pixel's own
// shift modulo 1; initialising again starts over.
// vf: unwind=64
func H_Shifted() {
	sh := []geom.Vec2{{vf.Float("s0.x", 0, 0.999), vf.Float("s0.y", 0, 0.999)}, {vf.Float("s1.x", 0, 0.999), vf.Float("s1.y", 0, 0.999)}}
	s := sequence.NewHalton(2, 3, 1, sh)
	for k := 0; k < 2; k++ {
		n := vf.IntTok(k)
		pix := vf.Conc(vf.Int("pixel"+n, 0, 1))
		pass := vf.Conc(vf.Int("pass"+n, 0, 9))
		s.Init(pix, pass)
		u, v := s.Generate2()
		vf.Assert(vf.And(u >= 0, u < 1, v >= 0, v < 1), "in the unit square")
		du := u - sh[pix][0] - sequence.Halton(2, pass)
		dv := v - sh[pix][1] - sequence.Halton(3, pass)
		vf.Assert(vf.Near(du, math.Floor(du+0.5), 1e-9), "first coordinate: base 2, shifted")
		vf.Assert(vf.Near(dv, math.Floor(dv+0.5), 1e-9), "second coordinate: base 3, shifted")
	}
}

// The random numbers of a context depend only on pixel, pass and recursion depth, not on the
// context or what was drawn before; at every depth they are in [0,1).
// vf: unwind=64
func H_Ctx() {
	a, b := tracer.NewCtx(3), tracer.NewCtx(3)
	// some history in b
	b.Init(vf.Conc(vf.Int("oldpixel", 0, 2)), vf.Conc(vf.Int("oldpass", 0, 2)))
	b.CurrentRecursionDepth = 1
	b.Generate2()
	b.AA.Generate2()
	pix, pass := vf.Conc(vf.Int("pixel", 0, 2)), vf.Conc(vf.Int("pass", 0, 9))
	a.Init(pix, pass)
	b.Init(pix, pass)
	for d := 1; d <= 4; d++ {
		a.CurrentRecursionDepth, b.CurrentRecursionDepth = d, d
		au, av := a.Generate2()
		bu, bv := b.Generate2()
		vf.Assert(vf.And(au >= 0, au < 1, av >= 0, av < 1), "in the unit square")
		if d <= 2 {
			vf.Assert(au == bu && av == bv, "same pixel, pass and depth: same numbers")
		}
	}
	au, av := a.AA.Generate2()
	bu, bv := b.AA.Generate2()
	vf.Assert(vf.And(au >= 0, au < 1, av >= 0, av < 1), "antialiasing: in the unit square")
	vf.Assert(au == bu && av == bv, "antialiasing: same pixel and pass: same numbers")
	lu, lv := a.GenerateLens()
	vf.Assert(vf.And(lu >= 0, lu < 1, lv >= 0, lv < 1), "lens: in the unit square")
	a.CurrentRecursionDepth = 0
	vf.Assert(vf.Panics(func() { a.Generate2() }), "not to be used outside of a recursion")
}

// The passes of a pixel are stratified: over any b^k consecutive passes, every interval of length b^-k
// receives exactly one of them, whatever the shift.
// vf: unwind=64
func H_Stratified() {
	first := vf.Conc(vf.Int("first", 0, 40))
	k := vf.Conc(vf.Int("which", 0, 1))
	b, n := 2, 8
	if k == 1 {
		b, n = 3, 9
	}
	seen := make([]bool, n)
	for i := 0; i < n; i++ {
		h := sequence.Halton(b, first+i)
		j := int(math.Floor(h*float64(n) + 1e-9))
		vf.Assert(j >= 0 && j < n && !seen[j], "one element per interval")
		if j >= 0 && j < n {
			seen[j] = true
		}
	}
}

// Every pixel of an image has a sequence of its own, whatever the shape of the image, and keeps it from pass to pass.
// vf: unwind=64 ncpu=1
func H_Pixels() {
	sz := [][2]int{{1, 1}, {3, 2}, {2, 3}, {1, 4}, {5, 1}}[vf.Conc(vf.Int("size", 0, 4))]
	w, h := sz[0], sz[1]
	anti := vf.Conc(vf.Int("aa", 0, 1)) == 1
	var got [][4]float64
	s := tracer.NewSampler(func(ctx *tracer.Ctx, u, v float64) colorf.Color {
		ctx.CurrentRecursionDepth = 1
		a, b := ctx.Generate2()
		ctx.CurrentRecursionDepth = 2
		c, d := ctx.Generate2()
		ctx.CurrentRecursionDepth = 0
		got = append(got, [4]float64{a, b, c, d})
		return colorf.Color{}
	}, w, h, anti)
	s.Sample(2)
	vf.Assert(len(got) == 2*w*h, "two samples per pixel")
	for i := range got {
		for j := range got[:i] {
			vf.Assert(got[i] != got[j], "no two samples use the same numbers")
		}
	}
}
