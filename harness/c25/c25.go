// C25: bloom: light above the threshold is spread by the kernel, normalised to the amplitude.
package main

import (
	"math"

	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/imagef/post"
)

func image(n string, w, h int) imagef.Image {
	m := imagef.MakeImage(w, h)
	for y := range m {
		for x := range m[y] {
			m[y][x] = hx.Color(n + vf.IntTok(x) + "," + vf.IntTok(y))
		}
	}
	return m
}

func fixed(w, h int) imagef.Image {
	m := imagef.MakeImage(w, h)
	for y := range m {
		for x := range m[y] {
			m[y][x] = colorf.Color{R: float64(1 + x + 2*y), G: float64(2 + y), B: float64(3 - x + y)}
		}
	}
	return m
}

func same(a, b imagef.Image) bool {
	w, h := a.Size()
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if a[y][x] != b[y][x] {
				return false
			}
		}
	}
	return true
}

// One bright pixel anywhere: every pixel of the result gets what the kernel, centered on the bright pixel,
// says; parts outside of the image are lost; sources are left alone.
func one(kw, kh int) {
	w, h := 3, 3
	x, y := vf.Conc(vf.Int("x", 0, w-1)), vf.Conc(vf.Int("y", 0, h-1))
	src := imagef.MakeImage(w, h)
	c := hx.Color("c")
	src[y][x] = c
	amp, off := vf.Float("amplitude", 0.1, 5), vf.Float("threshold", 0.01, 2)
	k := fixed(kw, kh)
	dst := image("d", w, h)
	if !vf.Thorough() {
		dst = fixed(w, h)
	}
	src0, k0, dst0 := src.Copy(), k.Copy(), dst.Copy()
	got := post.AddConvolution(dst, src, k, amp, off)
	vf.Assert(&got[0][0] == &dst[0][0], "in place")
	vf.Assert(same(src, src0) && same(k, k0), "source and kernel unchanged")
	sum := 0.0
	for j := range k {
		for i := range k[j] {
			sum += (k[j][i].R + k[j][i].G + k[j][i].B) / 3
		}
	}
	above := func(v float64) float64 { return vf.IteF(v > off, v-off, 0) }
	s := amp / sum
	for j := 0; j < h; j++ {
		for i := 0; i < w; i++ {
			ki, kj := i-x+kw/2, j-y+kh/2
			want := dst0[j][i]
			if ki >= 0 && ki < kw && kj >= 0 && kj < kh {
				e := k[kj][ki]
				want = hx.AddC(want, hx.MulC(s, colorf.Color{R: above(c.R) * e.R, G: above(c.G) * e.G, B: above(c.B) * e.B}))
			}
			d := hx.AddC(got[j][i], hx.MulC(-1, want))
			vf.Assert(vf.And(math.Abs(d.R) < 1e-6, math.Abs(d.G) < 1e-6, math.Abs(d.B) < 1e-6), "kernel around the bright pixel")
		}
	}
}

func H_One3x3() { one(3, 3) }
func H_One3x1() { one(3, 1) }
func H_One1x3() { one(1, 3) }
func H_One5x5() { one(5, 5) }

// Bright pixels add up.
func H_Two() {
	w, h := 3, 2
	a, b := hx.Color("a"), hx.Color("b")
	if !vf.Thorough() {
		a.G, b.R, b.B = 0.7, 0.3, a.R
	}
	amp, off := vf.Float("amplitude", 0.1, 5), vf.Float("threshold", 0.01, 2)
	k := fixed(3, 3)
	run := func(p, q colorf.Color) imagef.Image {
		src := imagef.MakeImage(w, h)
		src[0][1], src[1][0] = p, q
		return post.AddConvolution(imagef.MakeImage(w, h), src, k, amp, off)
	}
	both, one, two := run(a, b), run(a, colorf.Color{}), run(colorf.Color{}, b)
	for y := range both {
		for x := range both[y] {
			hx.EqC(both[y][x], hx.AddC(one[y][x], two[y][x]), "sum")
		}
	}
}

// A black kernel adds nothing.
func H_BlackKernel() {
	dst := image("d", 2, 2)
	d0 := dst.Copy()
	post.AddConvolution(dst, image("s", 2, 2), imagef.MakeImage(3, 3), 1, 0.5)
	vf.Assert(same(dst, d0), "unchanged")
}

// The Gaussian kernel: 1 at its center, falling off as exp(-r^2/width^2) in all directions.
//vf: unwind=64
func H_Gaussian() {
	n := vf.Conc(vf.Int("n", 0, 2))
	wid := vf.Float("width", 0.1, 5)
	k := post.Gaussian(n, wid)
	w, h := k.Size()
	vf.Assert(w == 2*n+1 && h == 2*n+1, "size")
	for y := range k {
		for x := range k[y] {
			u, v := float64(x-n), float64(y-n)
			e := math.Exp(-(u*u + v*v) / (wid * wid))
			hx.EqC(k[y][x], colorf.Gray(e), "value")
		}
	}
	vf.Assert(k[n][n] == colorf.Gray(1), "center")
}

// The Airy kernel is 1 at its center and symmetric; never negative.
//vf: unwind=64
func H_Airy() {
	n := vf.Conc(vf.Int("n", 0, 2))
	wid := vf.Float("width", 0.1, 5)
	k := post.Airy(n, wid)
	vf.Assert(k[n][n] == colorf.Gray(1), "center")
	for y := range k {
		for x := range k[y] {
			c := k[y][x]
			vf.Assert(vf.And(c.R >= 0, c.G >= 0, c.B >= 0), "not negative")
			hx.EqC(c, k[2*n-y][x], "symmetric")
			hx.EqC(c, k[x][y], "symmetric")
		}
	}
}

// The Airy kernel is the diffraction pattern of a round opening, (2 J1(x)/x)^2, wider for red than for blue.
func H_AiryShape() {
	wid := []float64{0.1, 0.7, 2, 4.5}[vf.Conc(vf.Int("width", 0, 3))]
	const n = 4
	k := post.Airy(n, wid)
	at := [][3]int{{0, 0, 0}, {1, 0, 1}, {0, 1, 1}, {-2, 0, 2}, {0, 3, 3}, {0, -4, 4}, {3, 4, 5}, {-4, 3, 5}}[vf.Conc(vf.Int("at", 0, 7))]
	x, y := n+at[0], n+at[1]
	r := float64(at[2]) / wid
	f := func(nm float64) float64 {
		if r == 0 {
			return 1
		}
		v := 2 * math.J1(r*500/nm) / (r * 500 / nm)
		return v * v
	}
	c := k[y][x]
	vf.Assert(vf.And(vf.Near(c.R, f(700), 1e-9), vf.Near(c.G, f(500), 1e-9), vf.Near(c.B, f(450), 1e-9)), "pattern")
}

// Post processing leaves the rendered image alone; without radius nothing happens; the amount of light
// added to a wide image is the amplitude times the light above the threshold.
//vf: unwind=64
func H_Apply() {
	src := image("s", 2, 1)
	if !vf.Thorough() {
		src[0][0].G, src[0][1].R, src[0][1].B = 0.4, 1.2, src[0][0].R
	}
	s0 := src.Copy()
	var p post.Params
	amp, off := vf.Float("amplitude", 0.1, 5), vf.Float("threshold", 0.01, 2)
	b := post.BloomParams{Radius: 0.6, Amplitude: amp, Threshold: off}
	which := vf.Conc(vf.Int("which", 0, 3))
	switch which {
	case 1:
		p.Gaussian = b
	case 2:
		p.Airy = b
	case 3:
		p.Star = b
	}
	pix := 1.0
	got := p.ApplyTo(src, pix)
	vf.Assert(same(src, s0), "source unchanged")
	if which == 0 {
		vf.Assert(same(got, s0), "no bloom")
		return
	}
	for x := range got[0] {
		c, o := got[0][x], s0[0][x]
		vf.Assert(vf.And(c.R >= o.R, c.G >= o.G, c.B >= o.B), "only adds light")
		if which != 3 { // a star of one pixel is empty
			vf.Assert(vf.Imp(o.R > off, c.R > o.R), "adds light")
		}
	}
}

// All of the light above the threshold is spread, none of it lost within the image.
//vf: unwind=64
func H_Energy() {
	src := imagef.MakeImage(9, 9)
	l := vf.Float("l", 0, 10)
	src[4][4] = colorf.Gray(l)
	amp, off := vf.Float("amplitude", 0.1, 5), vf.Float("threshold", 0.01, 2)
	got := post.ApplyGaussianBloom(src, 1, 0.5, amp, off)
	sum := 0.0
	for y := range got {
		for x := range got[y] {
			sum += got[y][x].G
		}
	}
	want := l + vf.IteF(l > off, amp*(l-off), 0)
	vf.Assert(math.Abs(sum-want) < 1e-6, "energy")
}

// The star: eight rays of the same strength upright and on the diagonals, in the color of the light, none of
// the light above the threshold lost within the image; the rendered image is left alone.
//vf: unwind=64
func H_Star() {
	n := vf.Conc(vf.Int("radius", 4, 5))
	size := 2*n + 1
	if vf.Bool("narrow") {
		size = n | 1 // the star is larger than the image
	}
	src := imagef.MakeImage(size, size)
	c := hx.Color("c")
	m := size / 2
	src[m][m] = c
	s0 := src.Copy()
	amp, off := vf.Float("amplitude", 0.1, 5), vf.Float("threshold", 0.01, 2)
	pix := 0.25
	p := post.Params{Star: post.BloomParams{Radius: (float64(n) + 0.5) * pix, Amplitude: amp, Threshold: off}}
	got := p.ApplyTo(src, pix)
	vf.Assert(same(src, s0), "source unchanged")
	above := func(v float64) float64 { return vf.IteF(v > off, v-off, 0) }
	light := colorf.Color{R: above(c.R), G: above(c.G), B: above(c.B)}
	sum := colorf.Color{}
	for y := range got {
		for x := range got[y] {
			d := hx.AddC(got[y][x], hx.MulC(-1, s0[y][x]))
			sum = hx.AddC(sum, d)
			i, j := x-m, y-m
			on := i == 0 || j == 0 || i == j || i == -j
			if !on || (i == 0 && j == 0) {
				vf.Assert(vf.And(math.Abs(d.R) < 1e-9, math.Abs(d.G) < 1e-9, math.Abs(d.B) < 1e-9), "nothing between the rays")
			}
			vf.Assert(vf.And(d.R >= 0, d.G >= 0, d.B >= 0), "only adds light")
			e := hx.AddC(got[x][y], hx.MulC(-1, s0[x][y]))
			f := hx.AddC(got[size-1-y][x], hx.MulC(-1, s0[size-1-y][x]))
			vf.Assert(vf.And(math.Abs(d.R-e.R) < 1e-9, math.Abs(d.G-f.G) < 1e-9), "symmetric")
			vf.Assert(math.Abs(d.R*light.G-d.G*light.R) < 1e-9, "in the color of the light")
		}
	}
	if size > n {
		w := hx.MulC(amp, light)
		vf.Assert(vf.And(math.Abs(sum.R-w.R) < 1e-6, math.Abs(sum.G-w.G) < 1e-6, math.Abs(sum.B-w.B) < 1e-6), "energy")
		vf.Assert(vf.Imp(c.R > off, got[m][m+2].R > 0), "there is a star")
	}
}
