// C23: textures.
package main

import (
	"math"

	"vh/hx"
	"vh/sys"
	"vh/vf"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/texture"
)

// picture writes an image of which one pixel is arbitrary.
func picture(w, h int) (string, func(x, y int) [3]int) {
	px, py := vf.Conc(vf.Int("px", 0, w-1)), vf.Conc(vf.Int("py", 0, h-1))
	p := [3]int{vf.Int("r", 0, 0xffff), 0x1234, vf.Int("b", 0, 0xffff)}
	at := func(x, y int) [3]int {
		if x == px && y == py {
			return p
		}
		return [3]int{0x0fff * (x + 1), 0x2fff * y, 0x8000 + 0x1111*(x+y)}
	}
	f := sys.WriteImage("tex.png", w, h, func(x, y int) (r, g, b int) {
		c := at(x, y)
		return c[0], c[1], c[2]
	})
	return f, at
}

func conv(c [3]int, f func(float64) float64) colorf.Color {
	return colorf.Color{R: f(float64(c[0]) / 0xffff), G: f(float64(c[1]) / 0xffff), B: f(float64(c[2]) / 0xffff)}
}

func same(s float64) float64 { return s }

func near(a, b colorf.Color, what string) {
	const e = 1e-9
	vf.Assert(vf.And(math.Abs(a.R-b.R) < e, math.Abs(a.G-b.G) < e, math.Abs(a.B-b.B) < e), what)
}

// A loaded image is the file, first row at the top (the highest y), converted to linear colors.
func H_Load() {
	w, h := vf.Conc(vf.Int("w", 1, 3)), vf.Conc(vf.Int("h", 1, 3))
	f, at := picture(w, h)
	space := vf.Conc(vf.Int("space", 0, 2))
	var m imagef.Image
	var err error
	cs := colorf.SRGBToLinear
	switch space {
	case 0:
		m, err = imagef.Load(f, nil)
	case 1:
		m, err = imagef.Load(f, imagef.Linear)
		cs = imagef.Linear
	case 2:
		m = imagef.MustLoad(f)
	}
	vf.Assert(err == nil, "loaded")
	gw, gh := m.Size()
	vf.Assert(gw == w && gh == h, "size")
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			near(m[h-1-y][x], conv(at(x, y), cs), "pixel")
		}
	}
}

// Files that do not exist or hold no image are refused.
func H_LoadError() {
	_, err := imagef.Load(sys.Path("nothing.png"), nil)
	vf.Assert(err != nil, "no file")
	f := sys.WriteFile("bad.png", "no image")
	_, err = imagef.Load(f, imagef.Linear)
	vf.Assert(err != nil, "no image")
	vf.Assert(sys.Exits(func() { texture.MustLoad(f) }), "ends")
	vf.Assert(sys.Exits(func() { texture.HeightMap(sys.Path("nothing.png")) }), "ends")
}

func load(f string) (texture.Texture, func(float64) float64) {
	if vf.Bool("height") {
		return texture.HeightMap(f), same
	}
	return texture.MustLoad(f), colorf.SRGBToLinear
}

// Image textures: the image spans the unit square, from the lower left corner at (0,0), each point
// interpolating linearly between the four nearest pixels.
// vf: merge=1
func H_Interpolate() {
	w, h := vf.Conc(vf.Int("w", 2, 3)), vf.Conc(vf.Int("h", 2, 3))
	f, at := picture(w, h)
	t, cs := load(f)
	i, j := vf.Conc(vf.Int("i", 0, w-2)), vf.Conc(vf.Int("j", 0, h-2))
	x, y := vf.Float("x", 0.001, 0.999), vf.Float("y", 0.001, 0.999)
	if vf.Bool("atPixel") {
		x, y = 0, 0
	}
	got := t.At(geom.Vec{(float64(i) + x) / float64(w-1), (float64(j) + y) / float64(h-1), vf.Float("z", -9, 9)})
	p := func(i, j int) colorf.Color { return conv(at(i, h-1-j), cs) }
	want := hx.AddC(hx.AddC(hx.MulC((1-x)*(1-y), p(i, j)), hx.MulC(x*(1-y), p(i+1, j))),
		hx.AddC(hx.MulC((1-x)*y, p(i, j+1)), hx.MulC(x*y, p(i+1, j+1))))
	near(got, want, "interpolation")
}

func fixed(w, h int) string {
	return sys.WriteImage("tex.png", w, h, func(x, y int) (r, g, b int) { return 0x0fff * (x + 1), 0x2fff * y, 0x8000 + 0x1111*(x+y) })
}

// Image textures repeat in both directions.
func H_Repeat() {
	w, h := vf.Conc(vf.Int("w", 1, 3)), vf.Conc(vf.Int("h", 1, 2))
	t := texture.HeightMap(fixed(w, h))
	u, v := vf.Float("u", 0.001, 0.999), 0.3
	k, l := vf.Conc(vf.Int("k", -3, 2)), 0
	if vf.Bool("vertical") {
		u, v = v, u
		k, l = l, k
	}
	a := t.At(geom.Vec{u, v, 0})
	b := t.At(geom.Vec{u + float64(k), v + float64(l), 0})
	near(a, b, "periodic")
}

// Wherever it is looked at, an image texture shows a mixture of its pixels; black for positions
// that are no numbers.
func H_Anywhere() {
	w, h := vf.Conc(vf.Int("w", 1, 2)), vf.Conc(vf.Int("h", 1, 2))
	t := texture.HeightMap(fixed(w, h))
	u, v := vf.FloatAny("u"), -0.7
	if vf.Thorough() {
		v = vf.Float("v", -3, 3)
	}
	vf.Assume(vf.Or(!vf.Finite(u), math.Abs(u) < 3))
	if vf.Bool("swap") {
		u, v = v, u
	}
	c := t.At(geom.Vec{u, v, 0})
	for _, x := range []float64{c.R, c.G, c.B} {
		vf.Assert(vf.And(x > -1e-9, x < 1+1e-9), "mixture")
	}
	if !(vf.And(vf.Finite(u), vf.Finite(v))) {
		vf.Assert(c == colorf.Color{}, "black")
	}
}

// Floating point, exactly: no position makes an image texture crash.
// vf: fp=1
func H_NoCrash() {
	w, h := 2*vf.Conc(vf.Int("w", 1, 2))-1, 2
	t := texture.HeightMap(fixed(w, h))
	u, v := vf.FloatAny("u"), 0.25
	if vf.Thorough() && vf.Bool("swap") {
		u, v = v, u
	}
	t.At(geom.Vec{u, v, 0})
}

// Nearest shows the nearest pixel.
func H_Nearest() {
	w, h := vf.Conc(vf.Int("w", 1, 3)), vf.Conc(vf.Int("h", 1, 3))
	m := imagef.MakeImage(w, h)
	for y := range m {
		for x := range m[y] {
			m[y][x] = hx.Color("c" + vf.IntTok(x) + vf.IntTok(y))
		}
	}
	t := texture.Nearest(m)
	i, j := vf.Conc(vf.Int("i", 0, w-1)), vf.Conc(vf.Int("j", 0, h-1))
	x, y := vf.Float("x", -0.499, 0.499), vf.Float("y", -0.499, 0.499)
	u, v := float64(i)+x, float64(j)+y
	if w > 1 {
		u /= float64(w - 1)
	}
	if h > 1 {
		v /= float64(h - 1)
	}
	vf.Assume(vf.And(u >= 0, u <= 1, v >= 0, v <= 1))
	hx.EqC(t.At(geom.Vec{u, v, 5}), m[j][i], "pixel")
}

// mark is a texture that shows where it is looked at.
func mark(k float64) texture.Texture {
	return texture.Func2D(func(u, v float64) colorf.Color { return colorf.Color{R: u, G: v, B: k} })
}

func pitches() (u, v float64) {
	u, v = vf.Float("pitchU", 0.2, 4), 1.5
	if vf.Thorough() {
		v = vf.Float("pitchV", 0.2, 4)
	}
	return
}

// A checkerboard: squares of half a repetition, alternating in both directions, the first texture in the
// square at the origin.
func H_Checkers() {
	pu, pv := pitches()
	i, j := vf.Conc(vf.Int("i", -3, 2)), vf.Conc(vf.Int("j", -2, 1))
	x, y := vf.Float("x", 0.001, 0.999), vf.Float("y", 0.001, 0.999)
	u, v := (float64(i)+x)/(2*pu), (float64(j)+y)/(2*pv)
	got := texture.Checkers(pu, pv, mark(1), mark(2)).At(geom.Vec{u, v, 7})
	want := colorf.Color{R: u, G: v, B: 1}
	if (i+j)%2 != 0 {
		want.B = 2
	}
	hx.EqC(got, want, "square")
}

// A grid: lines of the second texture at the repetitions, width to either side.
func H_Grid() {
	pu, pv := pitches()
	width := vf.Float("width", 0.001, 0.1)
	i, j := vf.Conc(vf.Int("i", -1, 1)), vf.Conc(vf.Int("j", -1, 1))
	x, y := vf.Float("x", -0.499, 0.499), vf.Float("y", -0.499, 0.499)
	u, v := (float64(i)+x)/pu, (float64(j)+y)/pv
	du, dv := math.Abs(x)/pu, math.Abs(y)/pv // distance from the line
	vf.Assume(vf.And(math.Abs(du-width) > 1e-6, math.Abs(dv-width) > 1e-6))
	got := texture.Grid(width, pu, pv, mark(1), mark(2)).At(geom.Vec{u, v, 7})
	want := colorf.Color{R: u, G: v, B: vf.IteF(vf.Or(du < width, dv < width), 2, 1)}
	hx.EqC(got, want, "line")
}

// Panning moves the texture, scaling enlarges it; also on top of each other.
func H_Pan() {
	t := mark(1)
	u, v := vf.Float("u", -10, 10), vf.Float("v", -10, 10)
	du, dv := vf.Float("du", -5, 5), vf.Float("dv", -5, 5)
	su, sv := vf.Float("su", 0.1, 5), vf.Float("sv", 0.1, 5)
	p := geom.Vec{u, v, 3}
	hx.EqC(texture.Pan(t, du, dv).At(p), colorf.Color{R: u - du, G: v - dv, B: 1}, "pan")
	hx.EqC(texture.ScaleUV(t, su, sv).At(p), colorf.Color{R: u / su, G: v / sv, B: 1}, "scale")
	hx.EqC(texture.Pan(texture.ScaleUV(t, su, sv), du, dv).At(p), colorf.Color{R: (u - du) / su, G: (v - dv) / sv, B: 1}, "scale, then pan")
	hx.EqC(texture.ScaleUV(texture.Pan(t, du, dv), su, sv).At(p), colorf.Color{R: u/su - du, G: v/sv - dv, B: 1}, "pan, then scale")
}

// Fisheye images show the sky: the zenith in the center, the horizon on the circle around it, the directions
// of x and z to the right and up, the distance from the center as the angle.
func H_Fisheye() {
	t := texture.MapFisheye(mark(1))
	d := hx.U("d")
	k := vf.Float("len", 0.1, 10)
	c := t.At(hx.Mul(k, d))
	u, v := 2*c.R-1, 2*c.G-1
	vf.Assert(vf.Eq(u*d[2], v*d[0]), "direction")
	vf.Assert(vf.And(u*d[0] >= 0, v*d[2] >= 0), "side")
	vf.Assert(u*u+v*v < 1+1e-9, "within the circle")
	e := [][3]float64{{0, 1, 0}, {7, 24, 0.18067}, {3, 4, 0.40967}, {4, 3, 0.59033}, {24, 7, 0.81933}, {1, 0, 1}}[vf.Conc(vf.Int("elevation", 0, 5))]
	a := vf.Angle("azimuth")
	c = t.At(geom.Vec{k * e[0] * math.Cos(a), k * e[1], k * e[0] * math.Sin(a)})
	vf.Assert(vf.And(vf.Near(2*c.R-1, e[2]*math.Cos(a), 1e-4), vf.Near(2*c.G-1, e[2]*math.Sin(a), 1e-4)), "angle")
	zen := t.At(geom.Vec{0, k, 0})
	vf.Assert(vf.And(zen.R == 0.5, zen.G == 0.5), "zenith")
}

// Floating point, exactly: directions along the horizon have a place in the image, although rounding
// makes some longer than one. (64 directions: square root and division of an arbitrary one are out of reach.)
//vf: fp=1
func H_FisheyeNumbers() {
	d := geom.Vec{float64(vf.Conc(vf.Int("x", 0, 63))) / 64, 0, 0.7}
	ok := true
	texture.MapFisheye(texture.Func2D(func(u, v float64) colorf.Color {
		ok = vf.And(u == u, v == v)
		return colorf.Color{}
	})).At(d)
	vf.Assert(ok, "a number")
}
