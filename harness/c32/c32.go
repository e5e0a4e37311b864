// C32: rendering saves the picture.
package main

import (
	"image"
	"math"
	"strconv"
	"strings"

	"vh/sys"
	"vh/vf"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/imagef/post"
	"github.com/barnex/bruteray/tracer"
)

// sensor is a camera whose rays start at the position in the image.
type sensor struct{}

func (sensor) RayFrom(ctx *tracer.Ctx, u, v float64) *tracer.Ray {
	r := ctx.Ray()
	r.Start, r.Dir = geom.Vec{u, v, 0}, geom.Vec{0, 0, -1}
	return r
}

// picture is a material that shows an image.
type picture struct {
	m imagef.Image
	n int
}

func (p *picture) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	hh, ww := len(p.m), len(p.m[0])
	k := ww
	if hh > k {
		k = hh
	}
	u, v := r.Start[0], r.Start[1]
	x := int(u*float64(k) - float64(k-ww)/2)
	y := int((1-v)*float64(k) - float64(k-hh)/2)
	p.n++
	return p.m[y][x]
}

func spec(w, h int) (api.Spec, imagef.Image, *picture) {
	m := imagef.MakeImage(w, h)
	for y := range m {
		for x := range m[y] {
			k := float64(x) + float64(w*y)
			m[y][x] = colorf.Color{R: 0.05 + 0.1*k, G: 0.9 - 0.1*k, B: 0.01 * k}
		}
	}
	p := &picture{m: m}
	return api.Spec{Width: w, Height: h, Camera: sensor{}, Objects: []api.Object{api.Backdrop(p)}}, m, p
}

func near(v uint32, x float64, tol float64, what string) {
	e := math.Floor(0xffff * colorf.LinearToSRGB(x))
	vf.Assert(vf.And(float64(v) > e-tol, float64(v) < e+tol), what)
}

// shows checks an image file; the 8 bits of the file are 16 bits in the engine.
func shows(i image.Image, m imagef.Image, tol float64, what string) {
	vf.Assert(i != nil, what+": readable")
	if i == nil {
		return
	}
	w, h := m.Size()
	b := i.Bounds()
	vf.Assert(b.Dx() == w && b.Dy() == h, what+": size")
	for y := range m {
		for x := range m[y] {
			r, g, b, _ := i.At(x, y).RGBA()
			near(r, m[y][x].R, tol, what+": red")
			near(g, m[y][x].G, tol, what+": green")
			near(b, m[y][x].B, tol, what+": blue")
		}
	}
}

func pixmap(path string, m imagef.Image) {
	s, ok := sys.ReadFile(path)
	vf.Assert(ok, "pixmap exists")
	f := strings.Fields(s)
	w, h := m.Size()
	vf.Assert(len(f) == 4+3*w*h, "pixmap: complete")
	if len(f) != 4+3*w*h {
		return
	}
	vf.Assert(f[1] == strconv.Itoa(w) && f[2] == strconv.Itoa(h), "pixmap: size")
	i := 4
	for y := range m {
		for x := range m[y] {
			for _, c := range []float64{m[y][x].R, m[y][x].G, m[y][x].B} {
				v, err := strconv.Atoi(f[i])
				vf.Assert(err == nil, "pixmap: number")
				near(uint32(v), c, 2, "pixmap: value")
				i++
			}
		}
	}
}

// The picture is in the file asked for and in a pixmap beside it, with every pixel where it belongs.
//vf: threads=20 ncpu=1 unwind=200 steps=3000000
func H_Render() {
	w, h := vf.Conc(vf.Int("w", 1, 2)), vf.Conc(vf.Int("h", 1, 2))
	s, m, p := spec(w, h)
	m[vf.Conc(vf.Int("y", 0, h-1))][vf.Conc(vf.Int("x", 0, w-1))].G = vf.Float("v", -1, 2)
	s.NumPass = vf.Conc(vf.Int("pass", 0, 2))
	path := sys.Path("a.b.png")
	sys.Args("-o", path)
	ended := sys.Exits(func() { api.Render(s) })
	vf.Assert(!ended, "no failure")
	if ended {
		return
	}
	shows(sys.ReadImage(path), m, 0x181, "image")
	pixmap(sys.Path("a.b.ppm"), m)
	vf.Assert(vf.And(p.n >= w*h, p.n >= w*h*s.NumPass), "passes")
}

// At least the passes asked for.
//vf: threads=40 ncpu=1 unwind=200 steps=3000000
func H_Passes() {
	s, _, p := spec(1, 1)
	n := 12
	if vf.Thorough() {
		n = 30
	}
	s.NumPass = vf.Conc(vf.Int("pass", 1, n))
	sys.Args("-o", sys.Path("out.png"))
	vf.Assert(!sys.Exits(func() { api.Render(s) }), "no failure")
	vf.Assert(p.n >= s.NumPass, "passes")
}

// The extension selects the format.
//vf: threads=20 ncpu=1 unwind=200
func H_Extension() {
	s, m, _ := spec(2, 1)
	for x := range m[0] {
		m[0][x] = colorf.Gray(0.5)
	}
	ext := []string{".png", ".jpg", ".jpeg", ".tiff", ""}[vf.Conc(vf.Int("ext", 0, 4))]
	path := sys.Path("out" + ext)
	sys.Args("-o", path)
	ended := sys.Exits(func() { api.Render(s) })
	vf.Assert(ended == (ext == "" || ext == ".tiff"), "unknown formats are refused")
	if !ended {
		shows(sys.ReadImage(path), m, 0x600, "image")
		pixmap(sys.Path("out.ppm"), m)
	}
}

// A picture that cannot be saved ends the program.
//vf: threads=20 ncpu=1 unwind=200
func H_Full() {
	s, m, _ := spec(vf.Conc(vf.Int("w", 1, 2)), 1)
	path, ppm := sys.Path("out.png"), sys.Path("out.ppm")
	ok := false
	switch vf.Conc(vf.Int("full", 0, 3)) {
	case 0:
		sys.FullFile("out.png")
	case 1:
		sys.FullFile("out.ppm")
	case 2:
		path = "/nosuchdir/out.png"
	case 3:
		ok = true
	}
	sys.Args("-o", path)
	ended := sys.Exits(func() { api.Render(s) })
	vf.Assert(ended == !ok, "noticed")
	if ok {
		pixmap(ppm, m)
	}
}

// What is saved is the picture after post processing.
//vf: threads=20 ncpu=1 unwind=200 steps=3000000
func H_PostProcess() {
	s, m, _ := spec(2, 2)
	for y := range m {
		for x := range m[y] {
			m[y][x] = colorf.Gray(0.05)
		}
	}
	m[vf.Conc(vf.Int("y", 0, 1))][vf.Conc(vf.Int("x", 0, 1))].R = vf.Float("v", 0, 3)
	s.PostProcess = post.Params{Star: post.BloomParams{Radius: 0.5, Amplitude: 0.3, Threshold: 0.6}}
	path := sys.Path("out.png")
	sys.Args("-o", path)
	ended := sys.Exits(func() { api.Render(s) })
	vf.Assert(!ended, "no failure")
	if ended {
		return
	}
	want := s.PostProcess.ApplyTo(m, 0.5)
	shows(sys.ReadImage(path), want, 0x181, "image")
	pixmap(sys.Path("out.ppm"), want)
}

// Animations have a numbered file for each frame.
//vf: threads=40 ncpu=1 unwind=200
func H_Animate() {
	n := vf.Conc(vf.Int("frames", 0, 3))
	pass := vf.Conc(vf.Int("pass", 1, 2))
	sys.Args("-o", sys.Path("film.jpg"))
	var asked []int
	var pics []*picture
	gray := func(i int) float64 { return []float64{0.2, 0.5, 0.8}[i] }
	ended := sys.Exits(func() {
		api.Animate(n, func(i int) api.Spec {
			asked = append(asked, i)
			s, m, p := spec(2, 2)
			for y := range m {
				for x := range m[y] {
					m[y][x] = colorf.Gray(gray(i))
				}
			}
			pics = append(pics, p)
			s.NumPass = pass
			return s
		})
	})
	vf.Assert(!ended, "no failure")
	if ended {
		return
	}
	vf.Assert(len(asked) == n, "every frame once")
	for i := 0; i < n; i++ {
		vf.Assert(asked[i] == i, "in order")
		vf.Assert(pics[i].n == 4*pass, "passes")
		m := imagef.MakeImage(2, 2)
		for y := range m {
			for x := range m[y] {
				m[y][x] = colorf.Gray(gray(i))
			}
		}
		shows(sys.ReadImage(sys.Path("film-frames/0000"+strconv.Itoa(i)+".jpg")), m, 0x600, "frame")
	}
	vf.Assert(sys.ReadImage(sys.Path("film-frames/0000"+strconv.Itoa(n)+".jpg")) == nil, "no more")
}
