// C28: the preview server.
package main

import (
	"sync"
	"time"

	"vh/hx"
	_ "vh/sys"
	"vh/vf"
	"vh/web"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
)

// sensor is a camera whose rays start at the position in the image.
type sensor struct{}

func (sensor) RayFrom(ctx *tracer.Ctx, u, v float64) *tracer.Ray {
	r := ctx.Ray()
	r.Start, r.Dir = geom.Vec{u, v, 0}, geom.Vec{0, 0, -1}
	return r
}

type material func(r *tracer.Ray) colorf.Color

func (f material) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	return f(r)
}

func scene(f func(r *tracer.Ray) colorf.Color) api.Spec {
	return api.Spec{Camera: sensor{}, Objects: []api.Object{api.Backdrop(material(f))}}
}

func size(m imagef.Image, w, h int, what string) bool {
	ok := len(m) == h
	for _, l := range m {
		ok = ok && len(l) == w
	}
	vf.Assert(ok, what+": size")
	return ok
}

// Previews and finished pictures show the requested view: the size, the position and the direction.
// vf: threads=20 ncpu=1 unwind=200
func H_View() {
	v := api.View{Width: vf.Conc(vf.Int("w", 1, 3)), Height: vf.Conc(vf.Int("h", 1, 2)), CamPos: hx.VR("pos", 8), CamYaw: vf.Angle("yaw")}
	show := vf.Conc(vf.Int("show", 0, 1))
	s := scene(func(r *tracer.Ray) colorf.Color {
		if show == 1 {
			return colorf.Color{R: r.Dir[0], G: r.Dir[1], B: r.Dir[2]}
		}
		return colorf.Color{R: r.Start[0], G: r.Start[1], B: r.Start[2]}
	})
	s.NumPass = vf.Conc(vf.Int("pass", 0, 1)) * 2
	if show == 0 {
		v.CamYaw = 0
	}
	path := []string{"/preview", "/bake"}[vf.Conc(vf.Int("path", 0, 1))]
	web.Serve(s, func() {
		for k := 0; k < 2; k++ {
			r := web.Get(path, v)
			vf.Assert(r.Code == 200, "served")
			if r.Code != 200 || !size(r.Img, v.Width, v.Height, "picture") {
				return
			}
			n := v.Width
			if v.Height > n {
				n = v.Height
			}
			for y := range r.Img {
				for x, c := range r.Img[y] {
					want := geom.YawPitchRoll(v.CamYaw, 0, 0).A.MulVec(geom.Vec{0, 0, -1})
					if show == 0 {
						want = v.CamPos.Add(geom.Vec{0.5 + (float64(x)+0.5-0.5*float64(v.Width))/float64(n), 0.5 - (float64(y)+0.5-0.5*float64(v.Height))/float64(n), 0})
					}
					for i, g := range []float64{c.R, c.G, c.B} {
						vf.Assert(vf.Near(g, want[i], 1e-9), "pixel")
					}
				}
			}
			// the next view does not build on this one
			v.CamPos = v.CamPos.Add(geom.Vec{1, 2, 3})
			if show == 1 {
				v.CamYaw = -v.CamYaw
			}
		}
	})
}

// A session with one client: repeated requests for the same view refine its picture, which is the mean of all
// samples taken for it; other views start afresh; previews, cancelling, and requests that cannot be
// served have no influence.
// vf: threads=40 ncpu=1 unwind=200 steps=4000000
func H_Session() {
	x, d := vf.Float("x", 0, 1), vf.Float("d", 0, 1)
	n := 0
	s := scene(func(r *tracer.Ray) colorf.Color {
		n++
		return colorf.Color{R: x + d*float64(n), G: r.Start[0]}
	})
	steps := 3
	if vf.Thorough() {
		steps = 4
	}
	last := -1
	var sum float64 // of the numbers of the samples of the present view
	var num int
	web.Serve(s, func() {
		for i := 0; i < steps; i++ {
			n0 := n
			switch do := vf.Conc(vf.Int("do"+string(rune('0'+i)), 0, 7)); do {
			case 0, 1: // bake one of two views
				r := web.Get("/bake", at(do))
				vf.Assert(r.Code == 200, "baked")
				if r.Code != 200 || !size(r.Img, 1, 1, "baked") {
					return
				}
				vf.Assert(n > n0, "refined")
				if last != do {
					last, sum, num = do, 0, 0
				}
				for ; n0 < n; n0++ {
					sum += float64(n0 + 1)
					num++
				}
				vf.Assert(vf.Near(r.Img[0][0].R, x+d*sum/float64(num), 1e-9), "mean of all samples")
				vf.Assert(vf.Near(r.Img[0][0].G, 0.5+float64(do), 1e-9), "of this view")
			case 2:
				r := web.Get("/preview", at(0))
				vf.Assert(r.Code == 200, "previewed")
				if r.Code == 200 && size(r.Img, 1, 1, "preview") {
					vf.Assert(n > n0, "rendered")
					vf.Assert(vf.Le(x+d*float64(n0+1), r.Img[0][0].R+1e-9), "preview of now")
				}
			case 3:
				vf.Assert(web.Raw("/cancel", "").Code == 200, "nothing to cancel")
			case 4, 5:
				path := []string{"/bake", "/preview"}[do-4]
				vf.Assert(web.Raw(path, "{").Code >= 400, "unreadable request refused")
			case 6, 7:
				v := at(0)
				if do == 6 {
					v.DebugIsometric, v.DebugIsometricFOV, v.DebugIsometricDir = true, 1, 7
				} else {
					v.Width = -1
				}
				vf.Assert(web.Get("/bake", v).Code != 200, "impossible view refused")
			}
		}
	})
}

// Baking shows each view as it is, also if it differs in one setting only from the view before.
// vf: threads=40 ncpu=1 unwind=200
func H_Change() {
	s := scene(func(r *tracer.Ray) colorf.Color { return colorf.Color{R: r.Start[0], G: r.Start[1], B: r.Dir[0]} })
	v := api.View{Width: 1, Height: 1}
	web.Serve(s, func() {
		r := web.Get("/bake", v)
		vf.Assert(r.Code == 200 && size(r.Img, 1, 1, "first"), "served")
		d := vf.Float("d", 1, 2)
		switch vf.Conc(vf.Int("change", 0, 8)) {
		case 0:
			v.Width = 2
		case 1:
			v.Height = 2
		case 2:
			v.CamPos[0] += d
		case 3:
			v.CamPos[1] += d
		case 4:
			v.CamYaw = vf.Angle("yaw")
		case 5:
			v.CamPitch = vf.Angle("pitch")
		case 6:
			v.DebugNormals = 1
		case 7:
			v.DebugIsometric, v.DebugIsometricFOV, v.DebugIsometricDir = true, d, 2
		case 8:
			v.AntiAlias = true
		}
		r = web.Get("/bake", v)
		vf.Assert(r.Code == 200, "served")
		if r.Code != 200 || !size(r.Img, v.Width, v.Height, "second") {
			return
		}
		c := r.Img[0][0]
		switch {
		case v.DebugNormals == 1: // the backdrop is black then
			vf.Assert(c == colorf.Color{}, "normals")
		case v.AntiAlias: // the first sample of every pixel is shifted
			vf.Assert(vf.Or(c.R != 0.5, c.G != 0.5), "antialiased")
		case v.DebugIsometric:
			vf.Assert(vf.And(vf.Near(c.R, 0, 1e-9), vf.Near(c.G, 0, 1e-9)), "isometric")
		default:
			u0, v0 := 0.5, 0.5
			if v.Width == 2 {
				u0 = 0.25
			}
			if v.Height == 2 {
				v0 = 0.75
			}
			m := geom.YawPitchRoll(v.CamYaw, v.CamPitch, 0).A
			p, q := m.MulVec(geom.Vec{u0, v0, 0}).Add(v.CamPos), m.MulVec(geom.Vec{0, 0, -1})
			vf.Assert(vf.Near(c.R, p[0], 1e-9), "position x")
			vf.Assert(vf.Near(c.G, p[1], 1e-9), "position y")
			vf.Assert(vf.Near(c.B, q[0], 1e-9), "direction")
		}
	})
}

// Without a camera the default one is used.
// vf: threads=20 ncpu=1 unwind=200
func H_NoCamera() {
	s := scene(func(r *tracer.Ray) colorf.Color { return colorf.Color{R: r.Start[0], G: r.Start[1], B: r.Start[2]} })
	s.Camera = nil
	pos := hx.VR("pos", 8)
	path := []string{"/preview", "/bake"}[vf.Conc(vf.Int("path", 0, 1))]
	web.Serve(s, func() {
		r := web.Get(path, api.View{Width: 1, Height: 1, CamPos: pos})
		vf.Assert(r.Code == 200, "served")
		if r.Code != 200 || !size(r.Img, 1, 1, "picture") {
			return
		}
		c := r.Img[0][0]
		vf.Assert(vf.And(vf.Near(c.R, pos[0], 1e-9), vf.Near(c.G, pos[1]+1, 1e-9), vf.Near(c.B, pos[2], 1e-9)), "default camera")
	})
}

func at(i int) api.View { return api.View{Width: 1, Height: 1, CamPos: geom.Vec{float64(i), 0, 0}} }

// gate is a material that notices whether two pictures are sampled at a time, and holds up the first
// sample until it is told to go on.
type gate struct {
	mu       sync.Mutex
	inside   bool
	n        int
	overlaps int
	started  chan bool
	release  chan bool
}

func (g *gate) shade(r *tracer.Ray) colorf.Color {
	if r.Start[0] > 50 {
		return colorf.Color{G: 1} // preview
	}
	g.mu.Lock()
	if g.inside {
		g.overlaps++
	}
	g.inside = true
	g.n++
	n := g.n
	g.mu.Unlock()
	if n == 1 {
		g.started <- true
		<-g.release
	}
	g.mu.Lock()
	g.inside = false
	g.mu.Unlock()
	return colorf.Color{R: r.Start[0]}
}

// While a picture is baked, previews and cancelling work, and no second picture is baked at the same
// time, not even after cancelling; afterwards baking works again.
// vf: threads=60 ncpu=1 unwind=200 preempt=1 steps=4000000 race=1 tries=5
func H_Busy() {
	g := &gate{started: make(chan bool, 1), release: make(chan bool, 1)}
	second := vf.Conc(vf.Int("second", 0, 1))
	cancel := vf.Conc(vf.Int("cancel", 0, 2))
	web.Serve(scene(g.shade), func() {
		first, again := make(chan web.Reply, 1), make(chan web.Reply, 1)
		go func() { first <- web.Get("/bake", at(0)) }()
		<-g.started
		r := web.Get("/preview", at(100))
		vf.Assert(r.Code == 200 && len(r.Img) == 1, "preview while baking")
		for i := 0; i < cancel; i++ {
			vf.Assert(web.Raw("/cancel", "").Code == 200, "canceled")
		}
		go func() { again <- web.Get("/bake", at(second)) }()
		time.Sleep(50 * time.Millisecond)
		vf.Yield()
		g.release <- true
		r1, r2 := <-first, <-again
		vf.Assert(g.overlaps == 0, "one at a time")
		vf.Assert(cancel != 0 || r1.Code == 200 && r1.Img[0][0].R == 0.5, "first picture")
		vf.Assert(r1.Code != 0 && r2.Code != 0, "replies")
		if r2.Code == 200 {
			vf.Assert(len(r2.Img) == 1 && r2.Img[0][0].R == 0.5+float64(second), "second picture")
		}
		r = web.Get("/bake", at(1))
		vf.Assert(r.Code == 200 && len(r.Img) == 1 && r.Img[0][0].R == 1.5, "works afterwards")
		vf.Assert(g.overlaps == 0, "one at a time")
	})
}

// Requests at any time do not race.
// vf: threads=60 ncpu=1 unwind=200 preempt=1 preempt_t=2 race=1 steps=4000000 tries=20
func H_Race() {
	s := scene(func(r *tracer.Ray) colorf.Color { return colorf.Color{R: r.Start[0]} })
	second := vf.Conc(vf.Int("second", 0, 3))
	web.Serve(s, func() {
		done := make(chan bool)
		go func() {
			r := web.Get("/bake", at(0))
			vf.Assert(r.Code >= 500 || r.Code == 200 && r.Img[0][0].R == 0.5, "first picture")
			done <- true
		}()
		if second == 2 {
			web.Raw("/cancel", "")
		}
		if second == 3 {
			web.Get("/preview", at(2))
		} else {
			r := web.Get("/bake", at(second%2))
			vf.Assert(r.Code >= 500 || r.Code == 200 && r.Img[0][0].R == 0.5+float64(second%2), "second picture")
		}
		<-done
		r := web.Get("/bake", at(1))
		vf.Assert(r.Code == 200 && r.Img[0][0].R == 1.5, "works afterwards")
	})
}
