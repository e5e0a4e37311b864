// C29: specifications and views.
package main

import (
	"vh/hx"
	_ "vh/sys"
	"vh/vf"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
)

type cam struct{ s, d geom.Vec }

func (c *cam) RayFrom(ctx *tracer.Ctx, u, v float64) *tracer.Ray {
	return &tracer.Ray{Start: c.s, Dir: c.d}
}

// Only what is left open is filled in: one pass, recursion depth 1, a camera looking ahead from a meter above the
// ground; the size with the aspect ratio of the default.
func H_Defaults() {
	var s api.Spec
	w, h, rec, pass := vf.Int("w", 0, 20000), vf.Int("h", 0, 20000), vf.Int("recursion", 0, 20), vf.Int("pass", 0, 1000)
	vf.Assume(vf.And(w != 1, h != 1))
	s.Width, s.Height, s.Recursion, s.NumPass = w, h, rec, pass
	c := &cam{}
	if vf.Bool("camera") {
		s.Camera = c
	}
	ob := api.Object{Interface: &hx.Stub{}}
	s.Objects = []api.Object{ob}
	s.Media = []api.Medium{nil}
	given := s.Camera != nil
	s.InitDefaults()
	vf.Assert(s.Width > 0, "width")
	vf.Assert(s.Height > 0, "height")
	vf.Assert(vf.Imp(w != 0, s.Width == w), "width as given")
	vf.Assert(vf.Imp(h != 0, s.Height == h), "height as given")
	vf.Assert(vf.Imp(vf.And(w == 0, h == 0), vf.And(s.Width == 960, s.Height == 540)), "default size")
	vf.Assert(vf.Imp(h == 0, vf.And(16*s.Height <= 9*s.Width, 9*s.Width < 16*s.Height+16)), "aspect ratio")
	vf.Assert(vf.Imp(w == 0, vf.And(9*s.Width <= 16*s.Height, 16*s.Height < 9*s.Width+9)), "aspect ratio")
	vf.Assert(s.Recursion == int(vf.IteF(rec == 0, 1, float64(rec))), "recursion")
	vf.Assert(s.NumPass == int(vf.IteF(pass == 0, 1, float64(pass))), "passes")
	vf.Assert(len(s.Objects) == 1 && s.Objects[0] == ob && len(s.Media) == 1, "objects and media untouched")
	if given {
		vf.Assert(s.Camera == tracer.Camera(c), "camera as given")
	} else {
		u, v := vf.Float("u", 0, 1), vf.Float("v", 0, 1)
		r := s.Camera.RayFrom(tracer.NewCtx(1), u, v)
		hx.EqV(r.Start, geom.Vec{0, 1, 0}, "eye height")
		k := r.Dir[2]
		vf.Assert(k < 0, "looking ahead")
		hx.EqV(r.Dir, geom.Vec{-k * (2*u - 1), -k * (2*v - 1), k}, "90 degrees")
	}
}

// With DebugNormals, objects show their normals (the backdrop is black), without media, also where several objects
// share a surface; the specification's own list of objects is left alone.
func H_DebugNormals() {
	mode := vf.Conc(vf.Int("mode", 0, 2))
	m := &hx.Mat{ID: 1}
	n, d := hx.U("n"), hx.U("d")
	st := &hx.Stub{H: tracer.HitRecord{T: vf.Float("t", 1, 5), Normal: n, Material: m}}
	objs := []api.Object{{Interface: st}, api.Backdrop(m)}
	keep := objs[0]
	s := api.Spec{Objects: objs, DebugNormals: mode, Media: []api.Medium{nil}, Camera: &cam{}, Width: 2, Height: 2, Recursion: 3}
	miss := vf.Bool("miss")
	if miss {
		st.H = tracer.HitRecord{}
	}
	s.InitDefaults()
	vf.Assert(objs[0] == keep && len(objs) == 2, "list left alone")
	if mode == 0 {
		vf.Assert(len(s.Media) == 1 && len(s.Objects) == 2 && s.Objects[0] == keep, "off")
		vf.Assert(s.Recursion == 3, "off")
		return
	}
	vf.Assert(len(s.Media) == 0, "no media")
	vf.Assert(len(s.Objects) == 2, "all objects")
	sc := s.Scene()
	ctx := tracer.NewCtx(1)
	r := &tracer.Ray{Start: hx.V("s"), Dir: d}
	cos := hx.Dot(n, d)
	got := sc.LightField(ctx, r)
	switch {
	case miss && mode == 1:
		hx.EqC(got, colorf.Color{}, "black backdrop")
	case mode == 1:
		vf.Assert(vf.Imp(cos < 0, vf.And(vf.Eq(got.R, -cos), vf.Eq(got.G, -cos), vf.Eq(got.B, -cos))), "front")
		vf.Assert(vf.Imp(cos > 0, vf.And(vf.Eq(got.R, cos), vf.Eq(got.G, 0), vf.Eq(got.B, 0))), "back")
	}
}

// A view determines size, viewpoint, direction and debugging; everything else is the specification's, which is left
// alone, so that views do not add up.
func H_View() {
	c := &cam{s: hx.V("cs"), d: hx.V("cd")}
	s := api.Spec{Camera: c, Recursion: 4, NumPass: 7, Width: 5, Height: 6, DebugNormals: vf.Conc(vf.Int("normals", 0, 2)), Objects: []api.Object{{Interface: &hx.Stub{}}}, Media: []api.Medium{nil}}
	v := api.View{Width: vf.Int("w", 2, 5000), Height: vf.Int("h", 2, 5000), CamPos: hx.V("pos"), CamYaw: vf.Angle("yaw"), CamPitch: vf.Angle("pitch")}
	got := v.ApplyTo(s)
	if vf.Bool("again") {
		got = v.ApplyTo(s)
	}
	vf.Assert(got.Width == v.Width, "width")
	vf.Assert(got.Height == v.Height, "height")
	vf.Assert(got.Recursion == 4 && got.NumPass == 7 && len(got.Objects) == 1 && got.Objects[0] == s.Objects[0] && len(got.Media) == 1, "the rest")
	vf.Assert(s.Width == 5 && s.Height == 6 && s.Camera == tracer.Camera(c), "specification unchanged")
	r := got.Camera.RayFrom(tracer.NewCtx(1), 0.5, 0.5)
	m := geom.YawPitchRoll(v.CamYaw, v.CamPitch, 0)
	hx.EqV(r.Start, hx.Add(hx.ApplyDir(m, c.s), v.CamPos), "viewpoint")
	hx.EqV(r.Dir, hx.ApplyDir(m, c.d), "direction")
}

// A view of a specification without camera starts from the default one.
func H_NoCamera() {
	v := api.View{Width: 4, Height: 4, CamPos: hx.V("pos"), CamYaw: vf.Angle("yaw"), CamPitch: vf.Angle("pitch")}
	s := api.Spec{}
	got := v.ApplyTo(s)
	vf.Assert(s.Camera == nil && got.Camera != nil, "camera")
	r := got.Camera.RayFrom(tracer.NewCtx(1), 0.5, 0.5)
	hx.EqV(r.Start, hx.Add(v.CamPos, geom.Vec{0, 1, 0}), "viewpoint")
	hx.EqV(r.Dir, hx.ApplyDir(geom.YawPitchRoll(v.CamYaw, v.CamPitch, 0), geom.Vec{0, 0, -1}), "direction")
}

// An isometric view looks along the axis of the view, with its size.
func H_Isometric() {
	s := api.Spec{Camera: &cam{}, DebugIsometricFOV: 3, DebugIsometricDir: 1}
	v := api.View{Width: 4, Height: 4, DebugNormals: vf.Conc(vf.Int("normals", 0, 2)), DebugIsometric: vf.Bool("isometric"), DebugIsometricFOV: vf.Float("fov", 0.5, 20), DebugIsometricDir: vf.Conc(vf.Int("dir", 0, 2))}
	got := v.ApplyTo(s)
	x, y := vf.Float("u", 0, 1), vf.Float("v", 0, 1)
	r := got.Camera.RayFrom(tracer.NewCtx(1), x, y)
	if !v.DebugIsometric {
		hx.EqV(r.Dir, geom.Vec{}, "the specification's camera")
		return
	}
	want := cameras.Isometric(v.DebugIsometricDir, v.DebugIsometricFOV).RayFrom(tracer.NewCtx(1), x, y)
	hx.EqV(r.Start, want.Start, "start")
	hx.EqV(r.Dir, want.Dir, "direction")
}
