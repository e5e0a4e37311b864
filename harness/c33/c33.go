// C33: placing objects relative to their bounding boxes.
package main

import (
	"vh/hx"
	_ "vh/sys"
	"vh/vf"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
)

func orig() (*hx.Stub, api.Object) {
	s := &hx.Stub{B: hx.BoxIn("b", 10), In: true}
	return s, api.Object{Interface: s}
}

func center(b objects.BoundingBox) geom.Vec { return hx.Mul(0.5, hx.Add(b.Min, b.Max)) }

// from checks that the point p of o is the point q of the original.
func from(s *hx.Stub, o api.Object, p, q geom.Vec, what string) {
	vf.Assert(o.Interface.Inside(p), what+": inside")
	hx.EqV(s.GotP, q, what)
}

// Moving an object moves all of it.
func H_Move() {
	s, o := orig()
	p, pos := hx.VR("p", 10), hx.VR("pos", 10)
	q := hx.Add(p, pos)
	from(s, o.Translate(pos), q, p, "translate")
	c := center(s.B)
	from(s, o.WithCenter(pos), q, hx.Add(p, c), "center")
	hx.EqV(o.WithCenter(pos).Center(), pos, "its center")
	bot := geom.Vec{c[0], s.B.Min[1], c[2]}
	from(s, o.WithCenterBottom(pos), q, hx.Add(p, bot), "bottom center")
	hx.EqV(o.WithCenterBottom(pos).CenterBottom(), pos, "its bottom center")
}

// The anchor points are those of the box.
func H_Anchors() {
	s, o := orig()
	c := center(s.B)
	hx.EqV(o.Center(), c, "center")
	hx.EqV(o.CenterTop(), geom.Vec{c[0], s.B.Max[1], c[2]}, "top")
	hx.EqV(o.CenterBottom(), geom.Vec{c[0], s.B.Min[1], c[2]}, "bottom")
	hx.EqV(o.CenterBack(), geom.Vec{c[0], c[1], s.B.Min[2]}, "back")
	hx.EqV(o.CenterFront(), geom.Vec{c[0], c[1], s.B.Max[2]}, "front")
}

// Scaling keeps the center, or the given fixed point; scaling to a size makes the object as wide.
func H_Scale() {
	s, o := orig()
	p, k, at := hx.VR("p", 10), vf.Float("k", 0.1, 10), hx.VR("at", 10)
	c := center(s.B)
	from(s, o.Scale(k), hx.MAdd(c, k, p), hx.Add(c, p), "scale")
	from(s, o.ScaleAt(at, k), hx.MAdd(at, k, p), hx.Add(at, p), "scale at")
	vf.Assume(s.B.Max[0]-s.B.Min[0] > 0.1)
	w := o.ScaleToSize(k)
	b := w.Bounds()
	vf.Assert(vf.Near(b.Max[0]-b.Min[0], k, 1e-6), "size")
	hx.EqV(w.Center(), c, "center kept")
	from(s, w, hx.MAdd(c, k, p), hx.MAdd(c, s.B.Max[0]-s.B.Min[0], p), "scale to size")
}

// Rotation is about the center, or the given point, counterclockwise about the axis.
func H_Rotate() {
	s, o := orig()
	p, at := hx.VR("p", 10), hx.VR("at", 10)
	c := center(s.B)
	a := vf.Angle("angle")
	k := vf.Conc(vf.Int("axis", 0, 2))
	ax := geom.Vec{}
	ax[k] = 1
	t := geom.Rotate(geom.O, ax, a)
	q := hx.ApplyDir(t, p)
	if vf.Bool("at") {
		c = at
		o = o.RotateAt(at, ax, a)
	} else {
		o = o.Rotate(ax, a)
	}
	from(s, o, hx.Add(c, q), hx.Add(c, p), "rotate")
}

// Any other transform.
func H_Transform() {
	s, o := orig()
	p := hx.VR("p", 10)
	k := vf.Float("k", 0.5, 2)
	sh := vf.Float("shear", -2, 2)
	m := geom.AffineTransform{A: geom.Matrix{{k, 0, 0}, {sh, 1, 0}, {0, 0, -2}}, B: hx.VR("b", 10)}
	from(s, o.Transform(&m), hx.Apply(&m, p), p, "transform")
}

// Remapping local coordinates or changing the material leaves the rest.
func H_Remap() {
	s, o := orig()
	s.H = tracer.HitRecord{T: vf.Float("t", 1, 5), Normal: hx.U("n"), Material: &hx.Mat{ID: 1}, Local: hx.V("l")}
	if vf.Bool("miss") {
		s.H = tracer.HitRecord{}
	}
	r := hx.Ray("r")
	f := o.Remap(func(p geom.Vec) geom.Vec { return geom.Vec{p[2], 2 * p[0], p[1] + 1} })
	h := f.Interface.Intersect(r)
	at := hx.At(r, s.H.T)
	vf.Assert(h.T == s.H.T, "the same hit")
	if s.H.T > 0 {
		hx.EqV(h.Local, geom.Vec{at[2], 2 * at[0], at[1] + 1}, "remapped")
		vf.Assert(h.Material == s.H.Material, "the same material")
		hx.EqV(h.Normal, s.H.Normal, "the same normal")
	}
	m2 := &hx.Mat{ID: 2}
	h = o.WithMaterial(m2).Interface.Intersect(r)
	vf.Assert(h.T == s.H.T, "the same hit")
	vf.Assert(vf.Imp(h.T > 0, h.Material == tracer.Material(m2)), "other material")
}

// Combinations: inside and out.
func H_Combine() {
	a, b := &hx.Stub{B: hx.BoxIn("a", 10), In: vf.Bool("inA")}, &hx.Stub{B: hx.BoxIn("b", 10), In: vf.Bool("inB")}
	x, y := api.Object{Interface: a}, api.Object{Interface: b}
	p := hx.V("p")
	vf.Assume(vf.And(hx.InBoxS(a.B, p), hx.InBoxS(b.B, p)))
	var o api.Object
	var want bool
	switch vf.Conc(vf.Int("op", 0, 5)) {
	case 0:
		o, want = x.And(y), vf.And(a.In, b.In)
	case 1:
		o, want = x.Or(y), vf.Or(a.In, b.In)
	case 2:
		o, want = x.AndNot(y), vf.And(a.In, !b.In)
	case 3:
		o, want = api.Difference(x, y), vf.And(a.In, !b.In)
	case 4:
		o, want = api.Tree(x, y), vf.Or(a.In, b.In)
	case 5:
		o, want = api.Bounded(x), a.In
	}
	vf.Assert(o.Interface.Inside(p) == want, "inside")
}

// Cutting keeps the surface of the first only: within the other (Restrict) or outside of it (Remove).
func H_Cut() {
	m, k := &hx.Mat{ID: 1}, &hx.Mat{ID: 2}
	r := &tracer.Ray{Start: geom.Vec{-20, 0.1, 0.2}, Dir: geom.Vec{1, 0, 0}}
	a, b := hx.Slabs("a", 1, m, 0.1), hx.Slabs("b", 2, k, 0.1)
	x, y := api.Object{Interface: a}, api.Object{Interface: b}
	rest, rem := x.Restrict(y).Interface.Intersect(r), x.Remove(y).Interface.Intersect(r)
	e := a.Edges()
	for _, p := range append(e, b.Edges()...) {
		vf.Assume(p > -19)
	}
	for i := range e {
		for _, q := range b.Edges() {
			vf.Assume(vf.Or(e[i]-q > 0.01, q-e[i] > 0.01))
		}
	}
	check := func(h tracer.HitRecord, want bool, what string) {
		t := 0.0
		for i := len(e) - 1; i >= 0; i-- {
			t = vf.IteF(b.In(e[i]) == want, e[i]+20, t)
		}
		vf.Assert(vf.Near(h.T, t, 1e-6), what)
		vf.Assert(vf.Imp(h.T > 0, h.Material == tracer.Material(m)), what+": material")
	}
	check(rest, true, "restrict")
	check(rem, false, "remove")
}

// Cutting a box by two boxes around opposite corners leaves these corners, or all but these.
//vf: merge=1
func H_CutCorners() {
	m := &hx.Mat{ID: 1}
	o := api.Box(m, 2, 2, 2, geom.Vec{})
	b := api.Box(nil, 1, 1, 1, geom.Vec{-1, -1, -1}).Or(api.Box(nil, 1, 1, 1, geom.Vec{1, 1, 1}))
	x, y := vf.Float("x", -2, 2), vf.Float("y", -2, 2)
	for _, e := range []float64{-1.5, -1, -0.5, 0.5, 1, 1.5} {
		vf.Assume(vf.And(vf.Or(x > e+0.001, x < e-0.001), vf.Or(y > e+0.001, y < e-0.001)))
	}
	r := &tracer.Ray{Start: geom.Vec{x, y, 10}, Dir: geom.Vec{0, 0, -1}}
	front := vf.And(x > 0.5, x < 1, y > 0.5, y < 1)
	back := vf.And(x > -1, x < -0.5, y > -1, y < -0.5)
	hit := vf.And(x > -1, x < 1, y > -1, y < 1)
	if vf.Bool("remove") {
		front, back = vf.And(hit, !front), vf.And(hit, front)
		o = o.Remove(b)
	} else {
		o = o.Restrict(b)
	}
	h := o.Interface.Intersect(r)
	vf.Assert(vf.Near(h.T, vf.IteF(front, 9, vf.IteF(back, 11, 0)), 1e-4), "what is left")
}

// Cylinders lie along the axis they are named after.
func H_Cylinders() {
	d, h := vf.Float("d", 0.5, 5), vf.Float("h", 0.5, 5)
	c, p := hx.VR("c", 5), hx.VR("p", 5)
	k := vf.Conc(vf.Int("axis", 0, 2))
	m := &hx.Mat{ID: 1}
	o := []api.Object{api.CylinderX(m, d, h, c), api.Cylinder(m, d, h, c), api.CylinderZ(m, d, h, c)}[k]
	v := hx.Sub(p, c)
	along := v[k]
	r2 := hx.Dot(v, v) - along*along
	vf.Assume(vf.And(vf.Or(r2-d*d/4 > 1e-3, d*d/4-r2 > 1e-3), vf.Or(along-h/2 > 1e-3, h/2-along > 1e-3), vf.Or(along+h/2 > 1e-3, -h/2-along > 1e-3)))
	vf.Assert(o.Interface.Inside(p) == vf.And(r2 < d*d/4, along < h/2, along > -h/2), "inside")
}
