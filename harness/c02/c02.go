// C02: rotations are proper, right-handed, fix their axis and turn by their angle.
package main

import (
	"math"

	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/geom"
)

// ref is Rodrigues' formula for a unit axis u.
func ref(u hx.Vec, s, c float64, v hx.Vec) hx.Vec {
	return hx.Add(hx.Mul(c, v), hx.Add(hx.Mul(s, hx.Cross(u, v)), hx.Mul((1-c)*hx.Dot(u, v), u)))
}

// Rotate turns every vector counterclockwise by the angle about the (normalised) axis.
func H_Rotate() {
	u := hx.U("u")
	l := vf.Float("l", 0.01, 100)
	a := vf.Angle("a")
	o, v := hx.V("o"), hx.V("v")
	t := geom.Rotate(o, hx.Mul(l, u), a)
	w := t.TransformDir(v)
	hx.EqV(w, ref(u, math.Sin(a), math.Cos(a), v), "Rodrigues")
	vf.Assert(vf.Eq(hx.Dot(w, w), hx.Dot(v, v)), "length preserved")
	hx.EqV(t.TransformPoint(hx.Add(o, v)), hx.Add(o, w), "rotates about its origin")
	k := vf.Float("k", -100, 100)
	ax := hx.MAdd(o, k, u)
	hx.EqV(t.TransformPoint(ax), ax, "points on the axis are fixed")
	hx.ObsV("w", w)
}

// Yaw, Pitch and Roll turn about the y, x and z axes.
func H_YawPitchRoll() {
	a := vf.Angle("a")
	s, c := math.Sin(a), math.Cos(a)
	v := hx.V("v")
	hx.EqV(geom.Yaw(a).TransformPoint(v), ref(hx.Vec{0, 1, 0}, s, c, v), "Yaw")
	hx.EqV(geom.Pitch(a).TransformPoint(v), ref(hx.Vec{1, 0, 0}, s, c, v), "Pitch")
	hx.EqV(geom.Roll(a).TransformPoint(v), ref(hx.Vec{0, 0, 1}, s, c, v), "Roll")
	hx.ObsV("w", geom.Yaw(a).TransformPoint(v))
}

// The combined orientation rolls first, then pitches, then yaws.
func H_Order() {
	y, p, r := vf.Angle("yaw"), vf.Angle("pitch"), vf.Angle("roll")
	v := hx.V("v")
	w := geom.YawPitchRoll(y, p, r).TransformPoint(v)
	x := ref(hx.Vec{0, 0, 1}, math.Sin(r), math.Cos(r), v)
	x = ref(hx.Vec{1, 0, 0}, math.Sin(p), math.Cos(p), x)
	x = ref(hx.Vec{0, 1, 0}, math.Sin(y), math.Cos(y), x)
	hx.EqV(w, x, "yaw after pitch after roll")
	hx.ObsV("w", w)
}

// Rotating by a and then by b about the same axis is rotating by a+b.
func H_Group() {
	u := hx.U("u")
	a, b := vf.Angle("a"), vf.Angle("b")
	v := hx.V("v")
	o := hx.Vec{}
	w := geom.Rotate(o, u, b).TransformPoint(geom.Rotate(o, u, a).TransformPoint(v))
	s, c := math.Sin(a)*math.Cos(b)+math.Cos(a)*math.Sin(b), math.Cos(a)*math.Cos(b)-math.Sin(a)*math.Sin(b)
	hx.EqV(w, ref(u, s, c, v), "angles add")
	back := geom.Rotate(o, u, -a).TransformPoint(geom.Rotate(o, u, a).TransformPoint(v))
	hx.EqV(back, v, "opposite angle undoes")
}
