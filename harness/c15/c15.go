// C15: uniform numbers are mapped to the disk uniformly and to the hemisphere with cosine weight.
package main

import (
	"math"

	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/tracer/sequence"
)

// Disk: the squared radius is v and the angle 2πu: equal areas of the square go to equal areas of the disk.
func H_Disk() {
	u, v := vf.Float("u", 0, 1), vf.Float("v", 0, 1)
	x, y := sequence.UniformDisk(u, v)
	vf.Assert(vf.Eq(x*x+y*y, v), "squared radius is uniform")
	x1, y1 := sequence.UniformDisk(u, 1)
	vf.Assert(vf.Eq(x1*x1+y1*y1, 1), "rim")
	vf.Assert(vf.Eq(x*y1, y*x1), "the angle does not depend on the radius")
	vf.Assert(vf.Le(0, x*x1+y*y1), "nor does the side")
	vf.Assert(vf.Or(vf.And(vf.Eq(x1, math.Cos(2*math.Pi*u)), vf.Eq(y1, math.Sin(2*math.Pi*u))),
		vf.And(vf.Eq(x1, math.Cos(2*math.Pi*u)), vf.Eq(y1, -math.Sin(2*math.Pi*u)))), "the angle is uniform")
	vf.Observe("x", x)
	vf.Observe("y", y)
}

// Hemisphere: around any unit normal, the vector has unit length, lies on the side of the normal, has a
// squared cosine of 1-v and an azimuth of 2πu.
func hemisphere(n hx.Vec, flip bool) {
	u, v := vf.Float("u", 0, 0.999), vf.Float("v", 0, 0.999)
	r := sequence.CosineSphere(u, v, n)
	c := hx.Dot(r, n)
	vf.Assert(c >= 0, "on the side of the normal")
	vf.Assert(vf.Eq(c*c, 1-v), "squared cosine is uniform")
	vf.Assert(vf.Eq(hx.Dot(r, r), 1), "unit length")
	// the tangential part is proportional to a unit tangent at azimuth 2πu
	t0, t := sequence.CosineSphere(0, 1, n), sequence.CosineSphere(u, 1, n)
	vf.Assert(vf.And(vf.Eq(hx.Dot(t0, t0), 1), vf.Eq(hx.Dot(t0, n), 0), vf.Eq(hx.Dot(t, t), 1), vf.Eq(hx.Dot(t, n), 0)), "unit tangents")
	x, y := sequence.UniformDisk(u, v)
	hx.EqV(r, hx.Add(hx.Mul(c, n), hx.Mul(math.Sqrt(x*x+y*y), t)), "tangential part")
	vf.Assert(vf.Eq(hx.Dot(t, t0), math.Cos(2*math.Pi*u)), "azimuth")
	tr := hx.Dot(n, hx.Cross(t0, t))
	if flip {
		u2 := vf.Float("u2", 0, 0.999)
		t2 := sequence.CosineSphere(u2, 1, n)
		vf.Assert(vf.Eq(tr*math.Sin(2*math.Pi*u2), hx.Dot(n, hx.Cross(t0, t2))*math.Sin(2*math.Pi*u)), "sense of rotation")
	}
	vf.Assert(vf.Eq(tr*tr, math.Sin(2*math.Pi*u)*math.Sin(2*math.Pi*u)), "azimuth, sine")
	hx.ObsV("r", r)
}

// Normals along the axes and in coordinate planes.
func H_Axes() {
	k := vf.Conc(vf.Int("axis", 0, 2))
	n := hx.Vec{}
	n[k] = 1
	if vf.Bool("neg") {
		n[k] = -1
	}
	hemisphere(n, true)
}

func H_Plane() {
	k := vf.Conc(vf.Int("axis", 0, 2))
	a := vf.Angle("a")
	n := hx.Vec{}
	n[k] = math.Cos(a)
	n[(k+1)%3] = math.Sin(a)
	hemisphere(n, false)
}

// Any normal.
func H_Any() { hemisphere(hx.U("n"), false) }
