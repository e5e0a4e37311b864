// C34: relief surfaces.
package main

import (
	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
)

// plane is a tilted plane of relief: height y at (x,z) of the box, and slopes along x and z.
type plane struct{ x, y, z, sx, sz float64 }

func (p plane) at(x, z float64) float64 { return p.y + p.sx*(x-p.x) + p.sz*(z-p.z) }

func size() (dx, dy, dz float64) {
	dx, dy, dz = vf.Float("dx", 0.5, 4), 0.5, 3
	if vf.Thorough() {
		dz = vf.Float("dz", 0.5, 4)
	}
	return
}

// relief returns the surface; f counts on being asked for heights within the box.
func relief(m tracer.Material, dx, dy, dz float64, height func(x, z float64) float64) objects.Interface {
	return objects.IsoSurface(m, dx, dy, dz, func(u, v float64) float64 {
		return height(u*dx, v*dz) / dy
	})
}

// A ray from above that crosses the surface within the box hits it there, with the normal of the slope.
func H_Above() {
	dx, dy, dz := size()
	// the ray goes down one per unit of T and meets the surface at T = k/8 below the start
	k := vf.Conc(vf.Int("k", 9, 11))
	start := 1.5 // the box spans T 1 to 1.5
	y := start - float64(k)/8
	p := plane{vf.Float("x", 0.1, 3.9), y, vf.Float("z", 0.1, 2.9), vf.Float("sx", -0.1, 0.1), 0.05}
	d := geom.Vec{vf.Float("d.x", -0.1, 0.1), -1, 0.1}
	if vf.Thorough() {
		p.sz = vf.Float("sz", -0.1, 0.1)
		d[2] = vf.Float("d.z", -0.1, 0.1)
	}
	vf.Assume(vf.And(p.x < dx-0.1, p.z < dz-0.1))
	m := &hx.Mat{ID: 1}
	o := relief(m, dx, dy, dz, p.at)
	t := float64(k) / 8
	r := &tracer.Ray{Start: geom.Vec{p.x - t*d[0], start, p.z - t*d[2]}, Dir: d}
	h := o.Intersect(r)
	vf.Assert(vf.Near(h.T, t, 1e-5), "hit")
	hx.EqV(hx.Cross(h.Normal, geom.Vec{-p.sx, 1, -p.sz}), geom.Vec{}, "normal")
	vf.Assert(h.Normal[1] > 0, "normal is up")
	vf.Assert(vf.And(vf.Near(h.Local[0]*dx, p.x, 1e-5), vf.Near(h.Local[1]*dz, p.z, 1e-5)), "coordinates")
	vf.Assert(h.Material == tracer.Material(m), "material")
}

// A ray that stays above the surface passes.
//vf: merge=1
func H_Passes() {
	dx, dy, dz := 2.0, 0.5, 3.0
	p := plane{0, vf.Float("y", 0.16, 0.3), 0, vf.Float("sx", -0.02, 0.02), 0.01}
	e := geom.Vec{0, vf.Float("y1", 0.01, 0.49), 1}
	f := geom.Vec{dx, vf.Float("y2", 0.01, 0.49), 2.5}
	if vf.Thorough() {
		p.sz = vf.Float("sz", -0.02, 0.02)
		e[2], f[2] = vf.Float("z1", 0.1, 2.9), vf.Float("z2", 0.1, 2.9)
	}
	o := relief(nil, dx, dy, dz, p.at)
	vf.Assume(vf.And(e[1] > p.at(e[0], e[2])+0.01, f[1] > p.at(f[0], f[2])+0.01))
	d := hx.Sub(f, e)
	for i := 1; i < 3; i++ {
		vf.Assume(vf.Or(d[i] > 0.01, d[i] < -0.01))
	}
	t := 2.0
	if vf.Bool("inside") {
		t = -0.5
	}
	h := o.Intersect(&tracer.Ray{Start: hx.MAdd(e, -t, d), Dir: d})
	vf.Assert(h.T == 0, "no hit")
}

// A ray that misses the box, or has it behind, passes.
func H_Beside() {
	dx, dy, dz := size()
	o := relief(nil, dx, dy, dz, plane{y: 0.2}.at)
	q := geom.Vec{vf.Float("x", -5, 9), 1, vf.Float("z", -5, 9)}
	vf.Assume(vf.Or(q[0] < -0.01, q[0] > dx+0.01, q[2] < -0.01, q[2] > dz+0.01))
	h := o.Intersect(&tracer.Ray{Start: q, Dir: geom.Vec{0, -1, 0}})
	vf.Assert(h.T == 0, "beside")
	h = o.Intersect(&tracer.Ray{Start: geom.Vec{dx / 2, 1, dz / 2}, Dir: geom.Vec{vf.Float("d.x", -1, 1), 1, 0.5}})
	vf.Assert(h.T == 0, "behind")
}

// A ray that starts above the surface, within the box, hits what lies ahead and not what lies behind.
func H_Valley() {
	dx, dy, dz := 2.0, 0.5, 1.0
	s1, s2 := vf.Float("s1", 0.02, 0.9), vf.Float("s2", 0.02, 0.9)
	hill := vf.Bool("hill behind")
	// a valley at x=1, as high as the ray at x=0.5 and x=1.5
	o := relief(nil, dx, dy, dz, func(x, z float64) float64 {
		if x > 1 {
			return 0.25 + s1*(x-1.5)*0.5
		}
		if !hill {
			return 0.2
		}
		return 0.25 + s2*(0.5-x)*0.5
	})
	x := 0.75
	if vf.Bool("right") {
		x = 1.25
	}
	h := o.Intersect(&tracer.Ray{Start: geom.Vec{x, 0.25, 0.5}, Dir: geom.Vec{1, 0, 0}})
	vf.Assert(vf.Near(h.T, 1.5-x, 1e-5), "the hill ahead")
	h = o.Intersect(&tracer.Ray{Start: geom.Vec{x, 0.25, 0.5}, Dir: geom.Vec{0.1, 1, 0}})
	vf.Assert(h.T == 0, "the sky")
}

// Inside is what is below the surface and in the box, and the box bounds it.
func H_Inside() {
	dx, dy, dz := size()
	p := plane{0, vf.Float("y", 0.16, 0.3), 0, vf.Float("sx", -0.02, 0.02), vf.Float("sz", -0.02, 0.02)}
	if vf.Bool("flat") { // at any height
		p = plane{0, vf.Float("flat.y", 0, 0.5), 0, 0, 0}
	}
	o := relief(nil, dx, dy, dz, p.at)
	q := hx.VR("q", 5)
	b := o.Bounds()
	for i, e := range []float64{dx, dy, dz} {
		vf.Assert(vf.And(b.Min[i] == 0, b.Max[i] == e), "bounds")
		vf.Assume(vf.And(vf.Or(q[i] > 1e-6, q[i] < -1e-6), vf.Or(q[i] > e+1e-6, q[i] < e-1e-6)))
	}
	g := p.at(q[0], q[2])
	vf.Assume(vf.Or(q[1] > g+1e-6, q[1] < g-1e-6))
	want := vf.And(q[0] > 0, q[0] < dx, q[1] > 0, q[1] < dy, q[2] > 0, q[2] < dz, q[1] < g)
	vf.Assert(o.Inside(q) == want, "inside")
}
