// C31: meshes are smooth, textured and follow their parametrisation.
package main

import (
	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
)

func down(x, y float64) *tracer.Ray {
	return &tracer.Ray{Start: geom.Vec{x, y, 50}, Dir: geom.Vec{0, 0, -1}}
}

// within returns barycentric coordinates of an arbitrary point inside a triangle.
func within() (a, b, c float64) {
	a, b = vf.Float("bary.a", 0.001, 1), vf.Float("bary.b", 0.001, 1)
	c = 1 - a - b
	vf.Assume(c > 0.001)
	return
}

// Two triangles sharing an edge: at the edge, the normal is the average of theirs, at the far corners
// it is their own, and in between it is interpolated linearly.
func H_Smooth() {
	h := []float64{2, -2, 1, 0}[vf.Conc(vf.Int("height", 0, 3))]
	if vf.Thorough() && vf.Bool("any") {
		h = vf.Float("h", -20, 20)
	}
	v := []geom.Vec{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 1, h}}
	f := [][3]int{{0, 1, 2}, {1, 3, 2}}
	if vf.Bool("other order") {
		f = [][3]int{{3, 2, 1}, {2, 0, 1}}
	}
	m := &hx.Mat{ID: 1}
	o := objects.Mesh(m, v, f)
	n1 := geom.Vec{0, 0, 1}
	n2 := geom.TriangleNormal(v[1], v[3], v[2])
	e := hx.Add(n1, n2).Normalized()
	a, b, c := within()
	got := o.Intersect(down(b, c)) // a v0 + b v1 + c v2
	vf.Assert(vf.Eq(got.T, 50), "first triangle")
	hx.EqV(got.Normal, hx.MAdd(hx.Mul(a, n1), b+c, e), "normal of the first triangle")
	vf.Assert(got.Material == tracer.Material(m), "material")
	got = o.Intersect(down(1-b, 1-c)) // a v3 + b v2 + c v1
	vf.Assert(vf.Eq(got.T, 50-a*h), "second triangle")
	hx.EqV(got.Normal, hx.MAdd(hx.Mul(a, n2), b+c, e), "normal of the second triangle")
	for i := range v {
		vf.Assert(v[i][0] == float64(i%2) && v[i][1] == float64(i/2), "vertices unchanged")
	}
}

// Triangles without an area leave the normals of their neighbours alone.
func H_Degenerate() {
	v := []geom.Vec{{0, 0, 0}, {2, 0, 0}, {0, 3, 0}, {vf.Float("x", -5, 5), 0, 0}}
	bad := [][3]int{{0, 1, 3}, {1, 1, 2}, {0, 0, 0}, {0, 2, 0}}[vf.Conc(vf.Int("bad", 0, 3))]
	f := [][3]int{{0, 1, 2}, bad}
	if vf.Bool("first") {
		f[0], f[1] = f[1], f[0]
	}
	o := objects.Mesh(&hx.Mat{ID: 1}, v, f)
	_, b, c := within()
	got := o.Intersect(down(2*b, 3*c))
	vf.Assert(vf.Eq(got.T, 50), "hit")
	hx.EqV(got.Normal, geom.Vec{0, 0, 1}, "normal")
}

// The coordinates of the vertices are interpolated linearly, in whatever order the faces use them.
func H_UV() {
	v := []geom.Vec{{0, 0, 0}, {2, 0, 1}, {0, 3, 2}, {2, 3, -1}}
	uv := make([]geom.Vec2, 4)
	for i := range uv {
		n := vf.IntTok(i)
		uv[i] = geom.Vec2{vf.Float("u"+n, -5, 5), vf.Float("v"+n, -5, 5)}
	}
	f := [][3]int{{0, 1, 2}, {3, 2, 1}}
	if vf.Bool("own corners") { // at the same places
		v = append(v, v[1], v[2])
		uv = append(uv, geom.Vec2{vf.Float("u4", -5, 5), vf.Float("v4", -5, 5)}, geom.Vec2{vf.Float("u5", -5, 5), vf.Float("v5", -5, 5)})
		f[1] = [3]int{3, 5, 4}
	}
	j1, j2 := f[1][2], f[1][1]
	k := vf.Conc(vf.Int("rotation", 0, 2))
	f[1] = [3]int{f[1][k], f[1][(k+1)%3], f[1][(k+2)%3]}
	o := objects.MeshWithUV(&hx.Mat{ID: 1}, v, f, uv)
	a, b, c := within()
	mix := func(p, q, r geom.Vec2) geom.Vec {
		return geom.Vec{a*p[0] + b*q[0] + c*r[0], a*p[1] + b*q[1] + c*r[1], 0}
	}
	got := o.Intersect(down(2*b, 3*c))
	vf.Assert(vf.Eq(got.T, 50-b-2*c), "first")
	hx.EqV(got.Local, mix(uv[0], uv[1], uv[2]), "coordinates in the first")
	got = o.Intersect(down(2-2*b, 3-3*c))
	vf.Assert(vf.Eq(got.T, 50+a-2*b-c), "second")
	hx.EqV(got.Local, mix(uv[3], uv[j2], uv[j1]), "coordinates in the second")
}

// A parametric surface passes through the function at each of its steps, from 0 to 1 inclusive, is closed in
// between, has the parameters as coordinates and its normals to the side of dp/du x dp/dv.
//vf: merge=1
func H_Parametric() {
	nu := vf.Conc(vf.Int("numU", 2, 3))
	nv := 5 - nu
	if vf.Thorough() {
		nv = vf.Conc(vf.Int("numV", 2, 3))
	}
	// heights above a tilted plane
	z := make([]float64, nu*nv)
	bent := vf.Conc(vf.Int("bent", -1, nu*nv-1))
	if bent >= 0 {
		z[bent] = 0.25
	}
	calls := 0
	p := func(u, v, z float64) geom.Vec { return geom.Vec{2*u - v, u + 3*v, u + v + z} }
	o := objects.Parametric(&hx.Mat{ID: 1}, nu, nv, func(u, v float64) geom.Vec {
		i, j := int(u*float64(nu-1)+0.5), int(v*float64(nv-1)+0.5)
		vf.Assert(vf.Eq(u*float64(nu-1), float64(i)) && vf.Eq(v*float64(nv-1), float64(j)), "the steps")
		calls++
		return p(u, v, z[i*nv+j])
	})
	vf.Assert(calls >= nu*nv, "all steps")
	i, j := vf.Conc(vf.Int("i", 0, nu-2)), vf.Conc(vf.Int("j", 0, nv-2))
	x, y := vf.Float("x", 0.001, 0.999), vf.Float("y", 0.001, 0.999)
	vf.Assume(vf.Or(x-y > 0.001, y-x > 0.001))
	u, v := (float64(i)+x)/float64(nu-1), (float64(j)+y)/float64(nv-1)
	q := p(u, v, 0)
	got := o.Intersect(down(q[0], q[1]))
	// the vertex between the two on the diagonal
	at := func(i, j int) float64 { return z[i*nv+j] }
	var h float64
	if x > y {
		h = (1-x)*at(i, j) + (x-y)*at(i+1, j) + y*at(i+1, j+1)
	} else {
		h = (1-y)*at(i, j) + (y-x)*at(i, j+1) + x*at(i+1, j+1)
	}
	vf.Assert(vf.Near(got.T, 50-q[2]-h, 1e-6), "on the surface")
	vf.Assert(vf.And(vf.Near(got.Local[0], u, 1e-6), vf.Near(got.Local[1], v, 1e-6)), "coordinates")
	if bent < 0 {
		vf.Assert(got.Normal[2] > 0, "normal")
		hx.EqV(hx.Cross(got.Normal, geom.Vec{-2, -3, 7}), geom.Vec{}, "normal")
	}
}

// The steps are evenly spaced from 0 to 1 inclusive, however many, also when the surface is closed.
//vf: unwind=200
func H_ParametricSteps() {
	nu, nv := 2, []int{2, 5, 9, 16}[vf.Conc(vf.Int("steps", 0, 3))]
	if vf.Bool("swap") {
		nu, nv = nv, nu
	}
	k := 1.0 // symbolic sizes make the tree of the faces expensive
	if nu*nv < 12 {
		k = vf.Float("k", 0.5, 2)
	}
	closed := vf.Bool("closed")
	seen := make([]bool, nu*nv)
	objects.Parametric(&hx.Mat{ID: 1}, nu, nv, func(u, v float64) geom.Vec {
		i, j := int(u*float64(nu-1)+0.5), int(v*float64(nv-1)+0.5)
		vf.Assert(vf.Near(u*float64(nu-1), float64(i), 1e-9) && vf.Near(v*float64(nv-1), float64(j), 1e-9), "the steps")
		if i >= 0 && j >= 0 && i < nu && j < nv {
			seen[i*nv+j] = true
		}
		if closed {
			return geom.Vec{k * u * (1 - u), v * (1 - v), u * v * (1 - u) * (1 - v)}
		}
		return geom.Vec{k * u, v, 0}
	})
	for _, s := range seen {
		vf.Assert(s, "all steps")
	}
}

// A grid is hit by every ray that meets it, also along and beside the edges, in the quads and between them.
//vf: merge=1
func H_ParametricRays() {
	n := 3
	o := objects.Parametric(&hx.Mat{ID: 1}, n, 2, func(u, v float64) geom.Vec { return geom.Vec{2 * u, v, 0} })
	x, y := vf.Float("x", -0.5, 2.5), vf.Float("y", -0.5, 1.5)
	for _, e := range []float64{0, 1, 2} {
		vf.Assume(vf.Or(x-e > 0.001, e-x > 0.001))
	}
	vf.Assume(vf.And(vf.Or(y > 0.001, y < -0.001), vf.Or(y > 1.001, y < 0.999)))
	d := geom.Vec{vf.Float("d.x", 0.01, 3), vf.Float("d.y", 0.01, 3), -1}
	t := vf.Float("t", 0.1, 10)
	r := &tracer.Ray{Start: hx.MAdd(geom.Vec{x, y, 0}, -t, d), Dir: d}
	h := o.Intersect(r)
	in := vf.And(x > 0, x < 2, y > 0, y < 1)
	vf.Assert(vf.Imp(in, vf.Near(h.T, t, 1e-6)), "hit")
	vf.Assert(vf.Imp(!in, h.T == 0), "miss")
	vf.Assert(vf.Imp(in, vf.And(vf.Near(h.Local[0], x/2, 1e-6), vf.Near(h.Local[1], y, 1e-6))), "coordinates")
}
