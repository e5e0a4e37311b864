// C09: a tree of objects is hit exactly like the plain list of its objects.
package main

import (
	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
)

// positions of the objects: spread along all axes, overlapping, nested and repeated.
var layout = [][3]float64{
	{0, 0, 0}, {8, 1, 0}, {-6, 0, 1}, {3, 3, 3}, {12, -2, 0}, {-11, 2, 2}, {5, 0, -4}, {0, 0, 0}, {15, 1, 1},
	{-3, 9, 0}, {1, -9, 5}, {7, 7, 7}, {-8, -8, 1}, {20, 0, 0}, {2, 1, 0}, {4, -1, 2}, {-15, 3, -3},
}

func stubs(n int) []*hx.Stub {
	ss := make([]*hx.Stub, n)
	for i := range ss {
		c := layout[i]
		h := 1 + float64(i%3)
		ss[i] = &hx.Stub{B: objects.BoundingBox{Min: hx.Vec{c[0] - h, c[1] - h, c[2] - 1}, Max: hx.Vec{c[0] + h, c[1] + 1, c[2] + h}}}
	}
	return ss
}

func tree(ss []*hx.Stub) objects.Interface {
	os := make([]objects.Interface, len(ss))
	for i, s := range ss {
		os[i] = s
	}
	return objects.Tree(os...)
}

// dir is one of a few directions (with these, positions along the ray are linear in the
// inputs), or when any is set an arbitrary direction with signs (+,+,-).
func dir(any bool) hx.Vec {
	if any {
		return hx.Vec{vf.Float("d.x", 0.05, 5), vf.Float("d.y", 0.05, 5), -vf.Float("d.z", 0.05, 5)}
	}
	ds := []hx.Vec{{1, 0.25, -0.5}, {-1, 0.125, 0.5}, {0.25, -1, 0.375}, {0.5, 0.5, 2}, {-0.5, -2, -1}}
	n := 1
	if vf.Thorough() {
		n = 4
	}
	return ds[vf.Conc(vf.Int("dir", 0, n))]
}

// hits makes stub s hit by the ray at an arbitrary point strictly inside its box.
func hits(r *tracer.Ray, s *hx.Stub, n string, m tracer.Material) {
	T := vf.Float(n, 0.01, 60)
	p := hx.At(r, T)
	for i := range p {
		vf.Assume(p[i] > s.B.Min[i])
		vf.Assume(p[i] < s.B.Max[i])
	}
	s.H = tracer.HitRecord{T: T, Material: m, Normal: hx.Vec{1, 2, 3}, Local: hx.Vec{4, 5, 6}}
}

func check(n int, any bool) {
	ss := stubs(n)
	r := &tracer.Ray{Start: hx.VR("s", 30), Dir: dir(any)}
	i, j := vf.Conc(vf.Int("i", 0, n-1)), n-1
	if vf.Thorough() {
		j = vf.Conc(vf.Int("j", 0, n-1))
	} else {
		j = (i*5 + 3) % n
	}
	mi, mj := &hx.Mat{ID: 1}, &hx.Mat{ID: 2}
	hits(r, ss[i], "Ti", mi)
	two := j != i
	if two {
		hits(r, ss[j], "Tj", mj)
	}
	r0 := *r
	h := tree(ss).Intersect(r)
	hx.EqV(r.Start, r0.Start, "ray unchanged")
	hx.EqV(r.Dir, r0.Dir, "ray unchanged")
	ti := ss[i].H.T
	if !two {
		vf.Assert(vf.Eq(h.T, ti), "the only hit is reported")
	} else {
		tj := ss[j].H.T
		vf.Assume(vf.Or(ti > tj+0.0001, ti < tj-0.0001))
		vf.Assert(vf.Eq(h.T, vf.IteF(ti < tj, ti, tj)), "the nearest hit is reported")
		vf.Assert((h.Material == tracer.Material(mi)) == (ti < tj), "with its material")
	}
	hx.EqV(h.Normal, hx.Vec{1, 2, 3}, "with its normal")
	hx.EqV(h.Local, hx.Vec{4, 5, 6}, "with its local coordinates")
	hx.ObsHit("h", h)
}

// One leaf.
//vf: merge=1
func H_Leaf() { check(5, false) }

// One leaf, arbitrary direction.
//vf: merge=1
func H_AnyDir() { check(5, true) }

// Two levels.
//vf: merge=1 budget=200
func H_TwoLevels() { check(9, false) }

// Three levels.
//vf: merge=1 budget=200
func H_ThreeLevels() { check(17, false) }

// Large objects overlapping everywhere: any two of them are hit in any order, from inside or outside of their boxes.
//vf: merge=1
func H_Overlap() {
	const n = 8
	ss := stubs(n)
	for i := range ss {
		c := layout[i]
		ss[i].B = objects.BoundingBox{Min: hx.Vec{c[0]/8 - 9, c[1]/8 - 8, c[2]/8 - 9}, Max: hx.Vec{c[0]/8 + 9, c[1]/8 + 8, c[2]/8 + 9}}
	}
	r := &tracer.Ray{Start: hx.VR("s", 30), Dir: dir(false)}
	i := vf.Conc(vf.Int("i", 0, n-1))
	j := (i + 2) % n
	if vf.Thorough() {
		j = (i + 1 + vf.Conc(vf.Int("j", 0, n-2))) % n
	}
	mi, mj := &hx.Mat{ID: 1}, &hx.Mat{ID: 2}
	hits(r, ss[i], "Ti", mi)
	hits(r, ss[j], "Tj", mj)
	ti, tj := ss[i].H.T, ss[j].H.T
	vf.Assume(ti < tj-0.0001)
	h := tree(ss).Intersect(r)
	vf.Assert(vf.Eq(h.T, ti), "the nearest hit is reported")
	vf.Assert(h.Material == tracer.Material(mi), "with its material")
	hx.ObsHit("h", h)
}

// No object is hit: neither is the tree.
//vf: merge=1
func H_Miss() {
	k := 3
	if vf.Thorough() {
		k = 4
	}
	n := []int{0, 1, 5, 9, 17}[vf.Conc(vf.Int("n", 0, k))]
	ss := stubs(n)
	r := &tracer.Ray{Start: hx.VR("s", 30), Dir: dir(false)}
	tr := tree(ss)
	h := tr.Intersect(r)
	vf.Assert(!(h.T > 0), "no hit")
	if n == 0 {
		vf.Assert(!tr.Inside(r.Start), "nothing is inside an empty tree")
		h = objects.Tree(tr, tr).Intersect(r)
		vf.Assert(!(h.T > 0), "no hit in a tree of empty trees")
		o := &hx.Stub{B: objects.BoundingBox{Min: hx.Vec{1, 2, 3}, Max: hx.Vec{4, 5, 6}}}
		hits(r, o, "T", nil)
		vf.Assert(vf.Eq(objects.Tree(tr, o).Intersect(r).T, o.H.T), "an empty tree hides nothing")
	}
	hx.ObsHit("h", h)
}

// An object of any size, hit at any distance, among small ones.
//vf: merge=1
func H_Far() {
	ss := stubs(5)
	const far = 1e15
	ss[2].B = objects.BoundingBox{Min: hx.Vec{-far, -far, -far}, Max: hx.Vec{far, far, far}}
	r := &tracer.Ray{Start: hx.VR("s", 30), Dir: hx.Vec{1, 0.25, -0.5}}
	m, n := &hx.Mat{ID: 1}, &hx.Mat{ID: 2}
	ss[2].H = tracer.HitRecord{T: vf.Float("T", 0.01, 1e14), Material: m}
	hits(r, ss[1], "Tj", n)
	ti, tj := ss[2].H.T, ss[1].H.T
	if vf.Bool("alone") {
		ss[1].H = tracer.HitRecord{}
		vf.Assert(vf.Eq(tree(ss).Intersect(r).T, ti), "the only hit is reported")
		return
	}
	vf.Assume(vf.Or(ti > tj+0.0001, ti < tj-0.0001))
	h := tree(ss).Intersect(r)
	vf.Assert(vf.Eq(h.T, vf.IteF(ti < tj, ti, tj)), "the nearest hit is reported")
	vf.Assert((h.Material == tracer.Material(m)) == (ti < tj), "with its material")
}

// A point is inside the tree iff it is inside one of the objects.
func H_Inside() {
	n := []int{1, 5, 9, 17}[vf.Conc(vf.Int("n", 0, 3))]
	ss := stubs(n)
	i := vf.Conc(vf.Int("i"+vf.IntTok(n), 0, n))
	if i < n {
		ss[i].In = true
		ss[vf.Conc(vf.Int("j"+vf.IntTok(n), 0, n-1))].In = true // maybe another one, too
	}
	vf.Assert(tree(ss).Inside(hx.VR("p", 30)) == (i < n), "inside")
}

// Rays parallel to an axis.
//vf: merge=1
func H_Axis() {
	ss := stubs(9)
	var d hx.Vec
	d[vf.Conc(vf.Int("axis", 0, 2))] = float64(1-2*vf.Conc(vf.Int("neg", 0, 1)))
	r := &tracer.Ray{Start: hx.VR("s", 30), Dir: d}
	i := vf.Conc(vf.Int("i", 0, 8))
	hits(r, ss[i], "T", nil)
	h := tree(ss).Intersect(r)
	vf.Assert(vf.Eq(h.T, ss[i].H.T), "the hit is reported")
	hx.ObsHit("h", h)
}
