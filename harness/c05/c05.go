// C05: intersecting is a pure query: the ray is left unchanged, the answer does not depend on
// history, and goroutines may share an object.
package main

import (
	"sync"

	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
)

var mat = &hx.Mat{ID: 1}

func spheres(n int) []objects.Interface {
	var os []objects.Interface
	for i := 0; i < n; i++ {
		os = append(os, objects.Sphere(mat, 1, hx.Vec{float64(2 * i), float64(i % 3), float64(-i)}))
	}
	return os
}

const kinds = 15

// object builds one object of each kind.
func object(k int) objects.Interface {
	sph := objects.Sphere(mat, 2, hx.Vec{0, 0, 0})
	box := objects.Box(mat, 1, 2, 3, hx.Vec{0.5, 0, 0})
	switch k {
	case 0:
		return sph
	case 1:
		return objects.CylinderDir(mat, 1, 2, 3, hx.Vec{})
	case 2:
		return box
	case 3:
		return objects.Triangle(mat, hx.Vec{-1, -1, 0}, hx.Vec{2, 0, 0}, hx.Vec{0, 2, 0.5})
	case 4:
		return objects.Disk(mat, 3, hx.Vec{})
	case 5:
		return objects.And(sph, box)
	case 6:
		return objects.Or(sph, box)
	case 7:
		return objects.Difference(sph, box)
	case 8:
		return objects.Transformed(box, geom.ComposeLR(geom.Scale(hx.Vec{}, 2), geom.Translate(hx.Vec{0.1, 0.2, 0.3})))
	case 9:
		return objects.Tree(spheres(9)...)
	case 10:
		return objects.Bounded(objects.Remap(sph, func(p hx.Vec) hx.Vec { return p }))
	case 11:
		return objects.Hollow(objects.Restrict(sph, box))
	case 12:
		return objects.Backdrop(mat)
	case 13:
		return objects.IsoSurface(mat, 1, 1, 1, func(u, v float64) float64 { return 0.5 })
	default:
		return objects.Parametric(mat, 2, 3, func(u, v float64) hx.Vec { return hx.Vec{2*u - 1, v, u * v} })
	}
}

// the rays: from a fixed grid of viewpoints looking around, chosen symbolically.
func aRay(n string) *tracer.Ray {
	if vf.Conc(vf.Int(n+".dir", 0, 1)) == 0 {
		return &tracer.Ray{Start: hx.Vec{vf.Float(n+".x", -2, 2), vf.Float(n+".y", -2, 2), 5}, Dir: hx.Vec{0, 0, -1}}
	}
	return &tracer.Ray{Start: hx.Vec{-4, vf.Float(n+".y", -2, 2), vf.Float(n+".z", -2, 2)}, Dir: hx.Vec{1, 0.25, 0}}
}

func equal(h, g tracer.HitRecord, what string) {
	vf.Assert(vf.Eq(h.T, g.T), what+": T")
	hx.EqV(h.Normal, g.Normal, what+": normal")
	hx.EqV(h.Local, g.Local, what+": local")
	vf.Assert(h.Material == g.Material, what+": material")
}

// The ray is unchanged, and after intersecting other rays the same ray gives the same answer.
//vf: merge=1 budget=120
func H_Pure() {
	k := vf.Conc(vf.Int("kind", 0, kinds-1))
	if k == 13 || k == 14 && !vf.Thorough() {
		return // H_Race intersects these
	}
	o := object(k)
	r := aRay("r")
	r0 := *r
	h := o.Intersect(r)
	hx.EqV(r.Start, r0.Start, "start unchanged")
	hx.EqV(r.Dir, r0.Dir, "direction unchanged")
	o.Intersect(&tracer.Ray{Start: hx.Vec{0.1, 0.2, 5}, Dir: hx.Vec{0, 0, -1}})
	o.Intersect(&tracer.Ray{Start: hx.Vec{0.1, 20, 5}, Dir: hx.Vec{0, 0.5, 1}})
	equal(o.Intersect(r), h, "same ray, same answer")
	hx.ObsHit("h", h)
}

// Composites of solids with any two pieces along the ray leave the ray where it was.
//vf: merge=1
func H_March() {
	n := 1
	if vf.Thorough() {
		n = 2
	}
	a, b := hx.Slabs("a", 2, mat, 0.01), hx.Slabs("b", n, mat, 0.01)
	var o objects.Interface
	switch vf.Conc(vf.Int("kind", 0, 5)) {
	case 0:
		o = objects.And(a, b)
	case 1:
		o = objects.Or(a, b)
	case 2:
		o = objects.Or(b, a)
	case 3:
		o = objects.Difference(a, b)
	case 4:
		o = objects.Difference(b, a)
	case 5:
		o = objects.Restrict(a, b)
	}
	r := &tracer.Ray{Start: hx.Vec{vf.Float("x", -12, 12), 1, 2}, Dir: hx.Vec{1, 0, 0}}
	r0 := *r
	h := o.Intersect(r)
	hx.EqV(r.Start, r0.Start, "start unchanged")
	hx.EqV(r.Dir, r0.Dir, "direction unchanged")
	equal(o.Intersect(r), h, "same ray, same answer")
}

// Two goroutines intersecting the same object with their own rays do not race and get the
// answers they get alone.
//vf: race=1 tries=3 threads=3
func H_Race() {
	k := vf.Conc(vf.Int("kind", 0, kinds-1))
	o := object(k)
	rays := [2]*tracer.Ray{
		{Start: hx.Vec{0.1, 0.2, 5}, Dir: hx.Vec{0.01, 0, -1}},
		{Start: hx.Vec{0.3, 4, 0.15}, Dir: hx.Vec{0.02, -1, 0.01}},
	}
	var want, got [2]tracer.HitRecord
	for i, r := range rays {
		want[i] = object(k).Intersect(r)
	}
	var wg sync.WaitGroup
	for i := range rays {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			got[i] = o.Intersect(rays[i])
			o.Inside(rays[i].At(1))
			o.Bounds()
		}()
	}
	wg.Wait()
	for i := range got {
		equal(got[i], want[i], "concurrent answer")
	}
}
