package hx

import (
	"vh/vf"

	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
)

// Solid is a solid made of up to two slabs lo<x<hi, as wide as the world in y and z.
// Rays must run along x. It implements objects.Interface in the plainest way.
type Solid struct {
	Lo, Hi []float64
	M      tracer.Material
	N      int // number of Intersect calls
}

// Slabs is an arbitrary solid of n slabs with edges at least gap apart.
func Slabs(name string, n int, m tracer.Material, gap float64) *Solid {
	s := &Solid{M: m}
	prev := 0.0
	for i := 0; i < n; i++ {
		k := string(rune('0' + i))
		lo, hi := vf.Float(name+".lo"+k, -10, 10), vf.Float(name+".hi"+k, -10, 10)
		if i > 0 {
			vf.Assume(lo > prev+gap)
		}
		vf.Assume(hi > lo+gap)
		s.Lo, s.Hi = append(s.Lo, lo), append(s.Hi, hi)
		prev = hi
	}
	return s
}

// Edges lists the surfaces.
func (s *Solid) Edges() []float64 {
	var e []float64
	for i := range s.Lo {
		e = append(e, s.Lo[i], s.Hi[i])
	}
	return e
}

// In tells whether x is inside, without branching.
func (s *Solid) In(x float64) bool {
	in := false
	for i := range s.Lo {
		in = vf.Or(in, vf.And(x > s.Lo[i], x < s.Hi[i]))
	}
	return in
}

func (s *Solid) Inside(p Vec) bool { return s.In(p[0]) }

func (s *Solid) Bounds() objects.BoundingBox {
	n := len(s.Lo)
	return objects.BoundingBox{Min: Vec{s.Lo[0], -100, -100}, Max: Vec{s.Hi[n-1], 100, 100}}
}

func (s *Solid) Intersect(r *tracer.Ray) tracer.HitRecord {
	s.N++
	x, d := r.Start[0], r.Dir[0]
	e := s.Edges()
	for i := range e {
		j := i
		if d < 0 {
			j = len(e) - 1 - i
		}
		t := (e[j] - x) / d
		if t > 0 {
			n := Vec{-1, 0, 0}
			if j%2 == 1 {
				n = Vec{1, 0, 0}
			}
			return tracer.HitRecord{T: t, Normal: n, Material: s.M, Local: Vec{e[j], 0, 0}}
		}
	}
	return tracer.HitRecord{}
}

// Stub returns a prepared hit and records the ray it is given.
type Stub struct {
	B    objects.BoundingBox
	H    tracer.HitRecord
	In   bool
	Got  tracer.Ray
	GotP Vec
	N    int
}

func (s *Stub) Bounds() objects.BoundingBox { return s.B }
func (s *Stub) Inside(p Vec) bool           { s.GotP = p; return s.In }
func (s *Stub) Intersect(r *tracer.Ray) tracer.HitRecord {
	s.N++
	s.Got = *r
	return s.H
}

// BoxIn is an arbitrary bounding box of the given range with a non-empty interior.
func BoxIn(n string, r float64) objects.BoundingBox {
	b := objects.BoundingBox{Min: VR(n+".min", r), Max: VR(n+".max", r)}
	for i := range b.Min {
		vf.Assume(b.Min[i] < b.Max[i])
	}
	return b
}

// InBox tells whether p is in the closed box, without branching.
func InBox(b objects.BoundingBox, p Vec) bool {
	return vf.And(vf.Le(b.Min[0], p[0]), vf.Le(p[0], b.Max[0]), vf.Le(b.Min[1], p[1]), vf.Le(p[1], b.Max[1]), vf.Le(b.Min[2], p[2]), vf.Le(p[2], b.Max[2]))
}

// InBoxS tells whether p is strictly inside the box.
func InBoxS(b objects.BoundingBox, p Vec) bool {
	return vf.And(b.Min[0] < p[0], p[0] < b.Max[0], b.Min[1] < p[1], p[1] < b.Max[1], b.Min[2] < p[2], p[2] < b.Max[2])
}
