// Package hx holds helpers shared by the harnesses.
package hx

import (
	"vh/vf"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
)

type Vec = geom.Vec

// R is the default coordinate range.
const R = 100

// V is an arbitrary vector with components in [-100,100].
func V(n string) Vec {
	return Vec{vf.Float(n+".x", -R, R), vf.Float(n+".y", -R, R), vf.Float(n+".z", -R, R)}
}

// VR is an arbitrary vector with components in [-r,r].
func VR(n string, r float64) Vec {
	return Vec{vf.Float(n+".x", -r, r), vf.Float(n+".y", -r, r), vf.Float(n+".z", -r, r)}
}

// U is an arbitrary unit vector.
func U(n string) Vec {
	x, y, z := vf.Unit3(n)
	return Vec{x, y, z}
}

// VNZ is an arbitrary non-zero vector.
func VNZ(n string) Vec {
	v := V(n)
	vf.Assume(Dot(v, v) > 0.0001)
	return v
}

// Reference vector algebra, independent of the code under test.
func Add(a, b Vec) Vec                 { return Vec{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func Sub(a, b Vec) Vec                 { return Vec{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func Mul(s float64, a Vec) Vec         { return Vec{s * a[0], s * a[1], s * a[2]} }
func MAdd(a Vec, s float64, b Vec) Vec { return Add(a, Mul(s, b)) }
func Dot(a, b Vec) float64             { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func Cross(a, b Vec) Vec {
	return Vec{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}

// EqV asserts equality of vectors.
func EqV(a, b Vec, label string) {
	vf.Assert(vf.Eq(a[0], b[0]), label+" [x]")
	vf.Assert(vf.Eq(a[1], b[1]), label+" [y]")
	vf.Assert(vf.Eq(a[2], b[2]), label+" [z]")
}

// SameV is the conjunction of component equalities.
func SameV(a, b Vec) bool {
	return vf.And(vf.Eq(a[0], b[0]), vf.Eq(a[1], b[1]), vf.Eq(a[2], b[2]))
}

// ObsV observes a vector.
func ObsV(n string, a Vec) {
	vf.Observe(n+".x", a[0])
	vf.Observe(n+".y", a[1])
	vf.Observe(n+".z", a[2])
}

// Affine is an arbitrary affine transform.
func Affine(n string) *geom.AffineTransform {
	return &geom.AffineTransform{A: geom.Matrix{VR(n+"A0", 10), VR(n+"A1", 10), VR(n+"A2", 10)}, B: V(n + "B")}
}

// Apply is the reference application of an affine transform: columns A[0..2], offset B.
func Apply(t *geom.AffineTransform, p Vec) Vec {
	return Add(ApplyDir(t, p), t.B)
}
func ApplyDir(t *geom.AffineTransform, p Vec) Vec {
	return Add(Mul(p[0], t.A[0]), Add(Mul(p[1], t.A[1]), Mul(p[2], t.A[2])))
}

// Det is the determinant.
func Det(m geom.Matrix) float64 { return Dot(m[0], Cross(m[1], m[2])) }

// Mat is a material identified by a number; it shades to black.
type Mat struct{ ID int }

func (m *Mat) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	return colorf.Color{}
}

// Ray is an arbitrary ray whose direction is not zero and not normalised.
func Ray(n string) *tracer.Ray {
	r := &tracer.Ray{Start: V(n + ".s"), Dir: VR(n+".d", 10)}
	vf.Assume(Dot(r.Dir, r.Dir) > 0.01)
	return r
}

// Ray1 is an arbitrary ray with a direction of unit length.
func Ray1(n string) *tracer.Ray {
	return &tracer.Ray{Start: V(n + ".s"), Dir: U(n + ".d")}
}

// At is the reference point on a ray.
func At(r *tracer.Ray, t float64) Vec { return MAdd(r.Start, t, r.Dir) }

// ObsHit observes a hit record.
func ObsHit(n string, h tracer.HitRecord) {
	vf.Observe(n+".T", h.T)
	ObsV(n+".N", h.Normal)
	ObsV(n+".L", h.Local)
}
