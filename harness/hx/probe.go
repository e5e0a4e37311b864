package hx

import (
	"vh/vf"

	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
)

// Probe is a scene's only object: it surrounds everything, records the rays that reach
// it and answers with the color F gives for them.
type Probe struct {
	F    func(r *tracer.Ray) colorf.Color
	Rays []tracer.Ray
	Deep []int // recursion depths
}

func (p *Probe) Intersect(r *tracer.Ray) tracer.HitRecord {
	return tracer.HitRecord{T: 1e9, Normal: Vec{0, 1, 0}, Material: p}
}

func (p *Probe) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	p.Rays = append(p.Rays, *r)
	p.Deep = append(p.Deep, ctx.CurrentRecursionDepth)
	return p.F(r)
}

// Light is a light at a fixed position, or none at all.
type Light struct {
	Pos Vec
	C   colorf.Color
	Got []Vec
	O   tracer.Object
}

func (l *Light) Object() tracer.Object { return l.O }
func (l *Light) Sample(ctx *tracer.Ctx, target Vec) (Vec, colorf.Color) {
	l.Got = append(l.Got, target)
	return l.Pos, l.C
}

// Nothing is never hit.
type Nothing struct{}

func (Nothing) Intersect(r *tracer.Ray) tracer.HitRecord { return tracer.HitRecord{} }

// Color is an arbitrary color.
func Color(n string) colorf.Color {
	return colorf.Color{R: vf.Float(n+".R", 0, 10), G: vf.Float(n+".G", 0, 10), B: vf.Float(n+".B", 0, 10)}
}

// Refl is an arbitrary reflectivity.
func Refl(n string) colorf.Color {
	return colorf.Color{R: vf.Float(n+".R", 0, 1), G: vf.Float(n+".G", 0, 1), B: vf.Float(n+".B", 0, 1)}
}

// EqC asserts equality of colors.
func EqC(a, b colorf.Color, l string) {
	vf.Assert(vf.Eq(a.R, b.R), l+" [R]")
	vf.Assert(vf.Eq(a.G, b.G), l+" [G]")
	vf.Assert(vf.Eq(a.B, b.B), l+" [B]")
}

func MulC(s float64, a colorf.Color) colorf.Color {
	return colorf.Color{R: s * a.R, G: s * a.G, B: s * a.B}
}
func Mul3(a, b colorf.Color) colorf.Color {
	return colorf.Color{R: a.R * b.R, G: a.G * b.G, B: a.B * b.B}
}
func AddC(a, b colorf.Color) colorf.Color {
	return colorf.Color{R: a.R + b.R, G: a.G + b.G, B: a.B + b.B}
}

func ObsC(n string, c colorf.Color) {
	vf.Observe(n+".R", c.R)
	vf.Observe(n+".G", c.G)
	vf.Observe(n+".B", c.B)
}
