// C21: colors: linear light is stored as sRGB, clipped, monotone and in the right channel.
package main

import (
	"math"

	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/imagef/colorf"
)

// std is the curve of the sRGB standard.
func std(x float64) float64 {
	if x <= 0.0031308 {
		return 12.92 * x
	}
	return 1.055*math.Pow(x, 1./2.4) - 0.055
}

// Clipped to [0,1], and the curve of the standard within half a percent.
func H_Curve() {
	x := vf.Float("x", -2, 3)
	y := colorf.LinearToSRGB(x)
	switch {
	case x <= 0:
		vf.Assert(y == 0, "nothing below black")
	case x >= 1:
		vf.Assert(y == 1, "nothing above white")
	default:
		vf.Assert(vf.And(y >= 0, y <= 1), "between 0 and 1")
		vf.Assert(math.Abs(y-std(x)) <= 0.0051, "the curve of the standard, within half a percent")
		if x <= 0.0031308 {
			vf.Assert(vf.Eq(y, 12.92*x), "linear near black")
		}
	}
}

func H_Monotone() {
	x, y := vf.Float("x", -2, 3), vf.Float("y", -2, 3)
	vf.Assume(x < y)
	a, b := colorf.LinearToSRGB(x), colorf.LinearToSRGB(y)
	vf.Assert(a <= b, "brighter light is not darker")
	vf.Assert(vf.Or(a < b, a == 1, b == 0), "different light differs")
}

// The standard's value at one half.
func H_Standard() {
	vf.Assert(vf.Near(colorf.LinearToSRGB(0.5), 0.735357, 1e-5), "one half as in the standard")
}

// Reading back is the inverse of the standard's curve: loaded images keep their values.
func H_Inverse() {
	s := vf.Float("s", 0, 1)
	x := colorf.SRGBToLinear(s)
	vf.Assert(vf.And(x >= 0, vf.Or(s > 1-1e-9, x <= 1)), "between 0 and 1")
	vf.Assume(vf.Or(s < 0.0404, s > 0.0405)) // the standard's rounded constants do not meet in between
	vf.Assert(vf.Near(std(x), s, 1e-6), "inverse of the curve of the standard")
	t := vf.Float("t", 0, 1)
	vf.Assume(s+1e-6 < t)
	vf.Assert(colorf.SRGBToLinear(t) > x, "monotone")
}

// The 16 bit channels are those of the curve, rounded or truncated; opaque.
func H_RGBA() {
	c := colorf.Color{R: vf.Float("R", -10, 1e6), G: vf.Float("G", -10, 1e6), B: vf.Float("B", -10, 1e6)}
	r, g, b, a := c.RGBA()
	vf.Assert(a == 0xffff, "opaque")
	ch := func(u uint32, x float64, n string) {
		vf.Assert(u <= 0xffff, n+": 16 bits")
		vf.Assert(math.Abs(float64(u)-0xffff*colorf.LinearToSRGB(x)) <= 1, n+": the curve")
	}
	ch(r, c.R, "R")
	ch(g, c.G, "G")
	ch(b, c.B, "B")
}

func H_Algebra() {
	a, b, s := hx.Color("a"), hx.Color("b"), vf.Float("s", -3, 3)
	eq := func(x colorf.Color, r, g, b float64, l string) {
		vf.Assert(vf.And(vf.Eq(x.R, r), vf.Eq(x.G, g), vf.Eq(x.B, b)), l)
	}
	eq(a.Mul(s), s*a.R, s*a.G, s*a.B, "Mul")
	eq(a.Mul3(b), b.R*a.R, b.G*a.G, b.B*a.B, "Mul3")
	eq(a.Add(b), b.R+a.R, b.G+a.G, b.B+a.B, "Add")
	eq(a.MAdd(s, b), a.R+s*b.R, a.G+s*b.G, a.B+s*b.B, "MAdd")
	eq(colorf.Gray(s), s, s, s, "Gray")
	vf.Assert(vf.Eq(3*a.Gray(), a.R+a.G+a.B), "mean")
	m := a.Max()
	vf.Assert(vf.And(m >= a.R, m >= a.G, m >= a.B, vf.Or(m == a.R, m == a.G, m == a.B)), "Max")
	vf.Assert(a.At(hx.V("p")) == a && a.AtUV(s, s) == a, "a color is a uniform texture")
	for k := -3; k <= 3; k++ {
		eq(a.EV(float64(k)), a.R*math.Exp2(float64(k)), a.G*math.Exp2(float64(k)), a.B*math.Exp2(float64(k)), "EV")
	}
}

func H_NaN() {
	c := colorf.Color{R: vf.FloatAny("R"), G: vf.FloatAny("G"), B: vf.FloatAny("B")}
	vf.Assert(c.IsNaN() == vf.Or(math.IsNaN(c.R), math.IsNaN(c.G), math.IsNaN(c.B)), "NaN in any channel")
}
