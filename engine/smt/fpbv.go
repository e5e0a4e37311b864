package smt

import (
	"fmt"
	"math"
)

// ---- bit-vectors

func sext(w int, v uint64) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

// BVBin builds a binary bit-vector operation (same width result) with folding.
func (c *Ctx) BVBin(op string, a, b *Term) *Term {
	w := a.Sort.Width()
	if a.IsConst() && b.IsConst() {
		x, y := a.U, b.U
		sx, sy := sext(w, x), sext(w, y)
		switch op {
		case "bvadd":
			return c.BVC(w, x+y)
		case "bvsub":
			return c.BVC(w, x-y)
		case "bvmul":
			return c.BVC(w, x*y)
		case "bvand":
			return c.BVC(w, x&y)
		case "bvor":
			return c.BVC(w, x|y)
		case "bvxor":
			return c.BVC(w, x^y)
		case "bvshl":
			if y >= uint64(w) {
				return c.BVC(w, 0)
			}
			return c.BVC(w, x<<y)
		case "bvlshr":
			if y >= uint64(w) {
				return c.BVC(w, 0)
			}
			return c.BVC(w, x>>y)
		case "bvashr":
			if y >= 63 {
				y = 63
			}
			return c.BVC(w, uint64(sx>>y))
		case "bvudiv":
			if y != 0 {
				return c.BVC(w, x/y)
			}
		case "bvurem":
			if y != 0 {
				return c.BVC(w, x%y)
			}
		case "bvsdiv":
			if sy != 0 && sy != -1 {
				return c.BVC(w, uint64(sx/sy))
			}
			if sy == -1 {
				return c.BVC(w, uint64(-sx))
			}
		case "bvsrem":
			if sy != 0 && sy != -1 {
				return c.BVC(w, uint64(sx%sy))
			}
			if sy == -1 {
				return c.BVC(w, 0)
			}
		}
	}
	zero := func(t *Term) bool { return t.IsConst() && t.U == 0 }
	switch op {
	case "bvadd", "bvor", "bvxor":
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
	case "bvsub", "bvshl", "bvlshr", "bvashr":
		if zero(b) {
			return a
		}
	case "bvand", "bvmul":
		if zero(a) {
			return a
		}
		if zero(b) {
			return b
		}
	}
	return c.app(op, a.Sort, a, b)
}

func (c *Ctx) BVCmp(op string, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		w := a.Sort.Width()
		x, y := a.U, b.U
		sx, sy := sext(w, x), sext(w, y)
		switch op {
		case "bvult":
			return c.Bool(x < y)
		case "bvule":
			return c.Bool(x <= y)
		case "bvslt":
			return c.Bool(sx < sy)
		case "bvsle":
			return c.Bool(sx <= sy)
		}
	}
	if a == b {
		return c.Bool(op == "bvule" || op == "bvsle")
	}
	return c.app(op, Bool, a, b)
}

func (c *Ctx) BVNeg(a *Term) *Term {
	if a.IsConst() {
		return c.BVC(a.Sort.Width(), -a.U)
	}
	return c.app("bvneg", a.Sort, a)
}

func (c *Ctx) BVNot(a *Term) *Term {
	if a.IsConst() {
		return c.BVC(a.Sort.Width(), ^a.U)
	}
	return c.app("bvnot", a.Sort, a)
}

// BVResize converts between widths, extending by the signedness of the source.
func (c *Ctx) BVResize(a *Term, w int, signed bool) *Term {
	ow := a.Sort.Width()
	if ow == w {
		return a
	}
	if a.IsConst() {
		if signed {
			return c.BVC(w, uint64(sext(ow, a.U)))
		}
		return c.BVC(w, a.U)
	}
	if w < ow {
		return c.app(fmt.Sprintf("(_ extract %d 0)", w-1), BV(w), a)
	}
	if signed {
		return c.app(fmt.Sprintf("(_ sign_extend %d)", w-ow), BV(w), a)
	}
	return c.app(fmt.Sprintf("(_ zero_extend %d)", w-ow), BV(w), a)
}

// ---- floating point

func (c *Ctx) rne() *Term { return c.rm("RNE") }
func (c *Ctx) rm(n string) *Term {
	return c.intern(&Term{Op: "const", Sort: Bool, Name: n}, "rm|"+n)
}

func rnd(s Sort, f float64) float64 {
	if s == FP32 {
		return float64(float32(f))
	}
	return f
}

// FPBin: fp.add fp.sub fp.mul fp.div (RNE).
func (c *Ctx) FPBin(op string, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		x, y := a.F, b.F
		switch op {
		case "fp.add":
			return c.FPC(a.Sort, rnd(a.Sort, x+y))
		case "fp.sub":
			return c.FPC(a.Sort, rnd(a.Sort, x-y))
		case "fp.mul":
			return c.FPC(a.Sort, rnd(a.Sort, x*y))
		case "fp.div":
			return c.FPC(a.Sort, rnd(a.Sort, x/y))
		}
	}
	if op == "fp.mul" {
		if a.IsConst() && a.F == 1 {
			return b
		}
		if b.IsConst() && b.F == 1 {
			return a
		}
	}
	if op == "fp.div" && b.IsConst() && b.F == 1 {
		return a
	}
	return c.app(op, a.Sort, c.rne(), a, b)
}

func (c *Ctx) FPNeg(a *Term) *Term {
	if a.IsConst() {
		return c.FPC(a.Sort, math.Copysign(a.F, -1*sgn(a.F)))
	}
	return c.app("fp.neg", a.Sort, a)
}

func sgn(f float64) float64 {
	if math.Signbit(f) {
		return -1
	}
	return 1
}

func (c *Ctx) FPAbs(a *Term) *Term {
	if a.IsConst() {
		return c.FPC(a.Sort, math.Abs(a.F))
	}
	return c.app("fp.abs", a.Sort, a)
}

func (c *Ctx) FPSqrt(a *Term) *Term {
	if a.IsConst() {
		return c.FPC(a.Sort, rnd(a.Sort, math.Sqrt(a.F)))
	}
	return c.app("fp.sqrt", a.Sort, c.rne(), a)
}

// FPRound: mode RTN (floor), RTP (ceil), RTZ (trunc), RNA (round), RNE.
func (c *Ctx) FPRound(mode string, a *Term) *Term {
	if a.IsConst() {
		switch mode {
		case "RTN":
			return c.FPC(a.Sort, math.Floor(a.F))
		case "RTP":
			return c.FPC(a.Sort, math.Ceil(a.F))
		case "RTZ":
			return c.FPC(a.Sort, math.Trunc(a.F))
		case "RNA":
			return c.FPC(a.Sort, math.Round(a.F))
		case "RNE":
			return c.FPC(a.Sort, math.RoundToEven(a.F))
		}
	}
	return c.app("fp.roundToIntegral", a.Sort, c.rm(mode), a)
}

func (c *Ctx) FPCmp(op string, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		switch op {
		case "fp.lt":
			return c.Bool(a.F < b.F)
		case "fp.leq":
			return c.Bool(a.F <= b.F)
		case "fp.eq":
			return c.Bool(a.F == b.F)
		}
	}
	return c.app(op, Bool, a, b)
}

func (c *Ctx) FPIs(op string, a *Term) *Term { // fp.isNaN fp.isInfinite fp.isNegative fp.isZero
	if a.IsConst() {
		switch op {
		case "fp.isNaN":
			return c.Bool(a.F != a.F)
		case "fp.isInfinite":
			return c.Bool(math.IsInf(a.F, 0))
		case "fp.isNegative":
			return c.Bool(math.Signbit(a.F) && a.F == a.F)
		case "fp.isZero":
			return c.Bool(a.F == 0)
		}
	}
	return c.app(op, Bool, a)
}

func fpIdx(s Sort) string {
	if s == FP32 {
		return "8 24"
	}
	return "11 53"
}

// FPToFP converts between FP sorts.
func (c *Ctx) FPToFP(a *Term, s Sort) *Term {
	if a.Sort == s {
		return a
	}
	if a.IsConst() {
		return c.FPC(s, a.F)
	}
	return c.app("(_ to_fp "+fpIdx(s)+")", s, c.rne(), a)
}

// BVToFP converts an integer to FP.
func (c *Ctx) BVToFP(a *Term, signed bool, s Sort) *Term {
	if a.IsConst() {
		if signed {
			return c.FPC(s, float64(sext(a.Sort.Width(), a.U)))
		}
		return c.FPC(s, float64(a.U))
	}
	if signed {
		return c.app("(_ to_fp "+fpIdx(s)+")", s, c.rne(), a)
	}
	return c.app("(_ to_fp_unsigned "+fpIdx(s)+")", s, c.rne(), a)
}

// FPToBV truncates toward zero. Out-of-range is unspecified in SMT-LIB, as in Go.
func (c *Ctx) FPToBV(a *Term, w int, signed bool) *Term {
	if a.IsConst() && a.F == a.F && math.Abs(a.F) < 9e18 {
		if signed {
			return c.BVC(w, uint64(int64(a.F)))
		}
		if a.F >= 0 {
			return c.BVC(w, uint64(a.F))
		}
	}
	if signed {
		return c.app(fmt.Sprintf("(_ fp.to_sbv %d)", w), BV(w), c.rm("RTZ"), a)
	}
	return c.app(fmt.Sprintf("(_ fp.to_ubv %d)", w), BV(w), c.rm("RTZ"), a)
}

// BitsToFP reinterprets bits.
func (c *Ctx) BitsToFP(a *Term) *Term {
	w := a.Sort.Width()
	if w == 32 {
		if a.IsConst() {
			return c.FPC(FP32, float64(math.Float32frombits(uint32(a.U))))
		}
		return c.app("(_ to_fp 8 24)", FP32, a)
	}
	if a.IsConst() {
		return c.FPC(FP64, math.Float64frombits(a.U))
	}
	return c.app("(_ to_fp 11 53)", FP64, a)
}
