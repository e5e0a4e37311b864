// C24: images: pixels are independent memory, addressed by column and row.
package main

import (
	"vh/hx"
	"vh/vf"

	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
)

func size() (int, int) {
	return vf.Conc(vf.Int("w", 1, 4)), vf.Conc(vf.Int("h", 1, 4))
}

// Writing a pixel changes that pixel only; the size is the one asked for.
func H_Pixels() {
	w, h := size()
	m := imagef.MakeImage(w, h)
	vf.Assert(len(m) == h && m.NumPixels() == w*h, "rows")
	gw, gh := m.Size()
	vf.Assert(gw == w && gh == h && m.Bounds().Dx() == w && m.Bounds().Dy() == h && m.Bounds().Min.X == 0 && m.Bounds().Min.Y == 0, "size")
	x, y := vf.Int("x", 0, w-1), vf.Int("y", 0, h-1)
	c := hx.Color("c")
	vf.Assume(c != colorf.Color{})
	m[y][x] = c
	for j := 0; j < h; j++ {
		vf.Assert(len(m[j]) == w, "columns")
		for i := 0; i < w; i++ {
			want := colorf.Color{}
			if i == x && j == y {
				want = c
			}
			vf.Assert(m.At(i, j) == want, "only that pixel")
		}
	}
}

// The same on larger images: every pixel is written with a value of its own, and all are read back.
// vf: unwind=200 unwind_t=200 steps=9000000
func H_LargePixels() {
	s := [][2]int{{16, 17}, {33, 9}, {8, 40}, {48, 3}, {1, 70}, {16, 3}, {64, 65}}[vf.Conc(vf.Int("size", 0, 6))]
	w, h := s[0], s[1]
	if w == 64 && !vf.Thorough() {
		w, h = 32, 33
	}
	m := imagef.MakeImage(w, h)
	gw, gh := m.Size()
	vf.Assert(gw == w && gh == h && m.NumPixels() == w*h, "size")
	a := vf.Float("a", 0, 10)
	for j := 0; j < h; j++ {
		for i := 0; i < w; i++ {
			m[j][i] = colorf.Color{R: a, G: float64(i), B: float64(j)}
		}
	}
	for j := 0; j < h; j++ {
		for i := 0; i < w; i++ {
			vf.Assert(m.At(i, j) == colorf.Color{R: a, G: float64(i), B: float64(j)}, "pixels do not share memory")
		}
	}
	c := m.Copy()
	for j := 0; j < h; j++ {
		for i := 0; i < w; i++ {
			m[j][i] = colorf.Color{}
		}
	}
	for j := 0; j < h; j++ {
		for i := 0; i < w; i++ {
			vf.Assert(c.At(i, j) == colorf.Color{R: a, G: float64(i), B: float64(j)}, "a copy shares nothing")
		}
	}
}

// A copy is equal and independent.
func H_Copy() {
	w, h := size()
	m := imagef.MakeImage(w, h)
	for j := range m {
		for i := range m[j] {
			m[j][i] = colorf.Color{R: float64(i), G: float64(j), B: vf.Float("b", 0, 1)}
		}
	}
	c := m.Copy()
	x, y := vf.Int("x", 0, w-1), vf.Int("y", 0, h-1)
	vf.Assert(c.At(x, y) == m.At(x, y) && m[y][x].R == float64(x) && m[y][x].G == float64(y), "equal")
	c[y][x].R = -1
	vf.Assert(m[y][x].R == float64(x), "original unchanged")
	m[y][x].G = -2
	vf.Assert(c[y][x].G == float64(y), "copy unchanged")
	gw, gh := c.Size()
	vf.Assert(gw == w && gh == h, "size")
}

// An empty image.
func H_Empty() {
	var m imagef.Image
	w, h := m.Size()
	vf.Assert(w == 0 && h == 0 && m.NumPixels() == 0 && m.Bounds().Empty(), "empty")
}
