package view

import (
	"image"
	"image/draw"
	"io"

	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
)

func gray(r float64) colorf.Color { return colorf.Color{R: r} }

var drawn map[*image.RGBA]image.Image

// DrawM models image/draw.Draw for a whole picture.
func DrawM(dst draw.Image, r image.Rectangle, src image.Image, sp image.Point, op draw.Op) {
	if drawn == nil {
		drawn = map[*image.RGBA]image.Image{}
	}
	if r.Min == (image.Point{}) && sp == (image.Point{}) {
		drawn[dst.(*image.RGBA)] = src
	}
}

// TagM models Tag.
func TagM(m *image.RGBA) int {
	p, ok := drawn[m].(imagef.Image)
	if !ok || p[0][0].G != 0 || p[0][0].B != 0 {
		return -1
	}
	for i := 0; i < 20; i++ {
		if p[0][0].R == Level(i) {
			return i
		}
	}
	return -1
}

func ReadAllM(r io.Reader) ([]byte, error) { return io.ReadAll(r) }
