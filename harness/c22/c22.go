// C22: PPM files hold the image, every pixel, in order; errors of the writer are reported.
package main

import (
	"errors"
	"io"
	"math"
	"strconv"
	"strings"

	"vh/vf"

	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/imagef/ppm"
)

type buf struct{ b []byte }

func (w *buf) Write(p []byte) (int, error) {
	w.b = append(w.b, p...)
	return len(p), nil
}

func img() (imagef.Image, int, int) {
	n := 2
	if vf.Thorough() {
		n = 3
	}
	w, h := vf.Conc(vf.Int("w", 1, n)), vf.Conc(vf.Int("h", 1, n))
	m := imagef.MakeImage(w, h)
	for y := range m {
		for x := range m[y] {
			k := float64(x) + float64(n*y)
			m[y][x] = colorf.Color{R: 0.05 + 0.1*k, G: 0.9 - 0.1*k, B: 0.001 * k}
		}
	}
	x, y := vf.Conc(vf.Int("x", 0, w-1)), vf.Conc(vf.Int("y", 0, h-1))
	v := vf.Float("v", -1, 2)
	switch vf.Conc(vf.Int("channel", 0, 2)) {
	case 0:
		m[y][x].R = v
	case 1:
		m[y][x].G = v
	case 2:
		m[y][x].B = v
	}
	return m, w, h
}

// same checks a stored value against the color's.
func same(v int, x float64, what string) {
	vf.Assert(vf.And(v >= 0, v <= 0xffff), what+": range")
	vf.Assert(math.Abs(float64(v)-0xffff*colorf.LinearToSRGB(x)) <= 1, what+": value")
}

func encode(w io.Writer, m imagef.Image, ascii bool) error {
	if ascii {
		return ppm.EncodeAscii16(w, m)
	}
	return ppm.Encode48BE(w, m)
}

//vf: unwind=200 steps=3000000
func H_Ascii() {
	m, w, h := img()
	b := &buf{}
	vf.Assert(ppm.EncodeAscii16(b, m) == nil, "no error")
	f := strings.Fields(string(b.b))
	vf.Assert(len(f) == 4+3*w*h, "header and three numbers per pixel")
	if len(f) != 4+3*w*h {
		return
	}
	vf.Assert(f[0] == "P3" && f[1] == strconv.Itoa(w) && f[2] == strconv.Itoa(h) && f[3] == "65535", "header")
	i := 4
	for y := range m {
		for x := range m[y] {
			for k, c := range []float64{m[y][x].R, m[y][x].G, m[y][x].B} {
				v, err := strconv.Atoi(f[i+k])
				vf.Assert(err == nil, "a number")
				same(v, c, "pixel in place")
			}
			i += 3
		}
	}
}

func H_Binary() {
	m, w, h := img()
	b := &buf{}
	vf.Assert(ppm.Encode48BE(b, m) == nil, "no error")
	head := "P6\n" + strconv.Itoa(w) + " " + strconv.Itoa(h) + "\n65535\n"
	ok := len(b.b) == len(head)+6*w*h && string(b.b[:len(head)]) == head
	vf.Assert(ok, "header and six bytes per pixel")
	if !ok {
		return
	}
	i := len(head)
	for y := range m {
		for x := range m[y] {
			for k, c := range []float64{m[y][x].R, m[y][x].G, m[y][x].B} {
				same(int(b.b[i+2*k])<<8+int(b.b[i+2*k+1]), c, "pixel in place")
			}
			i += 6
		}
	}
}

// full has room for some bytes.
type full struct{ room, got int }

var errFull = errors.New("full")

func (w *full) Write(p []byte) (int, error) {
	w.got += len(p)
	if w.got <= w.room {
		return len(p), nil
	}
	return w.room - w.got + len(p), errFull
}

// A writer that fails at any point makes the encoder fail.
//vf: unwind=200 steps=3000000
func H_Full() {
	m := imagef.MakeImage(2, 2)
	m[1][0] = colorf.Color{R: 0.1, G: 0.2, B: 1}
	ascii := vf.Bool("ascii")
	all := &buf{}
	encode(all, m, ascii)
	n := len(all.b)
	w := &full{room: vf.Conc(vf.Int("room", 0, n))}
	err := encode(w, m, ascii)
	vf.Assert((err != nil) == (w.room < n), "error reported")
}

// flaky fails once, when the given position is written, and recovers.
type flaky struct {
	at, got int
	failed  bool
}

func (w *flaky) Write(p []byte) (int, error) {
	n := w.got
	w.got += len(p)
	if !w.failed && n <= w.at && w.at < w.got {
		w.failed = true
		return 0, errFull
	}
	return len(p), nil
}

// A single failing write is not forgotten because later ones succeed.
//vf: unwind=200 steps=3000000
func H_Once() {
	m := imagef.MakeImage(2, 2)
	m[1][0] = colorf.Color{R: 0.1, G: 0.2, B: 1}
	ascii := vf.Bool("ascii")
	w := &flaky{at: vf.Conc(vf.Int("at", 0, 40))}
	err := encode(w, m, ascii)
	vf.Assert((err != nil) == w.failed, "error reported")
}
