package sys

import (
	"errors"
	"image"
	"image/color"
	"image/jpeg"
	"io"
	"os"
	"strconv"
)

// Models, used in the engine only.

type file struct {
	data []byte
	full bool
}

type handle struct {
	f      *file
	pos    int
	w      bool
	closed bool
}

var files map[string]*file
var handles map[*os.File]*handle
var images []image.Image

func setup() {
	if files == nil {
		files, handles = map[string]*file{}, map[*os.File]*handle{}
		dirs = map[string]bool{"/vf/": true}
	}
}

func PathM(name string) string { return "/vf/" + name }

func WriteFileM(name, content string) string {
	setup()
	p := PathM(name)
	files[p] = &file{data: []byte(content)}
	return p
}

func FullFileM(name string) string {
	setup()
	p := PathM(name)
	files[p] = &file{full: true}
	return p
}

func ReadFileM(path string) (string, bool) {
	setup()
	f := files[path]
	if f == nil {
		return "", false
	}
	return string(f.data), true
}

type pixels struct {
	w, h int
	p    []color.RGBA64
	q    int // of JPEG files
}

func (m *pixels) ColorModel() color.Model { return nil }
func (m *pixels) Bounds() image.Rectangle { return image.Rect(0, 0, m.w, m.h) }
func (m *pixels) At(x, y int) color.Color { return m.p[y*m.w+x] }

func put(m image.Image) []byte {
	images = append(images, m)
	return []byte{'V', 'F', 'I', 'M', 'G', byte(len(images) - 1)}
}

func WriteImageM(name string, w, h int, at func(x, y int) (r, g, b int)) string {
	setup()
	m := &pixels{w: w, h: h, p: make([]color.RGBA64, w*h)}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			r, g, b := at(x, y)
			m.p[y*w+x] = color.RGBA64{R: uint16(r), G: uint16(g), B: uint16(b), A: 0xffff}
		}
	}
	p := PathM(name)
	files[p] = &file{data: put(m)}
	return p
}

func get(b []byte) image.Image {
	if len(b) != 6 || string(b[:5]) != "VFIMG" {
		return nil
	}
	return images[b[5]]
}

func ReadImageM(path string) image.Image {
	setup()
	f := files[path]
	if f == nil {
		return nil
	}
	return get(f.data)
}

// EncodeM models png.Encode and jpeg.Encode.
func EncodeM(w io.Writer, img image.Image) error {
	b := img.Bounds()
	m := &pixels{w: b.Dx(), h: b.Dy()}
	if m.w <= 0 || m.h <= 0 {
		return errors.New("invalid format: invalid image size")
	}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			r, g, b, a := img.At(x, y).RGBA()
			m.p = append(m.p, color.RGBA64{R: uint16(r), G: uint16(g), B: uint16(b), A: uint16(a)})
		}
	}
	_, err := w.Write(put(m))
	return err
}

func EncodeJPEGM(w io.Writer, img image.Image, o *jpeg.Options) error {
	q := jpeg.DefaultQuality
	if o != nil {
		q = o.Quality
	}
	if err := EncodeM(w, img); err != nil {
		return err
	}
	images[len(images)-1].(*pixels).q = q
	return nil
}

func QualityM(path string) int {
	m := ReadImageM(path)
	if m == nil {
		return 0
	}
	return m.(*pixels).q
}

func DecodeM(r io.Reader) (image.Image, string, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, "", err
	}
	m := get(b)
	if m == nil {
		return nil, "", errors.New("image: unknown format")
	}
	return m, "png", nil
}

type pathError struct{ op, path, what string }

func (e *pathError) Error() string { return e.op + " " + e.path + ": " + e.what }

func open(f *file, w bool) *os.File {
	o := new(os.File)
	handles[o] = &handle{f: f, w: w}
	return o
}

func OpenM(name string) (*os.File, error) {
	setup()
	f := files[name]
	if f == nil {
		return nil, &pathError{"open", name, "no such file or directory"}
	}
	return open(f, false), nil
}

func CreateM(name string) (*os.File, error) {
	setup()
	if len(name) < 4 || name[:4] != "/vf/" {
		return nil, &pathError{"open", name, "permission denied"}
	}
	if !dirs[parent(name)] {
		return nil, &pathError{"open", name, "no such file or directory"}
	}
	f := files[name]
	if f == nil {
		f = &file{}
		files[name] = f
	}
	f.data = nil
	return open(f, true), nil
}

func ReadM(o *os.File, p []byte) (int, error) {
	h := handles[o]
	if h == nil || h.closed || h.w {
		return 0, &pathError{"read", "", "bad file"}
	}
	if len(p) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.f.data) {
		return 0, io.EOF
	}
	n := copy(p, h.f.data[h.pos:])
	h.pos += n
	return n, nil
}

func WriteM(o *os.File, p []byte) (int, error) {
	h := handles[o]
	if h == nil { // standard output
		return len(p), nil
	}
	if h.closed || !h.w {
		return 0, &pathError{"write", "", "bad file"}
	}
	if h.f.full && len(p) > 0 {
		return 0, &pathError{"write", "", "no space left on device"}
	}
	h.f.data = append(h.f.data, p...)
	return len(p), nil
}

func CloseM(o *os.File) error {
	h := handles[o]
	if h == nil || h.closed {
		return &pathError{"close", "", "file already closed"}
	}
	h.closed = true
	return nil
}

var dirs map[string]bool

func parent(name string) string {
	for len(name) > 0 && name[len(name)-1] != '/' {
		name = name[:len(name)-1]
	}
	return name
}

func MkdirM(name string, perm os.FileMode) error {
	setup()
	if name[len(name)-1] == '/' {
		name = name[:len(name)-1]
	}
	if dirs[name+"/"] {
		return &pathError{"mkdir", name, "file exists"}
	}
	if !dirs[parent(name)] {
		return &pathError{"mkdir", name, "no such file or directory"}
	}
	dirs[name+"/"] = true
	return nil
}

func MkdirAllM(name string, perm os.FileMode) error {
	setup()
	if len(name) < 4 || name[:4] != "/vf/" {
		return &pathError{"mkdir", name, "permission denied"}
	}
	for i := 4; i < len(name); i++ {
		if name[i] == '/' {
			dirs[name[:i+1]] = true
		}
	}
	dirs[name+"/"] = true
	return nil
}

func ExitsM(f func()) bool {
	f()
	return false
}

// ---- flags

var flagInts map[string]*int
var flagStrings map[string]*string
var flagBools map[string]*bool
var flagFloats map[string]*float64
var args, rest []string
var parsed bool

func IntM(name string, v int, usage string) *int {
	if flagInts == nil {
		flagInts = map[string]*int{}
	}
	flagInts[name] = &v
	return &v
}

func StringM(name string, v string, usage string) *string {
	if flagStrings == nil {
		flagStrings = map[string]*string{}
	}
	flagStrings[name] = &v
	return &v
}

func BoolM(name string, v bool, usage string) *bool {
	if flagBools == nil {
		flagBools = map[string]*bool{}
	}
	flagBools[name] = &v
	return &v
}

func Float64M(name string, v float64, usage string) *float64 {
	if flagFloats == nil {
		flagFloats = map[string]*float64{}
	}
	flagFloats[name] = &v
	return &v
}

func ArgsM(a ...string) { args = a }

func ParseM() {
	parsed = true
	a := args
	for len(a) > 0 && len(a[0]) > 1 && a[0][0] == '-' {
		n := a[0][1:]
		a = a[1:]
		if b := flagBools[n]; b != nil {
			*b = true
			continue
		}
		if len(a) == 0 {
			os.Exit(2)
		}
		if s := flagStrings[n]; s != nil {
			*s = a[0]
		} else if i := flagInts[n]; i != nil {
			k, err := strconv.Atoi(a[0])
			if err != nil {
				os.Exit(2)
			}
			*i = k
		} else {
			os.Exit(2)
		}
		a = a[1:]
	}
	rest = a
}

func ParsedM() bool   { return parsed }
func NArgM() int      { return len(rest) }
func RestM() []string { return rest }
