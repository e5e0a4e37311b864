// Package sys gives harnesses files, command-line arguments and program exits: real ones
// natively, models of the functions of os, image, flag etc. in the engine (models.go).
package sys

import (
	"bytes"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
)

var dir string

// Dir is the directory of the harness's files.
func Dir() string {
	if dir == "" {
		dir = os.Getenv("VF_TMP")
		if dir == "" {
			dir, _ = os.MkdirTemp("", "vf")
		}
	}
	return dir
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

// Path is the path of a file that does not exist (yet).
func Path(name string) string { return filepath.Join(Dir(), name) }

// WriteFile creates a file.
func WriteFile(name, content string) string {
	p := Path(name)
	check(os.WriteFile(p, []byte(content), 0o644))
	return p
}

// FullFile is the path of a file on a full disk: it can be created but not written.
func FullFile(name string) string {
	p := Path(name)
	os.Remove(p)
	check(os.Symlink("/dev/full", p))
	return p
}

// ReadFile reads a file.
func ReadFile(path string) (string, bool) {
	b, err := os.ReadFile(path)
	return string(b), err == nil
}

// WriteImage creates an image file with 16 bit channels.
func WriteImage(name string, w, h int, at func(x, y int) (r, g, b int)) string {
	m := image.NewRGBA64(image.Rect(0, 0, w, h))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			r, g, b := at(x, y)
			m.SetRGBA64(x, y, color.RGBA64{R: uint16(r), G: uint16(g), B: uint16(b), A: 0xffff})
		}
	}
	p := Path(name)
	f, err := os.Create(p)
	check(err)
	check(png.Encode(f, m))
	check(f.Close())
	return p
}

// ReadImage reads an image file.
func ReadImage(path string) image.Image {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	m, _, err := image.Decode(f)
	if err != nil {
		return nil
	}
	return m
}

// Quality is the quality a JPEG file was saved with, 0 if it is none.
func Quality(path string) int {
	table := func(b []byte) string {
		if len(b) < 140 || b[2] != 0xff || b[3] != 0xdb {
			return ""
		}
		return string(b[2 : 6+132-2])
	}
	b, err := os.ReadFile(path)
	if err != nil || table(b) == "" {
		return 0
	}
	for q := 1; q <= 100; q++ {
		var e bytes.Buffer
		check(jpeg.Encode(&e, image.NewGray(image.Rect(0, 0, 1, 1)), &jpeg.Options{Quality: q}))
		if table(e.Bytes()) == table(b) {
			return q
		}
	}
	return 0
}

// Args sets the command-line arguments.
func Args(a ...string) { os.Args = append([]string{"prog"}, a...) }

var exits int
var exitLog string

// Exits runs f and reports whether it ended the program. (Natively it runs in a process of its own
// first; only its effects on files remain in that case.)
func Exits(f func()) bool {
	exits++
	if c := os.Getenv("VF_CHILD"); c != "" {
		if c == strconv.Itoa(exits) {
			f()
			os.Exit(77)
		}
		e := os.Getenv("VF_EXITS")[exits-1] == '1'
		if !e {
			f()
		}
		return e
	}
	exe, err := os.Executable()
	check(err)
	Dir()
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "VF_CHILD="+strconv.Itoa(exits), "VF_EXITS="+exitLog, "VF_TMP="+dir)
	err = cmd.Run()
	code := cmd.ProcessState.ExitCode()
	if code == 77 {
		exitLog += "0"
		f()
		return false
	}
	if code == 2 || code < 0 {
		panic("crashed")
	}
	exitLog += "1"
	return true
}
