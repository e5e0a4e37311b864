// C26: reading OBJ files.
package main

import (
	"vh/hx"
	"vh/sys"
	"vh/vf"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
	"github.com/barnex/bruteray/tracer/objects/obj"
)

func num(n string) float64 { return vf.Float(n, -100, 100) }

func vline(v geom.Vec) string {
	return "v " + vf.FltTok(v[0]) + " " + vf.FltTok(v[1]) + " " + vf.FltTok(v[2])
}

func near(a, b geom.Vec, what string) {
	for i := range a {
		vf.Assert(vf.Near(a[i], b[i], 1e-4), what)
	}
}

// What is in the file is in the result, in order: vertices, and the faces of each material; notes, names,
// normals and texture coordinates are skipped.
func H_Parse() {
	v := []geom.Vec{{num("ax"), num("ay"), num("az")}, {1.5, num("by"), -0.25}, {0, 2, num("cz")}, {1, 2, 3}}
	nv := vf.Conc(vf.Int("vertices", 3, 4))
	skip := []string{"", "# a b c", "o thing", "vn 0 1 0", "vt 0 1", "s off", "g left", "mtllib a.mtl", "l 1 2", "   "}[vf.Conc(vf.Int("skip", 0, 9))]
	sep := []string{" ", "  ", "\t"}[vf.Conc(vf.Int("sep", 0, 2))]
	eol := "\n"
	if vf.Bool("crlf") {
		eol = "\r\n"
	}
	text := skip + eol
	for i, v := range v[:nv] {
		text += vline(v)
		if i == 1 && vf.Bool("w") {
			text += []string{" 1.0", " 0", " -2.5"}[vf.Conc(vf.Int("fourth", 0, 2))]
		}
		text += eol
	}
	idx := [4]int{vf.Int("i", 1, nv), vf.Int("j", 1, nv), 1, 2}
	suffix := []string{"", "/1", "/1/2", "//3"}[vf.Conc(vf.Int("suffix", 0, 3))]
	n := vf.Conc(vf.Int("corners", 3, 4))
	face := "f"
	for _, i := range idx[:n] {
		face += sep + vf.IntTok(i) + suffix
	}
	named := vf.Bool("named")
	name := ""
	if named {
		name = "red"
		text += "usemtl red" + eol
	}
	text += skip + eol + face + eol + skip + eol + "usemtl blue" + eol + skip + eol + "f 1 2 3" + eol + skip + eol + "f 3 2 1"
	if vf.Bool("newline") {
		text += eol
	}
	o, err := obj.ParseFile(sys.WriteFile("a.obj", text))
	vf.Assert(err == nil, "no error")
	vf.Assert(len(o.Vertices) == nv, "vertices")
	for i := range o.Vertices {
		near(o.Vertices[i], v[i], "vertex")
	}
	vf.Assert(len(o.Faces) == 2 && len(o.Faces[name]) == 1 && len(o.Faces["blue"]) == 2, "faces of each material")
	f := o.Faces[name][0]
	vf.Assert(len(f) == n, "corners")
	for i := range f {
		vf.Assert(int(f[i]) == idx[i]-1, "corner")
	}
	b := o.Faces["blue"]
	vf.Assert(len(b[0]) == 3 && b[0][0] == 0 && b[0][1] == 1 && b[0][2] == 2 && b[1][0] == 2 && b[1][2] == 0, "faces in order")
}

const head = "v 0 0 0\nv 1 0 0\nv 0 1 0\n"

// Files that make no sense are refused.
func H_Refuse() {
	bad := []string{
		"v 1 2", "v 1 2 3 4 5", "v", "v 1 2 x", "v 1 2 1e", "f 1 2", "f 1 2 3 1 2", "f", "f 1 2 x", "f 1 2 1.5", "f 1 2 /3",
		"usemtl", "usemtl a b", "x 1 2 3", "vertex 1 2 3", "f 1 2 99999999999",
	}
	k := vf.Conc(vf.Int("k", 0, len(bad)))
	text := head + "f 1 2 3\n"
	ok := false
	switch {
	case k < len(bad):
		text += bad[k] + "\n"
	default:
		i := vf.Int("i", -5, 10)
		ok = vf.And(i >= 1, i <= 3)
		n := [3]string{"1", "2", "3"}
		n[vf.Conc(vf.Int("corner", 0, 2))] = vf.IntTok(i)
		text += "f " + n[0] + " " + n[1] + " " + n[2] + "\n"
	}
	o, err := obj.ParseFile(sys.WriteFile("a.obj", text+"v 0 0 1"[:0]))
	vf.Assert((err == nil) == ok, "refused")
	if err != nil {
		vf.Assert(len(o.Vertices) == 0 && len(o.Faces) == 0, "no result")
	}
	_, err = obj.ParseFile(sys.Path("nothing.obj"))
	vf.Assert(err != nil, "no file")
}

// The object shows the faces of the file, each in its material, after transforming the vertices by all
// transforms from left to right.
func H_Object() {
	text := "v -1 0 -1\nv 1 0 -1\nv 1 0 1\nv -1 0 1\nusemtl floor\nf 1 2 3 4\n" +
		"v -0.5 1 -0.5\nv 0.5 1 -0.5\nv 0.5 1 0.5\nusemtl roof\nf 5 7 6\n"
	file := sys.WriteFile("a.obj", text)
	floor, roof := &hx.Mat{ID: 1}, &hx.Mat{ID: 2}
	ms := map[string]tracer.Material{"floor": floor, "roof": roof}
	x, z := vf.Float("x", -2, 2), vf.Float("z", -2, 2)
	e := func(a, b float64) bool { return vf.Or(a-b > 1e-3, b-a > 1e-3) }
	vf.Assume(vf.And(e(x, 1), e(x, -1), e(z, 1), e(z, -1), e(x, 0.5), e(z, 0.5), e(x, -0.5), e(z, -0.5), e(x, z)))
	d := vf.Float("d", -3, 3)
	s := 1.0
	var tr []*geom.AffineTransform
	switch vf.Conc(vf.Int("transforms", 0, 2)) {
	case 0:
		d = 0
	case 1:
		tr = []*geom.AffineTransform{geom.Translate(geom.Vec{d, 0, 0})}
	case 2:
		tr = []*geom.AffineTransform{geom.Translate(geom.Vec{d / 2, 0, 0}), geom.Scale(geom.O, 2)}
		s = 2
	}
	o := objects.ObjFile(ms, file, tr...)
	r := &tracer.Ray{Start: geom.Vec{s*x + d, s * 5, s * z}, Dir: geom.Vec{0, -1, 0}}
	h := o.Intersect(r)
	inFloor := vf.And(x > -1, x < 1, z > -1, z < 1)
	inRoof := vf.And(x > -0.5, x < 0.5, z > -0.5, z < 0.5, x > z)
	switch {
	case inRoof:
		vf.Assert(h.T > 0, "roof hit")
		vf.Assert(vf.Near(h.T, 4*s, 1e-6), "roof")
		vf.Assert(h.Material == tracer.Material(roof), "roof material")
		hx.EqV(h.Normal, geom.Vec{0, 1, 0}, "roof normal")
	case inFloor:
		vf.Assert(h.T > 0, "floor hit")
		vf.Assert(vf.Near(h.T, 5*s, 1e-6), "floor")
		vf.Assert(h.Material == tracer.Material(floor), "floor material")
		hx.EqV(h.Normal, geom.Vec{0, -1, 0}, "floor normal")
	default:
		vf.Assert(h.T == 0, "nothing hit")
	}
}

// Files that cannot be shown end the program.
func H_Fatal() {
	m := &hx.Mat{ID: 1}
	ms := map[string]tracer.Material{"a": m}
	text := [...]string{head + "usemtl b\nf 1 2 3\n", head + "f 1 2 3\n", head + "usemtl a\nf 1 2 4\n", head + "usemtl a\nf 1 2 3\n"}
	k := vf.Conc(vf.Int("k", 0, len(text)))
	f := sys.Path("nothing.obj")
	if k < len(text) {
		f = sys.WriteFile("a.obj", text[k])
	}
	vf.Assert(sys.Exits(func() { objects.ObjFile(ms, f) }) == (k != 3), "ends")
}

// A file without faces is an object that is never hit.
func H_Nothing() {
	text := []string{"", "# nothing\n", "v 1 2 3\n", "v 1 2 3\nusemtl floor\n"}
	f := sys.WriteFile("a.obj", text[vf.Conc(vf.Int("k", 0, len(text)-1))])
	o := objects.ObjFile(map[string]tracer.Material{"floor": &hx.Mat{ID: 1}}, f)
	h := o.Intersect(hx.Ray("r"))
	vf.Assert(!(h.T > 0), "not hit")
}
