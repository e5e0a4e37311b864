// C27: reading PLY files.
package main

import (
	"strings"

	"vh/hx"
	"vh/sys"
	"vh/vf"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
	"github.com/barnex/bruteray/tracer/objects/ply"
)

func num(n string) float64 { return vf.Float(n, -100, 100) }

func head(nv, nf int, note, props string) string {
	return "ply\nformat ascii 1.0\n" + note + "element vertex " + vf.IntTok(nv) + "\nproperty float x\nproperty float y\nproperty float z\n" + props +
		"element face " + vf.IntTok(nf) + "\nproperty list uchar int vertex_indices\nend_header\n"
}

func vline(v geom.Vec) string { return vf.FltTok(v[0]) + " " + vf.FltTok(v[1]) + " " + vf.FltTok(v[2]) }

// What is in the file is in the result, in order; quadrilaterals become two triangles covering them.
func H_Parse() {
	v := []geom.Vec{{num("ax"), num("ay"), num("az")}, {1.5, num("by"), -0.25}, {0, 2, num("cz")}, {1, 2, 3}}
	nv := vf.Conc(vf.Int("vertices", 3, 4))
	note, props, more := "", "", ""
	if vf.Bool("comment") {
		note = "comment made by hand\n"
	}
	if vf.Bool("properties") {
		props = "property float confidence\n"
		more = " 0.5"
	}
	four := vf.Bool("quadrilateral")
	text := head(nv, 2, note, props)
	for _, v := range v[:nv] {
		text += vline(v) + more + "\n"
	}
	i, j := vf.Int("i", 0, nv-1), vf.Int("j", 0, nv-1)
	if four {
		text += "4 " + vf.IntTok(i) + " 1 " + vf.IntTok(j) + " 2\n"
	} else {
		text += "3 " + vf.IntTok(i) + " 1 " + vf.IntTok(j) + "\n"
	}
	text += "3 2 1 0"
	if vf.Bool("newline") {
		text += "\n"
	}
	if vf.Bool("crlf") {
		text = strings.ReplaceAll(text, "\n", "\r\n")
	}
	var vs []geom.Vec
	var fs [][3]int
	var err error
	if vf.Bool("file") {
		vs, fs, err = ply.ParseFile(sys.WriteFile("a.ply", text))
	} else {
		vs, fs, err = ply.Parse(strings.NewReader(text))
	}
	vf.Assert(err == nil, "no error")
	vf.Assert(len(vs) == nv, "vertices")
	for k := range vs {
		for c := range vs[k] {
			vf.Assert(vs[k][c] == v[k][c], "vertex")
		}
	}
	last := [3]int{2, 1, 0}
	if four {
		vf.Assert(len(fs) == 3, "faces")
		vf.Assert(fs[0] == [3]int{i, 1, j} && fs[1] == [3]int{j, 2, i} && fs[2] == last, "corners")
	} else {
		vf.Assert(len(fs) == 2, "faces")
		vf.Assert(fs[0] == [3]int{i, 1, j} && fs[1] == last, "corners")
	}
}

// Files that make no sense are refused.
func H_Refuse() {
	lines := strings.Split("ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\n"+
		"element face 1\nproperty list uchar int vertex_indices\nend_header\n0 0 0\n1 0 0\n0 1 0\n3 0 1 2", "\n")
	n := len(lines)
	ok := false
	switch vf.Conc(vf.Int("kind", 0, 5)) {
	case 5: // other elements and their order: the data of the vertices comes first, then that of the faces
		k := vf.Conc(vf.Int("elements", 0, 3))
		lines[5] += "\nproperty float confidence"
		other := []string{"element edge 1", "property int vertex1", "property int vertex2", "property int color"}
		data := []string{"0 0 0 7", "1 0 0 7", "3 0 1 2", "3 0 1 2"}
		switch k {
		case 0: // faces first
			lines = append(append(append([]string{}, lines[:2]...), lines[6:8]...), append(append([]string{}, lines[2:6]...), "end_header")...)
			lines = append(append(lines, data[3]), data[:3]...)
		case 1: // edges first
			lines = append(append(append([]string{}, lines[:2]...), other...), lines[2:9]...)
			lines = append(append(lines, "3 1 2"), data...)
		case 2: // edges in between
			lines = append(append(append([]string{}, lines[:6]...), other...), lines[6:9]...)
			lines = append(append(lines, data[:3]...), "3 0 1 2", data[3])
		case 3: // edges last
			lines = append(append(append([]string{}, lines[:8]...), other...), "end_header")
			lines = append(append(lines, data...), "0 1 2")
			ok = true
		}
		vs, fs, err := ply.Parse(strings.NewReader(strings.Join(lines, "\n")))
		vf.Assert(err == nil || !ok, "edges are ignored")
		if err == nil { // if it is not refused
			vf.Assert(len(vs) == 3 && vs[0] == geom.Vec{} && vs[1] == geom.Vec{1, 0, 0} && vs[2] == geom.Vec{3, 0, 1}, "the vertices")
			vf.Assert(len(fs) == 1 && fs[0] == [3]int{0, 1, 2}, "the face")
		}
		return
	case 0: // truncated
		n = vf.Conc(vf.Int("lines", 0, n))
		ok = n == len(lines)
	case 1: // a line spoiled
		bad := map[int][]string{0: {"plx", ""}, 1: {"format binary_little_endian 1.0"}, 2: {"element vertex x", "element vertex 4", "element vertex -1"},
			6: {"element face 2", "element face x"}, 9: {"0 0", "", "0 x 0"}, 11: {"a b c"}, 12: {"2 0 1", "5 0 1 2 0 1", "4 0 1 2", "3 0 1", "x", "3 0 1 x"}}
		l := []int{0, 1, 2, 6, 9, 11, 12}[vf.Conc(vf.Int("line", 0, 6))]
		lines[l] = bad[l][vf.Conc(vf.Int("how", 0, len(bad[l])-1))]
	case 2: // an index out of range
		i := vf.Int("i", -5, 10)
		ok = vf.And(i >= 0, i <= 2)
		lines[12] = []string{"3 1 2 ", "4 0 1 2 "}[vf.Conc(vf.Int("corners", 0, 1))] + vf.IntTok(i)
	case 3: // no file
		_, _, err := ply.ParseFile(sys.Path("nothing.ply"))
		vf.Assert(err != nil, "no file")
		return
	case 4: // number of corners
		c := vf.Int("c", -2, 9)
		ok = vf.Or(c == 3, c == 4)
		lines[12] = vf.IntTok(c) + " 0 1 2 1 0 1 2 1 0"
	}
	_, _, err := ply.Parse(strings.NewReader(strings.Join(lines[:n], "\n")))
	vf.Assert((err == nil) == ok, "refused")
}

// The object shows the faces of the file, after transforming the vertices by all transforms from left to right.
func H_Object() {
	file := sys.WriteFile("a.ply", head(7, 2, "", "")+"-1 0 -1\n1 0 -1\n1 0 1\n-1 0 1\n-0.5 1 -0.5\n0.5 1 -0.5\n0.5 1 0.5\n4 0 1 2 3\n3 4 6 5\n")
	m := &hx.Mat{ID: 1}
	x, z := vf.Float("x", -2, 2), vf.Float("z", -2, 2)
	e := func(a, b float64) bool { return vf.Or(a-b > 1e-3, b-a > 1e-3) }
	vf.Assume(vf.And(e(x, 1), e(x, -1), e(z, 1), e(z, -1), e(x, 0.5), e(z, 0.5), e(x, -0.5), e(z, -0.5), e(x, z)))
	d := vf.Float("d", -3, 3)
	s := 1.0
	var tr []*geom.AffineTransform
	switch vf.Conc(vf.Int("transforms", 0, 2)) {
	case 0:
		d = 0
	case 1:
		tr = []*geom.AffineTransform{geom.Translate(geom.Vec{d, 0, 0})}
	case 2:
		tr = []*geom.AffineTransform{geom.Translate(geom.Vec{d / 2, 0, 0}), geom.Scale(geom.O, 2)}
		s = 2
	}
	o := objects.PlyFile(m, file, tr...)
	h := o.Intersect(&tracer.Ray{Start: geom.Vec{s*x + d, s * 5, s * z}, Dir: geom.Vec{0, -1, 0}})
	inFloor := vf.And(x > -1, x < 1, z > -1, z < 1)
	inRoof := vf.And(x > -0.5, x < 0.5, z > -0.5, z < 0.5, x > z)
	switch {
	case inRoof:
		vf.Assert(h.T > 0, "roof hit")
		vf.Assert(vf.Near(h.T, 4*s, 1e-6), "roof")
		vf.Assert(h.Material == tracer.Material(m), "material")
		hx.EqV(h.Normal, geom.Vec{0, 1, 0}, "roof normal")
	case inFloor:
		vf.Assert(h.T > 0, "floor hit")
		vf.Assert(vf.Near(h.T, 5*s, 1e-6), "floor")
		vf.Assert(h.Material == tracer.Material(m), "material")
		hx.EqV(h.Normal, geom.Vec{0, -1, 0}, "floor normal")
	default:
		vf.Assert(h.T == 0, "nothing hit")
	}
}

// A file with no faces (and maybe no vertices) is an object that is never hit.
func H_Nothing() {
	n := vf.Conc(vf.Int("n", 0, 2))
	text := head(n, 0, "", "")
	for i := 0; i < n; i++ {
		text += vline(hx.VR("v"+vf.IntTok(i), 10)) + "\n"
	}
	o := objects.PlyFile(&hx.Mat{ID: 1}, sys.WriteFile("a.ply", text))
	h := o.Intersect(hx.Ray("r"))
	vf.Assert(!(h.T > 0), "not hit")
}

// Files that cannot be read end the program.
func H_Fatal() {
	f := sys.Path("nothing.ply")
	k := vf.Conc(vf.Int("k", 0, 2))
	if k > 0 {
		f = sys.WriteFile("a.ply", head(3, 1, "", "")+"0 0 0\n0 0 1\n1 0 0\n3 0 1 "+vf.IntTok(k+1)+"\n")
	}
	vf.Assert(sys.Exits(func() { objects.PlyFile(&hx.Mat{ID: 1}, f) }) == (k != 1), "ends")
}
