// C35: command-line flags override the scene.
package main

import (
	"vh/sys"
	"vh/vf"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
)

// sensor counts the rays.
type sensor struct{ n int }

func (s *sensor) RayFrom(ctx *tracer.Ctx, u, v float64) *tracer.Ray {
	s.n++
	r := ctx.Ray()
	r.Start, r.Dir = geom.Vec{u, v, 0}, geom.Vec{0, 0, -1}
	return r
}

// mirror sees itself again, as often as the recursion depth allows.
type mirror struct{ n int }

func (m *mirror) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	m.n++
	r2 := ctx.Ray()
	r2.Start, r2.Dir = r.Start, r.Dir
	c := s.LightField(ctx, r2)
	ctx.PutRay(r2)
	return c.Add(colorf.Gray(0.05))
}

type work struct{ w, h, rays, bounces int }

func run(s api.Spec, animate bool, args ...string) (work, bool) {
	c, m := &sensor{}, &mirror{}
	s.Camera = c
	s.Objects = []api.Object{api.Backdrop(m)}
	path := sys.Path("p.jpg")
	file := path
	sys.Args(append([]string{"-o", path}, args...)...)
	ended := sys.Exits(func() {
		if animate {
			api.Animate(1, func(int) api.Spec { return s })
		} else {
			api.Render(s)
		}
	})
	vf.Assert(!ended, "no failure")
	if ended {
		return work{}, false
	}
	if animate {
		file = sys.Path("p-frames/00000.jpg")
	}
	i := sys.ReadImage(file)
	vf.Assert(i != nil, "a picture")
	if i == nil {
		return work{}, false
	}
	return work{i.Bounds().Dx(), i.Bounds().Dy(), c.n, m.n}, true
}

func pick(name string, n int) int { return vf.Conc(vf.Int(name, 0, n)) }

func or(f, s int) int {
	if f != 0 {
		return f
	}
	return s
}

// The picture has the size of the flags, and of the scene where there is no flag; flags leave the rest alone.
//vf: threads=400 ncpu=1 unwind=300 steps=4000000 paths=2000
func H_Size() {
	s := api.Spec{Width: 1 + pick("width", 1), Height: 1 + pick("height", 1), NumPass: 2, Recursion: 2}
	w, h := pick("-w", 3), pick("-h", 3)
	got, ok := run(s, pick("animate", 1) == 1, "-w", vf.IntTok(w), "-h", vf.IntTok(h))
	if !ok {
		return
	}
	vf.Assert(got.w == or(w, s.Width), "width")
	vf.Assert(got.h == or(h, s.Height), "height")
	vf.Assert(got.rays >= 2*got.w*got.h, "passes left alone")
	vf.Assert(got.bounces == 2*got.rays, "recursion left alone")
}

// The picture is made with the passes and the recursion depth of the flags, and those of the scene where there is no
// flag: as one of a scene with these values.
//vf: threads=400 ncpu=1 unwind=300 steps=4000000 paths=2000
func H_Work() {
	s := api.Spec{Width: 1, Height: 1, NumPass: pick("passes", 3), Recursion: pick("recursion", 3)}
	n, r := pick("-n", 3), pick("-r", 3)
	animate := pick("animate", 1) == 1
	want := s
	want.NumPass, want.Recursion = or(n, s.NumPass), or(r, s.Recursion)
	a, ok := run(want, animate)
	if !ok {
		return
	}
	b, ok := run(s, animate, "-n", vf.IntTok(n), "-r", vf.IntTok(r))
	if !ok {
		return
	}
	vf.Assert(b.w == 1 && b.h == 1, "size left alone")
	vf.Assert(a.rays == b.rays, "passes")
	vf.Assert(a.bounces == b.bounces, "recursion")
	vf.Assert(b.rays >= or(or(n, s.NumPass), 1), "at least the passes asked for")
	vf.Assert(b.bounces == b.rays*or(or(r, s.Recursion), 1), "exactly the recursion asked for")
}

// Flag -q sets the quality of saved JPEG files; without it, it is 90, or what the program sets.
//vf: threads=100 ncpu=1 unwind=300
func H_Quality() {
	set := vf.Int("quality", 1, 100)
	q := vf.Int("-q", 0, 100)
	c := vf.Conc(vf.Int("case", 0, 2))
	want := 90
	var args []string
	if c > 0 {
		api.JPEGQuality = set
		want = set
	}
	if c > 1 {
		args = []string{"-q", vf.IntTok(q)}
		want = int(vf.IteF(q == 0, float64(set), float64(q)))
	}
	_, ok := run(api.Spec{Width: 1, Height: 1}, pick("animate", 1) == 1, args...)
	if !ok {
		return
	}
	path := "p.jpg"
	if pick("animate", 1) == 1 {
		path = "p-frames/00000.jpg"
	}
	vf.Assert(sys.Quality(sys.Path(path)) == want, "quality")
}
