package main

import (
	"image"
	"sync"
	"time"

	"vh/sys"
	"vh/vf"
	"vh/view"
	"vh/web"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"

	"golang.org/x/mobile/event/key"
	"golang.org/x/mobile/event/lifecycle"
	"golang.org/x/mobile/event/mouse"
	"golang.org/x/mobile/event/size"
)

const winW, winH = 16, 8

// world is the server and the user of a viewer. The pictures of the server have the number of times the space bar was pressed as tag.
type world struct {
	mu       sync.Mutex
	win      *view.Window
	requests int
	baking   int
	pressed  int
	shown    int // tag of the last picture
	full     int // bakes in full size of the last view
	ended    bool
	script   func(request int)
	fail     func(request int) bool
	seen     func(tag int)
	idle     bool // no bakes are expected
	late     int  // bakes meanwhile; one may have been under way
	settled  int  // requests since all events have been taken
	patience int
}

func (w *world) serve(path string, v api.View, ok bool) (imagef.Image, bool) {
	w.mu.Lock()
	n := w.requests
	w.requests++
	if !w.win.Delivered() {
		w.settled = 0
		vf.Assume(n < 16) // events are taken at some time
	}
	w.settled++
	late := w.settled >= w.patience && !w.ended
	vf.Assert(!late, "shows the last view after some requests")
	w.mu.Unlock()
	if late {
		w.end()
	}
	if path == "/cancel" {
		return nil, true
	}
	vf.Assert(path == "/bake" || path == "/preview", "known request")
	vf.Assert(ok, "with a view")
	bake := path == "/bake"
	w.mu.Lock()
	if bake {
		w.baking++
		vf.Assert(w.baking == 1, "one bake at a time")
		if w.idle {
			w.late++
		}
		vf.Assert(w.late <= 1, "no bake is started while the user is moving or has paused")
	}
	vf.Assert(tag(v) <= w.pressed, "a view the user has asked for")
	vf.Assert(v.Width <= winW*4 && v.Height <= winH*4, "not larger than the window")
	vf.Assert(vf.Imp(v.AntiAlias, bake && v.Width == winW), "anti-aliased at full size only")
	w.mu.Unlock()
	w.script(n)
	w.mu.Lock()
	defer w.mu.Unlock()
	if bake {
		w.baking--
	}
	if w.fail(n) || v.Width <= 0 || v.Height <= 0 {
		return nil, false
	}
	m := imagef.MakeImage(v.Width, v.Height)
	for y := range m {
		for x := range m[y] {
			m[y][x] = colorf.Color{R: view.Level(tag(v))}
		}
	}
	if bake && v.Width == winW && tag(v) == w.pressed {
		w.full++
	}
	return m, true
}

func (w *world) press(c key.Code) {
	w.mu.Lock()
	if w.ended {
		w.mu.Unlock()
		return
	}
	if c == key.CodeSpacebar {
		w.pressed++
		w.full = 0
	}
	w.mu.Unlock()
	w.win.Send(key.Event{Code: c, Direction: key.DirPress})
}

func (w *world) end() {
	w.mu.Lock()
	if w.ended {
		w.mu.Unlock()
		return
	}
	w.ended = true
	w.mu.Unlock()
	w.win.Send(lifecycle.Event{To: lifecycle.StageDead})
}

// published: pictures of an earlier view never replace those of a later one; when all is quiet, the last view is shown, in
// full size.
func (w *world) published() {
	w.mu.Lock()
	t := w.win.Pic
	if t >= 0 {
		vf.Assert(t >= w.shown, "no old view")
		w.shown = t
	}
	done := t == w.pressed && w.win.Size == image.Point{X: winW, Y: winH} && w.full >= 1
	w.mu.Unlock()
	if w.seen != nil {
		w.seen(t)
	}
	if done {
		w.end()
	}
}

func (w *world) run() {
	addr := web.Fake(w.serve)
	w.win = view.NewWindow(w.published)
	sys.Args("-addr", addr)
	w.win.Send(size.Event{WidthPx: winW, HeightPx: winH})
	view.Run()
	vf.Assert(w.ended, "runs until it is closed")
	vf.Assert(w.shown == w.pressed, "shows the last view")
}

func refine(a, b, f int) {
	w := &world{patience: 18}
	w.fail = func(n int) bool { return n == f-1 }
	w.script = func(n int) {
		if n == a-1 {
			w.press(key.CodeSpacebar)
		}
		if n == b-1 {
			w.press(key.CodeSpacebar)
		}
	}
	w.run()
}

// Whatever is pressed while the viewer waits for a picture: the viewer refines the picture of the last view up to the size
// of the window, and never shows an old one again; it has one bake at a time.
// vf: threads=60 unwind=3000 steps=6000000 preempt=0 rtimeout=30 tries=4 paths=20000
func H_Refine() { refine(vf.Conc(vf.Int("press", 0, 6)), 0, 0) }

// The same when two keys are pressed.
// vf: threads=60 unwind=3000 steps=6000000 preempt=0 rtimeout=30 tries=4 paths=20000 budget=400 tier=thorough
func H_Twice() {
	a, b := vf.Conc(vf.Int("first", 1, 6)), vf.Conc(vf.Int("second", 1, 6))
	vf.Assume(a <= b)
	refine(a, b, 0)
}

// Two keys, one soon after the other.
// vf: threads=60 unwind=3000 steps=6000000 preempt=0 rtimeout=30 tries=4 paths=20000
func H_Twice4() { refine(4, vf.Conc(vf.Int("second", 4, 5)), 0) }

// The same when the server fails now and then.
// vf: threads=60 unwind=3000 steps=6000000 preempt=0 rtimeout=30 tries=4 paths=20000
func H_Fail() { refine(3, 0, vf.Conc(vf.Int("fail", 1, 4))) }

// While paused, or while the left button is down, nothing is baked, but changes of the view are shown. Then it goes on.
// vf: threads=60 unwind=3000 steps=6000000 preempt=0 rtimeout=30 tries=4 paths=20000 budget=240
func H_Pause() {
	a := 2 * vf.Conc(vf.Int("when", 1, 2))
	drag := vf.Conc(vf.Int("drag", 0, 1)) == 1
	w := &world{patience: 18}
	w.fail = func(n int) bool { return false }
	toggle := func(d mouse.Direction) {
		if drag {
			w.win.Send(mouse.Event{Button: mouse.ButtonLeft, Direction: d})
		} else {
			w.press(key.CodeP)
		}
	}
	w.script = func(n int) {
		if n == a-1 {
			toggle(mouse.DirPress)
			w.press(key.CodeSpacebar)
		}
	}
	tags, ended := 0, false
	w.seen = func(tag int) {
		if tag < 1 || tag <= tags {
			return
		}
		tags = tag
		w.mu.Lock()
		w.idle = tag < 3
		w.mu.Unlock()
		if tag < 3 {
			if vf.Symbolic() {
				w.press(key.CodeSpacebar)
			} else {
				go func() {
					time.Sleep(50 * time.Millisecond)
					w.press(key.CodeSpacebar)
				}()
			}
		} else {
			ended = true
			toggle(mouse.DirRelease)
		}
	}
	w.run()
	vf.Assert(ended, "changes are shown meanwhile")
}

// A click with the other buttons, and a key that is let go, change nothing: pictures are refined all the same.
// vf: threads=60 unwind=3000 steps=6000000 preempt=0 rtimeout=30 tries=4 paths=20000
func H_Click() {
	when := vf.Conc(vf.Int("when", 1, 3))
	what := vf.Conc(vf.Int("what", 0, 2))
	w := &world{patience: 18}
	w.fail = func(n int) bool { return false }
	w.script = func(n int) {
		if n != when {
			return
		}
		switch what {
		case 0:
			w.win.Send(mouse.Event{Button: mouse.ButtonRight, Direction: mouse.DirPress})
			w.win.Send(mouse.Event{X: 10, Y: 5})
			w.win.Send(mouse.Event{Button: mouse.ButtonRight, Direction: mouse.DirRelease})
		case 1:
			w.win.Send(mouse.Event{Button: mouse.ButtonMiddle, Direction: mouse.DirPress})
			w.win.Send(mouse.Event{Button: mouse.ButtonMiddle, Direction: mouse.DirRelease})
		case 2:
			w.win.Send(key.Event{Code: key.CodeP, Direction: key.DirRelease})
			w.win.Send(key.Event{Code: key.CodeSpacebar, Direction: key.DirRelease})
		}
	}
	w.run()
}

// tag counts the steps up.
func tag(v api.View) int { return int(v.CamPos[1]/0.05 + 0.5) }
