package view

import (
	"image"
	"sync"

	"vh/vf"
	"vh/view/driver"

	"golang.org/x/exp/shiny/screen"
	"image/draw"
)

// Window is the window of the viewer.
type Window struct {
	screen.Window
	events chan interface{}
	// Pic is the tag of the picture in the window, and Size its size.
	Pic       int
	Size      image.Point
	published func()
	mu        sync.Mutex
	sent      int
	asked     int
}

// NewWindow makes the window in which the viewer will run; published is called when it shows something else.
func NewWindow(published func()) *Window {
	w := &Window{events: make(chan interface{}, 100), published: published}
	driver.Screen = &scr{w: w}
	return w
}

// Send sends an event to the viewer.
func (w *Window) Send(e interface{}) {
	w.mu.Lock()
	w.sent++
	w.mu.Unlock()
	w.events <- e
}

func (w *Window) NextEvent() interface{} {
	w.mu.Lock()
	w.asked++
	w.mu.Unlock()
	return <-w.events
}

// Delivered reports whether the viewer has taken all events.
func (w *Window) Delivered() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.asked > w.sent
}

func (w *Window) Release() {}
func (w *Window) Publish() screen.PublishResult {
	w.published()
	return screen.PublishResult{}
}

func (w *Window) Scale(dr image.Rectangle, src screen.Texture, sr image.Rectangle, op draw.Op, opts *screen.DrawOptions) {
	t := src.(*texture)
	vf.Assert(!t.released, "texture in use")
	vf.Assert(dr == image.Rectangle{Max: t.size}, "fills the window")
	vf.Assert(sr.Min == image.Point{}, "shows the whole picture")
	w.Pic, w.Size = t.pic, sr.Max
}

type scr struct {
	screen.Screen
	w *Window
}

func (s *scr) NewWindow(*screen.NewWindowOptions) (screen.Window, error) { return s.w, nil }
func (s *scr) NewBuffer(size image.Point) (screen.Buffer, error) {
	return &buffer{size: size, m: image.NewRGBA(image.Rectangle{Max: size})}, nil
}
func (s *scr) NewTexture(size image.Point) (screen.Texture, error) {
	return &texture{size: size}, nil
}

type buffer struct {
	screen.Buffer
	size     image.Point
	m        *image.RGBA
	released bool
}

func (b *buffer) Release()                { b.released = true }
func (b *buffer) Size() image.Point       { return b.size }
func (b *buffer) Bounds() image.Rectangle { return image.Rectangle{Max: b.size} }
func (b *buffer) RGBA() *image.RGBA       { return b.m }

type texture struct {
	screen.Texture
	size     image.Point
	pic      int
	released bool
}

func (t *texture) Release()                { t.released = true }
func (t *texture) Size() image.Point       { return t.size }
func (t *texture) Bounds() image.Rectangle { return image.Rectangle{Max: t.size} }
func (t *texture) Upload(dp image.Point, src screen.Buffer, sr image.Rectangle) {
	b := src.(*buffer)
	vf.Assert(!t.released && !b.released, "texture and buffer in use")
	vf.Assert(dp == image.Point{} && sr == b.Bounds(), "uploads the whole picture")
	t.pic = Tag(b.m)
}

// Level is the red of pictures with a tag.
func Level(tag int) float64 { return 0.03 + 0.05*float64(tag) }

// Tag is the tag of the picture that has been drawn, -1 if it is none.
func Tag(m *image.RGBA) int {
	r, g, b, _ := m.At(0, 0).RGBA()
	if g != 0 || b != 0 {
		return -1
	}
	for i := 0; i < 20; i++ {
		q, _, _, _ := gray(Level(i)).RGBA()
		if q>>8 == r>>8 {
			return i
		}
	}
	return -1
}
