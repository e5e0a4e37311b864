// C36: the viewer: navigation.
package main

import (
	"math"

	"vh/hx"
	_ "vh/sys"
	"vh/vf"
	"vh/view"
	_ "vh/web"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"

	"golang.org/x/mobile/event/key"
	"golang.org/x/mobile/event/mouse"
	"golang.org/x/mobile/event/size"
)

func start() *view.Nav {
	n := &view.Nav{}
	v := n.View()
	v.Width, v.Height = 32, 32
	v.CamPos = hx.V("pos")
	v.CamYaw, v.CamPitch = vf.Angle("yaw"), vf.Angle("pitch")
	return n
}

// moved: the camera has moved by 5 cm in a direction relative to what is in view; all else is the same.
func moved(n *view.Nav, old api.View, dir geom.Vec) {
	m := geom.YawPitchRoll(old.CamYaw, old.CamPitch, 0)
	d := m.TransformDir(dir)
	v := *n.View()
	hx.EqV(v.CamPos, hx.MAdd(old.CamPos, 0.05, d), "position")
	old.CamPos = v.CamPos
	vf.Assert(v == old, "view otherwise unchanged")
	vf.Assert(n.TakeDirty(), "shown")
}

var keys = []struct {
	code key.Code
	dir  geom.Vec
	up   geom.Vec // with shift
}{
	{key.CodeLeftArrow, geom.Vec{-1, 0, 0}, geom.Vec{-1, 0, 0}},
	{key.CodeRightArrow, geom.Vec{1, 0, 0}, geom.Vec{1, 0, 0}},
	{key.CodeUpArrow, geom.Vec{0, 0, -1}, geom.Vec{0, 1, 0}},
	{key.CodeDownArrow, geom.Vec{0, 0, 1}, geom.Vec{0, -1, 0}},
	{key.CodeSpacebar, geom.Vec{0, 1, 0}, geom.Vec{0, 1, 0}},
	{key.CodeS, geom.Vec{-1, 0, 0}, geom.Vec{-1, 0, 0}},
	{key.CodeF, geom.Vec{1, 0, 0}, geom.Vec{1, 0, 0}},
	{key.CodeE, geom.Vec{0, 0, -1}, geom.Vec{0, 1, 0}},
	{key.CodeD, geom.Vec{0, 0, 1}, geom.Vec{0, -1, 0}},
}

// Keys move the camera relative to what is in view, when they are pressed only.
func H_Keys() {
	n := start()
	old := *n.View()
	k := keys[vf.Conc(vf.Int("key", 0, len(keys)-1))]
	e := key.Event{Code: k.code, Direction: key.Direction(vf.Conc(vf.Int("direction", 0, 2)))}
	dir := k.dir
	if vf.Bool("shift") {
		e.Modifiers = key.ModShift
		dir = k.up
	}
	n.Handle(e)
	if e.Direction == key.DirPress {
		moved(n, old, dir)
		return
	}
	vf.Assert(*n.View() == old, "nothing happens")
	vf.Assert(!n.TakeDirty(), "nothing happens")
}

// The wheel moves the camera, or zooms a view without perspective.
func H_Wheel() {
	n := start()
	n.View().DebugIsometric = vf.Bool("isometric")
	n.View().DebugIsometricFOV = vf.Float("fov", 0, 100)
	old := *n.View()
	w := vf.Conc(vf.Int("wheel", 0, 3))
	e := mouse.Event{Button: []mouse.Button{mouse.ButtonWheelUp, mouse.ButtonWheelDown, mouse.ButtonWheelLeft, mouse.ButtonWheelRight}[w], Direction: mouse.DirStep}
	dir := []geom.Vec{{0, 0, -1}, {0, 0, 1}, {-1, 0, 0}, {1, 0, 0}}[w]
	if vf.Bool("shift") {
		e.Modifiers = key.ModShift
		if w < 2 {
			dir = []geom.Vec{{0, 1, 0}, {0, -1, 0}}[w]
		}
	}
	n.Handle(e)
	if !old.DebugIsometric {
		moved(n, old, dir)
		return
	}
	v := *n.View()
	f := vf.IteF(old.DebugIsometricFOV == 0, 8, old.DebugIsometricFOV)
	switch w {
	case 0:
		vf.Assert(vf.Near(v.DebugIsometricFOV*math.Sqrt2, f, 1e-9), "zooms in")
		vf.Assert(n.TakeDirty(), "shown")
	case 1:
		vf.Assert(vf.Near(v.DebugIsometricFOV, f*math.Sqrt2, 1e-9), "zooms out")
		vf.Assert(n.TakeDirty(), "shown")
	default:
		vf.Assert(v.DebugIsometricFOV == old.DebugIsometricFOV, "nothing happens")
	}
	old.DebugIsometricFOV = v.DebugIsometricFOV
	vf.Assert(v == old, "view otherwise unchanged")
}

// Dragging with the left button turns the camera by the way of the mouse, up to looking straight up or down; moving the
// mouse without the button does not.
// vf: depth=400
func H_Drag() {
	n := start()
	v := n.View()
	vf.Assume(vf.And(v.CamPitch >= -math.Pi/2, v.CamPitch <= math.Pi/2))
	yaw, pitch := v.CamYaw, v.CamPitch
	old := *v
	down := false
	x, y := 0, 0
	for i := 0; i < 4; i++ {
		k := vf.IntTok(i)
		nx, ny := vf.Int("x"+k, 0, 4000), vf.Int("y"+k, 0, 4000)
		e := mouse.Event{X: float32(nx), Y: float32(ny)}
		was := down
		switch vf.Conc(vf.Int("what"+k, 0, 4)) {
		case 0:
			vf.Assume(!down)
			e.Button, e.Direction = mouse.ButtonLeft, mouse.DirPress
			vf.Assume(vf.And(nx == x, ny == y)) // where the mouse is
			down = true
		case 1:
			vf.Assume(down)
			e.Button, e.Direction = mouse.ButtonLeft, mouse.DirRelease
			vf.Assume(vf.And(nx == x, ny == y))
			down = false
		case 2:
			vf.Assume(!down)
			e.Button, e.Direction = mouse.ButtonRight, mouse.DirPress
		case 3:
			vf.Assume(!down)
			e.Button, e.Direction = mouse.ButtonRight, mouse.DirRelease
		}
		n.TakeDirty()
		n.Handle(e)
		if was && down {
			yaw += 0.005 * float64(nx-x)
			pitch += 0.005 * float64(ny-y)
			pitch = math.Max(-math.Pi/2, math.Min(math.Pi/2, pitch))
			vf.Assert(n.TakeDirty(), "shown")
		}
		x, y = nx, ny
		vf.Assert(vf.Near(v.CamYaw, yaw, 1e-9), "yaw")
		vf.Assert(vf.Near(v.CamPitch, pitch, 1e-9), "pitch")
	}
	old.CamYaw, old.CamPitch = v.CamYaw, v.CamPitch
	vf.Assert(*v == old, "view otherwise unchanged")
}

// Keys X, Y and Z look along an axis without perspective, or no longer; N goes through the ways of showing normals.
// vf: paths=2000
func H_Modes() {
	n := start()
	v := n.View()
	old := *v
	iso, dir, normals := false, 0, 0
	for i := 0; i < 4; i++ {
		k := vf.Conc(vf.Int("key"+vf.IntTok(i), 0, 3))
		n.Handle(key.Event{Code: []key.Code{key.CodeX, key.CodeY, key.CodeZ, key.CodeN}[k], Direction: key.DirPress})
		if k == 3 {
			normals = (normals + 1) % 3
		} else {
			iso = !(iso && dir == k)
			dir = k
		}
		vf.Assert(v.DebugNormals == normals, "normals")
		vf.Assert(v.DebugIsometric == iso, "perspective")
		if iso {
			vf.Assert(v.DebugIsometricDir == dir, "direction")
			vf.Assert(v.DebugIsometricFOV == 8, "field of view")
		}
		vf.Assert(n.TakeDirty(), "shown")
	}
	old.DebugNormals, old.DebugIsometric, old.DebugIsometricDir, old.DebugIsometricFOV = v.DebugNormals, v.DebugIsometric, v.DebugIsometricDir, v.DebugIsometricFOV
	vf.Assert(*v == old, "view otherwise unchanged")
}

// The view has the size of the window.
func H_Resize() {
	n := start()
	old := *n.View()
	w, h := vf.Int("w", 1, 10000), vf.Int("h", 1, 10000)
	n.Handle(size.Event{WidthPx: w, HeightPx: h})
	v := *n.View()
	vf.Assert(v.Width == w && v.Height == h, "size")
	old.Width, old.Height = w, h
	vf.Assert(v == old, "view otherwise unchanged")
	vf.Assert(n.TakeDirty(), "shown")
}
