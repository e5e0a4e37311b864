// Package driver takes the place of shiny's: it runs the viewer in the harness's screen.
package driver

import "golang.org/x/exp/shiny/screen"

var Screen screen.Screen

func Main(f func(screen.Screen)) { f(Screen) }
