// Package view is the viewer (cmd/bruteray-view), of which the engine puts the current source here as an overlay, with
// the driver of the screen replaced.
package view

import "github.com/barnex/bruteray/api"

// Nav is a viewer's navigation: what it does on events.
type Nav struct{ s state }

// View is the current view.
func (n *Nav) View() *api.View { return &n.s.view }

// Handle handles an event.
func (n *Nav) Handle(e interface{}) { n.s.handleEvent(e) }

// TakeDirty reports whether the view is to be rendered again.
func (n *Nav) TakeDirty() bool {
	d := n.s.renderDirty
	n.s.renderDirty = false
	return d
}

// Run runs the program.
func Run() { main() }
