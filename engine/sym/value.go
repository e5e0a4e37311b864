package sym

import (
	"fmt"
	"go/types"
	"strings"

	"vengine/smt"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*smt.Term   booleans and integers
//	*Flt        floating point
//	*Str        strings
//	*Struct, *Array, *Tuple
//	*Ptr, *Slice, *MapV, *ChanV (reference values; nil pointers have Obj 0)
//	*Iface, *Func, Opaque
type Value interface{}

type Str struct {
	S string
	B []*smt.Term // symbolic bytes; nil if concrete
}

func (s *Str) Len() int {
	if s.B != nil {
		return len(s.B)
	}
	return len(s.S)
}

type Struct struct{ F []Value }

type Array struct {
	N   int
	Def Value
	M   PMap
}

func (a *Array) Get(i int) Value {
	if v, ok := a.M.Get(i); ok {
		return v
	}
	return a.Def
}

func (a *Array) Set(i int, v Value) *Array {
	return &Array{a.N, a.Def, a.M.Set(i, v)}
}

type Tuple struct{ V []Value }

// Ptr points at a part of a memory object.
type Ptr struct {
	Obj  int
	Path []int
}

func (p *Ptr) sub(i int) *Ptr {
	path := make([]int, len(p.Path)+1)
	copy(path, p.Path)
	path[len(p.Path)] = i
	return &Ptr{p.Obj, path}
}

func (p *Ptr) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", p.Obj)
	for _, i := range p.Path {
		fmt.Fprintf(&b, ".%d", i)
	}
	return b.String()
}

func ptrEq(a, b *Ptr) bool {
	if a.Obj != b.Obj || len(a.Path) != len(b.Path) {
		return false
	}
	for i := range a.Path {
		if a.Path[i] != b.Path[i] {
			return false
		}
	}
	return true
}

// Slice of a memory array at Arr (pointer to an Array value).
type Slice struct {
	Arr           *Ptr // nil for nil slice
	Off, Len, Cap int
}

type Iface struct {
	T types.Type // nil: nil interface
	V Value
}

type Func struct {
	Fn   *ssa.Function
	Bind []Value
	// bound intrinsic
	Intr string
	Args []Value
}

type MapV struct{ Obj int } // 0 = nil map

type mapEntry struct {
	K, V Value
}

// MapObj is the content of a map object.
type MapObj struct {
	Ents []mapEntry
}

type ChanV struct{ Obj int }

type ChanObj struct {
	Cap    int
	Buf    []Value
	Closed bool
	Clk    []int // clock joined at close/sends (conservative happens-before)
	ElemT  types.Type
}

// Opaque is a value the engine knows nothing about.
type Opaque struct{ What string }

func isOpaque(v Value) bool { _, ok := v.(Opaque); return ok }

type iterV struct {
	M   *MapV
	Str *Str
	Pos int
	Ks  []Value
}
