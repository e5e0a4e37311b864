package vf

import (
	"fmt"
	"io"
	"sort"
	"sync"
)

// The functions in this file are models the engine substitutes for standard
// library functions that it does not interpret. They are never used natively.

func Swap(x interface{}, i, j int)              { panic("model") }
func SliceLen(x interface{}) int                { panic("model") }
func Sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }
func Sprint(a ...interface{}) string            { return fmt.Sprint(a...) }
func Sprintln(a ...interface{}) string          { return fmt.Sprintln(a...) }

// SortSlice models sort.Slice: insertion sort (the result of sort.Slice on
// elements comparing equal is unspecified; this is one admissible result).
func SortSlice(x interface{}, less func(i, j int) bool) {
	n := SliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			Swap(x, j, j-1)
		}
	}
}

func SortSort(x sort.Interface) {
	n := x.Len()
	for i := 1; i < n; i++ {
		for j := i; j > 0 && x.Less(j, j-1); j-- {
			x.Swap(j, j-1)
		}
	}
}

func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	return w.Write([]byte(Sprintf(f, a...)))
}
func Fprint(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(Sprint(a...)))
}
func Fprintln(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(Sprintln(a...)))
}

type fmtError struct {
	msg string
	err error
}

func (e *fmtError) Error() string { return e.msg }
func (e *fmtError) Unwrap() error { return e.err }

func Errorf(f string, a ...interface{}) error {
	e := &fmtError{msg: Sprintf(f, a...)}
	for _, x := range a {
		if u, ok := x.(error); ok {
			e.err = u
		}
	}
	return e
}

var onceDone = map[*sync.Once]bool{}

func OnceDo(o *sync.Once, f func()) {
	if onceDone[o] {
		return
	}
	onceDone[o] = true
	f()
}

func PoolGet(p *sync.Pool) interface{} {
	if p.New == nil {
		return nil
	}
	return p.New()
}
func PoolPut(p *sync.Pool, x interface{}) {}

func WGGo(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		f()
	}()
}
