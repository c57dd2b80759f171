// Package ecore: contract run-time. In the verifier the v* functions below are
// intrinsics (their bodies are never looked at); natively they make the same
// contract functions executable, which is how a failed obligation is replayed.
package ecore

import (
	"fmt"
	"reflect"
)

type vSkip struct{}
type vFail struct{ name string }

// vTape is the choice sequence a generator draws from.
type vTape struct {
	text  []string // the pieces of string inputs
	c     []int
	n     []int
	pos   int
	rnd   func(n int) int
	objs  []any
	descr []string
}

func (t *vTape) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if t.pos < len(t.c) {
		v := t.c[t.pos]
		if v >= n {
			v = n - 1
		}
		if t.pos < len(t.n) {
			t.n[t.pos] = n
		} else {
			t.n = append(t.n, n)
		}
		t.pos++
		return v
	}
	v := 0
	if t.rnd != nil {
		v = t.rnd(n)
	}
	t.c = append(t.c, v)
	t.n = append(t.n, n)
	t.pos++
	return v
}

func (t *vTape) Bool() bool { return t.Choose(2) == 1 }

// Keep registers an object in the universe quantifiers range over natively.
func (t *vTape) Keep(x any) { t.objs = append(t.objs, x) }

type vEv struct {
	kind int
	args [4]any
}

var (
	vEvents   []vEv
	vCurTape  *vTape
	vEnsured  map[string]int
	vKnownBad map[string]bool
)

func vRequires(b bool) {
	if !b {
		panic(vSkip{})
	}
}

func vEnsures(name string, b bool) {
	if vEnsured != nil {
		vEnsured[name]++
	}
	if !b {
		panic(vFail{name})
	}
}

func vAssert(name string, b bool) { vEnsures(name, b) }
func vHint(b bool)                {}

// vTrig names the terms that make the enclosing quantifier instantiate.
func vTrig(b bool, terms ...any) bool { return b }

func vCall(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case vSkip, vFail:
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

func vForall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// vSum is the sum of f(0) ... f(n-1).
func vSum(n int, f func(i int) int) int {
	r := 0
	for i := 0; i < n; i++ {
		r += f(i)
	}
	return r
}

// vFold iterates step over 0 ... n-1, starting with init.
func vFold[T any](n int, init T, step func(acc T, i int) T) T {
	for i := 0; i < n; i++ {
		init = step(init, i)
	}
	return init
}

// vFoldBy is vFold with a parameter.
func vFoldBy[T, P any](n int, init T, step func(acc T, i int, p P) T, p P) T {
	for i := 0; i < n; i++ {
		init = step(init, i, p)
	}
	return init
}

func vExists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

var vInts = []int{-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
var vStrings = []string{"", "a", "b", "ab", "x", "y", "1", "2"}

func vUniverse[T any]() []T {
	var r []T
	var z T
	rt := reflect.TypeOf(&z).Elem()
	switch rt.Kind() {
	case reflect.Int:
		for _, i := range vInts {
			r = append(r, any(i).(T))
		}
		return r
	case reflect.String:
		for _, i := range vStrings {
			r = append(r, any(i).(T))
		}
		return r
	case reflect.Interface:
		r = append(r, z)
	}
	for _, o := range vCurTape.objs {
		if x, ok := o.(T); ok {
			r = append(r, x)
		}
	}
	return r
}

// vAll / vAny quantify over every value of a type (natively: the values of the trial).
func vAll[T any](f func(x T) bool) bool {
	for _, x := range vUniverse[T]() {
		if !f(x) {
			return false
		}
	}
	return true
}

func vAny[T any](f func(x T) bool) bool {
	for _, x := range vUniverse[T]() {
		if f(x) {
			return true
		}
	}
	return false
}

func vImplies(a, b bool) bool { return !a || b }
func vIff(a, b bool) bool     { return a == b }
func vSame(a, b any) bool {
	if a != nil && b != nil && (!reflect.TypeOf(a).Comparable() || !reflect.TypeOf(b).Comparable()) {
		x, y := reflect.ValueOf(a), reflect.ValueOf(b)
		return x.Type() == y.Type() && x.Kind() == reflect.Slice && x.Len() == y.Len() && x.Pointer() == y.Pointer()
	}
	return a == b
}
func vPure[T any](x T) T  { return x }
func vMerge[T any](x T) T { return x }

// vSeq is an immutable copy of a slice's content.
type vSeq[T any] struct{ s []T }

func (q vSeq[T]) Len() int   { return len(q.s) }
func (q vSeq[T]) At(i int) T { return q.s[i] }

func vSnap[T any](s []T) vSeq[T] { return vSeq[T]{append([]T(nil), s...)} }

// vMap is an immutable copy of a map's content.
type vMap[K comparable, V any] struct{ m map[K]V }

func (q vMap[K, V]) Len() int     { return len(q.m) }
func (q vMap[K, V]) Has(k K) bool { _, ok := q.m[k]; return ok }
func (q vMap[K, V]) Get(k K) V    { return q.m[k] }

func vSnapMap[K comparable, V any](m map[K]V) vMap[K, V] {
	r := map[K]V{}
	for k, v := range m {
		r[k] = v
	}
	return vMap[K, V]{r}
}

func vMkEv(kind int, args []any) vEv {
	e := vEv{kind: kind}
	copy(e.args[:], args)
	return e
}

// vEmit appends an event to the global event trace.
func vEmit(kind int, args ...any) { vEvents = append(vEvents, vMkEv(kind, args)) }
func vTraceLen() int              { return len(vEvents) }
func vEvent(i int, kind int, args ...any) bool {
	if i < 0 || i >= len(vEvents) || vEvents[i].kind != kind {
		return false
	}
	e := vMkEv(kind, args)
	for j := range e.args {
		if !vSame(vEvents[i].args[j], e.args[j]) {
			return false
		}
	}
	return true
}
func vEvKind(i int) int            { return vEvents[i].kind }
func vEvArg(i, n int) any          { return vEvents[i].args[n] }
func vFresh(x any) bool            { return true }
func vBorn(x any) bool             { return true }
func vModifies(l ...any)           {}
func vElems(x any) any             { return nil }
func vKeys(x any) any              { return nil }
func vObj(x any) any               { return nil }
func vTrace() any                  { return nil }
func vVisited(k any) bool          { return true }
func vTypeID(x any) int            { return 0 }
func vPickInt() int                { return 0 }
func vPickBool() bool              { return false }
func vPickAny() any                { return nil }
func vOldLoop[T any](f func() T) T { return f() }
func vAtStart[T any](f func() T) T { return f() }
func vOld[T any](f func() T) T     { return f() }

// vUF is an arbitrary (but fixed) function of its arguments.
func vUF(name string, args ...any) any { return fmt.Sprintf("%s%v", name, args) }
func vUFB(name string, args ...any) bool {
	h := 0
	for _, c := range fmt.Sprintf("%s%v", name, args) {
		h = h*31 + int(c)
	}
	return h&4 == 0
}

// vShow renders a generated input.
func vShow(x any) string {
	switch v := x.(type) {
	case *BasicEList:
		return fmt.Sprintf("BasicEList(unique=%v)%v", v.isUnique, v.data)
	case interface{ vShow() string }:
		return v.vShow()
	}
	s := fmt.Sprintf("%+v", x)
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// vApart: two maps or pointers are different.
func vApart(a, b any) bool { return reflect.ValueOf(a).Pointer() != reflect.ValueOf(b).Pointer() }

// vSep: two slices do not share their backing array.
func vSep[T any](a, b []T) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return true
	}
	return &a[:cap(a)][cap(a)-1] != &b[:cap(b)][cap(b)-1]
}

func vStr(x any) string { return fmt.Sprint(x) }

// vLockFree: nobody holds the lock (natively: true by construction of the inputs).
func vLockFree(l any) bool { return true }
