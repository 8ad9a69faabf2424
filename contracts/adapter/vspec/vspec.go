// Package vspec declares the specification vocabulary of the contracts. The
// functions are interpreted by gov and never run.
package vspec

// Requires states a precondition of the contracted call.
func Requires(cond bool) {}

// Ensures states a named postcondition.
func Ensures(label string, cond bool) {}

// Assert states a named intermediate fact, which is then available.
func Assert(label string, cond bool) {}

// Assume is part of the trusted base: it is listed in the evidence.
func Assume(cond bool) {}

// ForAll and Exists quantify over lo <= i < hi.
func ForAll(lo, hi int, f func(i int) bool) bool { panic("spec") }
func Exists(lo, hi int, f func(i int) bool) bool { panic("spec") }

// Havoc forgets what p points to (decoding into p).
func Havoc(p interface{}) {}

// FuncIs: both function values are the same function.
func FuncIs(f, g interface{}) bool { panic("spec") }

// Snapshot remembers the heap; At evaluates f in a remembered heap.
func Snapshot() int                  { panic("spec") }
func At(snap int, f func() bool) bool { panic("spec") }

// Unchanged: what the pointers, maps and slices refer to is as it was.
func Unchanged(snap int, p ...interface{}) bool { panic("spec") }

// Same: equality of two values, also where Go has no ==.
func Same(a, b interface{}) bool { panic("spec") }

// Fresh: the object was allocated after the contracted call began.
func Fresh(p interface{}) bool { panic("spec") }

// Ref: the identity of what a pointer or map refers to.
func Ref(p interface{}) *Object { panic("spec") }

type Object struct{}

func Describe(v interface{}) {}

// Modifies lists what the contracted call may change of the objects which
// exist before it (pointers, maps, slices, function values called). It comes
// before the call.
func Modifies(p ...interface{}) {}

// Calls is the number of calls made of an unknown function value so far;
// CallRes its k-th result in the i-th call.
func Calls(f interface{}) int                           { panic("spec") }
func CallRes(f interface{}, i int, k int) interface{} { panic("spec") }

// IndexOf and Contains are those of package strings.
func IndexOf(s, sub string) int       { panic("spec") }
func Contains(s, sub string) bool     { panic("spec") }

// Known: the number is known on this path.
func Known(n int) bool { panic("spec") }
