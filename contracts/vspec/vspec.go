//go:build verif

// Package vspec is the contract language of the verifier. The functions have no
// executable meaning; the verifier interprets them.
package vspec

// Seq is a ghost sequence.
type Seq struct{ p *byte }

// Z is a mathematical integer: arithmetic on it never wraps around.
type Z int64

// Requires assumes a precondition.
func Requires(b bool) {}

// Assume assumes a fact (used by models of external functions).
func Assume(b bool) {}

// Ensures asserts a postcondition.
func Ensures(label string, b bool) {}

// Assert asserts a condition (the precondition of a callee, or a lemma).
func Assert(label string, b bool) {}

// Any is an arbitrary value.
func Any[T any](name string) (t T) { return }

// Pure is the value of an uninterpreted function.
func Pure[T any](name string, args ...any) (t T) { return }

// Forall is true when f holds for every i with lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool { return false }

// Eq compares two values of any type component by component.
func Eq[T any](a, b T) bool { return false }

// If is the value of a or b; both are evaluated.
func If[T any](c bool, a, b T) (t T) { return }

// Select is If, and decides c first where it can.
func Select[T any](c bool, a, b T) (t T) { return }

// Cover marks a point that must be reachable.
func Cover(label string) {}

// Entry evaluates f in the state at the entry of the loop.
func Entry[T any](f func() T) (t T) { return }

// Candidate offers a loop invariant: for every loop that runs from here on the verifier
// tries f with every choice of loop variables of the right types for its parameters, and
// uses those that it proves inductive.
func Candidate[F any](f F) {}

// Outer offers an invariant for loops that are not inside of another loop.
func Outer[F any](f F) {}

// EndCandidates withdraws all candidates.
func EndCandidates() {}

// Split makes the verifier treat the cases of b separately.
func Split(b bool) {}

// Concrete makes the verifier treat every value of i in [lo,hi) separately.
func Concrete(i, lo, hi int) int { return i }

func Nil() Seq              { return Seq{} }
func Snoc(s Seq, v any) Seq { return Seq{} }
func Cons(v any, s Seq) Seq { return Seq{} }

// View is the content of a slice as a sequence.
func View[T any](s []T) Seq { return Seq{} }

// FreshRef asserts nothing; it makes an object with arbitrary content.
func FreshPtr[T any](name string) *T { return nil }

// FillPure sets every p[i] to Pure(name, from+i).
func FillPure(p []byte, name string, from int64) {}
