// Package zzgvc is the specification language of the contracts in /verif/contracts. The verifier (/verif/gvc) interprets
// these functions logically; the bodies here give them their executable meaning, so that every contract can also be run
// against the real code (replay of counterexamples).
package zzgvc

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"time"
)

// Int is a mathematical integer.
type Int struct{ v *big.Int }

// Reject is raised when a precondition does not hold.
type Reject struct{}

// Fail is raised when a postcondition does not hold.
type Fail struct{ Label string }

type Integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

// Requires states a precondition of the target.
func Requires(b bool) {
	if !b {
		panic(Reject{})
	}
}

// Assume states an assumption that is not checked; every use is reported.
func Assume(b bool, why string) {
	if !b {
		panic(Reject{})
	}
}

// Ensures states a postcondition.
func Ensures(b bool, label string) {
	if !b {
		panic(Fail{label})
	}
}

// Assert states an intermediate assertion.
func Assert(b bool, label string) {
	if !b {
		panic(Fail{label})
	}
}

// Lemma is proved where it is stated and available afterwards.
func Lemma(b bool, label string) {
	if !b {
		panic(Fail{"lemma: " + label})
	}
}

// NativeLimit skips inputs that are too expensive to execute; it means nothing to the verifier.
func NativeLimit(b bool) {
	if !b {
		panic(Reject{})
	}
}

// NoPanic switches on the obligations for absence of runtime panics.
func NoPanic() {}

func of(v *big.Int) Int { return Int{v} }
func (a Int) b() *big.Int {
	if a.v == nil {
		return new(big.Int)
	}
	return a.v
}

// N lifts a machine integer to a mathematical integer.
func N[T Integer](x T) Int {
	rv := reflect.ValueOf(x)
	if rv.CanInt() {
		return of(big.NewInt(rv.Int()))
	}
	return of(new(big.Int).SetUint64(rv.Uint()))
}

// K is an integer literal.
func K(x int) Int { return of(big.NewInt(int64(x))) }

// Big is the value of a big integer.
func Big(x *big.Int) Int { return of(new(big.Int).Set(x)) }

// OldBig is the value a big integer had before the contract called the code (for integers the code has no reason to modify).
func OldBig(x *big.Int) Int { return of(new(big.Int).Set(x)) }

// Lit is a (large) integer literal.
func Lit(s string) Int {
	v, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("literal " + s)
	}
	return of(v)
}

func (a Int) Add(o Int) Int { return of(new(big.Int).Add(a.b(), o.b())) }
func (a Int) Sub(o Int) Int { return of(new(big.Int).Sub(a.b(), o.b())) }
func (a Int) Mul(o Int) Int { return of(new(big.Int).Mul(a.b(), o.b())) }

// Div is Euclidean division (floor for positive divisors).
func (a Int) Div(o Int) Int {
	if o.b().Sign() == 0 {
		panic(Reject{})
	}
	return of(new(big.Int).Div(a.b(), o.b()))
}
func (a Int) Mod(o Int) Int {
	if o.b().Sign() == 0 {
		panic(Reject{})
	}
	return of(new(big.Int).Mod(a.b(), o.b()))
}
func (a Int) Neg() Int      { return of(new(big.Int).Neg(a.b())) }
func (a Int) Le(o Int) bool { return a.b().Cmp(o.b()) <= 0 }
func (a Int) Lt(o Int) bool { return a.b().Cmp(o.b()) < 0 }
func (a Int) Ge(o Int) bool { return a.b().Cmp(o.b()) >= 0 }
func (a Int) Gt(o Int) bool { return a.b().Cmp(o.b()) > 0 }
func (a Int) Eq(o Int) bool { return a.b().Cmp(o.b()) == 0 }
func (a Int) Max(o Int) Int {
	if a.Ge(o) {
		return a
	}
	return o
}
func (a Int) Min(o Int) Int {
	if a.Le(o) {
		return a
	}
	return o
}
func (a Int) String() string { return a.b().String() }

// If is a conditional expression (both branches are evaluated).
func If[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// Pow2 is 2^n.
func Pow2[T Integer](n T) Int { return of(new(big.Int).Lsh(big.NewInt(1), uint(n))) }

// Implies is implication (both sides are evaluated).
func Implies(a, b bool) bool { return !a || b }

// Forall holds when f holds for all lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists holds when f holds for some lo <= i < hi.
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// Sum is the sum of f(i) for lo <= i < hi.
func Sum(lo, hi int, f func(i int) Int) Int {
	r := K(0)
	for i := lo; i < hi; i++ {
		r = r.Add(f(i))
	}
	return r
}

func ForallMap[M ~map[X]V, X comparable, V any](m M, f func(k X, v V) bool) bool {
	for k, v := range m {
		if !f(k, v) {
			return false
		}
	}
	return true
}

func ExistsMap[M ~map[X]V, X comparable, V any](m M, f func(k X, v V) bool) bool {
	for k, v := range m {
		if f(k, v) {
			return true
		}
	}
	return false
}

func SumMap[M ~map[X]V, X comparable, V any](m M, f func(k X, v V) Int) Int {
	r := K(0)
	for k, v := range m {
		r = r.Add(f(k, v))
	}
	return r
}

// VisitedSum and VisitedForall range over the keys the enclosing map loop has already visited (loop invariants only).
func VisitedSum[M ~map[X]V, X comparable, V any](m M, f func(k X, v V) Int) Int {
	panic("loop invariant")
}
func VisitedForall[M ~map[X]V, X comparable, V any](m M, f func(k X, v V) bool) bool {
	panic("loop invariant")
}

// Iter is the number of completed iterations of the innermost loop (loop invariants only).
func Iter() int { panic("loop invariant") }

// NewInLoop holds for pointers which are nil or were allocated in the innermost loop (loop invariants only).
func NewInLoop[T any](p *T) bool { panic("loop invariant") }

// Same is reference equality of slices, maps and pointers.
func Same[T any](a, b T) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	switch x.Kind() {
	case reflect.Slice, reflect.Map, reflect.Pointer:
		return x.Pointer() == y.Pointer()
	}
	return false
}

// Disjoint holds when the two slices, maps or pointers do not refer to the same memory.
func Disjoint[T any](a, b T) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Kind() == reflect.Slice {
		if x.Cap() == 0 || y.Cap() == 0 {
			return true
		}
	}
	if x.IsNil() {
		return true
	}
	return x.Pointer() != y.Pointer()
}

// New holds for objects allocated by the code under verification (natively: for everything).
func New[T any](p T) bool { return true }

// Copied: a is what Clone returned for o (b is such a clone). Natively: a equals o, but is another object.
func Copied(a, b, o any) bool { return copied(a, o) }

// CopiedPtr is Copied for pointers.
func CopiedPtr[T any](a, b, o *T) bool { return copied(a, o) }

// SameIface is identity of interface values.
func SameIface(a, b any) bool {
	defer func() { recover() }()
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

// Bytes is the value of a byte slice.
func Bytes[T ~[]byte](b T) string { return string(b) }

// Time is nanoseconds since the Unix epoch.
func Time(t time.Time) Int {
	s := of(big.NewInt(t.Unix()))
	return s.Mul(K(1000000000)).Add(K(t.Nanosecond()))
}

// StrLess is the lexicographic order on byte strings.
func StrLess(a, b string) bool { return bytes.Compare([]byte(a), []byte(b)) < 0 }

// Bit is bit i of a non-negative integer.
func Bit[T Integer](v Int, i T) bool { return v.b().Bit(int(i)) == 1 }

var anySource func(t reflect.Type) reflect.Value

// Any is an arbitrary value of the type.
func Any[T any]() T {
	var z T
	if anySource != nil {
		return anySource(reflect.TypeOf(&z).Elem()).Interface().(T)
	}
	return z
}

var _ = fmt.Sprint

// ToInt converts a mathematical integer to an index.
func ToInt(a Int) int {
	if !a.b().IsInt64() {
		panic(Reject{})
	}
	return int(a.b().Int64())
}

// Scratch is the object itself to the verifier; on execution it is a copy (of the struct, its maps and what their pointers point at),
// so that a specification can evaluate a function with side effects.
func Scratch[T any](p *T) *T {
	c := *p
	v := reflect.ValueOf(&c).Elem()
	if v.Kind() == reflect.Struct {
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() != reflect.Map || f.IsNil() || !f.CanSet() {
				continue
			}
			m := reflect.MakeMap(f.Type())
			for it := f.MapRange(); it.Next(); {
				e := it.Value()
				if e.Kind() == reflect.Pointer && !e.IsNil() {
					n := reflect.New(e.Type().Elem())
					n.Elem().Set(e.Elem())
					e = n
				}
				m.SetMapIndex(it.Key(), e)
			}
			f.Set(m)
		}
	}
	return &c
}

func copied(a, o any) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(o)
	if !x.IsValid() || !y.IsValid() {
		return x.IsValid() == y.IsValid()
	}
	if x.Type() != y.Type() {
		return false
	}
	if x.Kind() == reflect.Pointer && !x.IsNil() && x.Type().Elem().Size() > 0 && x.Pointer() == y.Pointer() {
		return false
	}
	return deepEq(x, y, 0)
}

// deepEq is equality of contents; nil lists and maps equal empty ones.
func deepEq(x, y reflect.Value, d int) bool {
	if x.IsValid() != y.IsValid() {
		return false
	}
	if !x.IsValid() || d > 40 {
		return true
	}
	if x.Type() != y.Type() {
		return false
	}
	switch x.Kind() {
	case reflect.Pointer:
		if x.IsNil() || y.IsNil() || x.Pointer() == y.Pointer() {
			return x.IsNil() == y.IsNil()
		}
		if b, is := x.Interface().(*big.Int); is {
			return b.Cmp(y.Interface().(*big.Int)) == 0
		}

		return deepEq(x.Elem(), y.Elem(), d+1)
	case reflect.Interface:
		return deepEq(x.Elem(), y.Elem(), d+1)
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			if x.Type().Field(i).IsExported() && !deepEq(x.Field(i), y.Field(i), d+1) {
				return false
			}
		}

		return true
	case reflect.Slice, reflect.Array:
		if x.Len() != y.Len() {
			return false
		}
		for i := 0; i < x.Len(); i++ {
			if !deepEq(x.Index(i), y.Index(i), d+1) {
				return false
			}
		}

		return true
	case reflect.Map:
		if x.Len() != y.Len() {
			return false
		}
		for _, k := range x.MapKeys() {
			if !y.MapIndex(k).IsValid() || !deepEq(x.MapIndex(k), y.MapIndex(k), d+1) {
				return false
			}
		}

		return true
	case reflect.Func, reflect.Chan:
		return true
	}

	return reflect.DeepEqual(x.Interface(), y.Interface())
}
