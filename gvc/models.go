package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// Models of functions outside the verified text. Every use is recorded as a trusted contract.

type modelFn func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val

const hive = "github.com/iotaledger/hive.go/"

var models = map[string]modelFn{}

func trusted(name string, f modelFn) modelFn {
	return func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		x.w.trust(name)
		return f(x, st, args, rt, pos)
	}
}

func funcModel(name string) modelFn {
	if m, ok := models[name]; ok {
		return trusted(name, m)
	}
	if strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "(*sync/atomic.") {
		return trusted(name, func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
			if t, ok := rt.(*types.Tuple); ok && t.Len() == 0 {
				return Val{T: rt}
			}
			return x.freshVal("sync", rt)
		})
	}
	return nil
}

func ifaceModel(x *Exec, t types.Type, method string) func(x *Exec, st *State, args []Val, rt types.Type) Val {
	return nil
}

// harmlessDefer: deferred calls that have no modelled effect.
func (x *Exec) harmlessDefer(d deferred) bool {
	if f := d.call.StaticCallee(); f != nil {
		n := fnName(f)
		return strings.HasPrefix(n, "(*sync.")
	}
	return false
}

func constNew(name string) modelFn {
	return func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val { return x.newErr(name) }
}

// joinErr: nil iff every argument is nil.
func joinErr(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
	s := args[0]
	e := x.newErr("join")
	n := s.L[2]
	if n.op == OInt && n.ival.Cmp(bi(16)) <= 0 {
		c := x.content(st, s)
		allNil := True
		for i := int64(0); i < n.ival.Int64(); i++ {
			allNil = And(allNil, Eq(Select(c[0], Add(s.L[1], I(i))), I(0)))
		}
		allNil = st.decide(allNil)
		return Val{T: rt, L: []*Term{Ite(allNil, I(0), e.L[0]), Ite(allNil, I(0), e.L[1])}}
	}
	b := Bound("je$", SInt)
	c := x.content(st, s)
	allNil := Forall(b, Or(Not(And(Le(I(0), b), Lt(b, n))), Eq(Select(c[0], Add(s.L[1], b)), I(0))))
	return Val{T: rt, L: []*Term{Ite(allNil, I(0), e.L[0]), Ite(allNil, I(0), e.L[1])}}
}

func pair(rt types.Type, ls ...*Term) Val { return Val{T: rt, L: ls} }

// exactOrErr: the safemath contract: the mathematical result, or (0, error) when it does not fit the type.
func exactOrErr(op func(a, b *Term) *Term) modelFn {
	return func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		t := args[0].T
		lo, hi := intRange(t)
		r := op(args[0].one(), args[1].one())
		ok := st.decide(And(Le(IntC(lo), r), Le(r, IntC(hi))))
		e := x.newErr("overflow")
		v := Ite(ok, r, I(0))
		if v != r && v.op == OIte {
			v = v.withRange(lo, hi)
		}
		return pair(rt, v, Ite(ok, I(0), e.L[0]), Ite(ok, I(0), e.L[1]))
	}
}

func (x *Exec) bigOf(st *State, p Val, pos token.Pos) *Term {
	return x.load(st, x.deref(st, p, pos)).one()
}

func (x *Exec) bigSet(st *State, p Val, v *Term, pos token.Pos) Val {
	a := x.deref(st, p, pos)
	x.store(st, a, scalar(p.T.Underlying().(*types.Pointer).Elem(), v))
	return p
}

func bigBin(op func(a, b *Term) *Term) modelFn {
	return func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return x.bigSet(st, args[0], op(x.bigOf(st, args[1], pos), x.bigOf(st, args[2], pos)), pos)
	}
}

// euclid: truncated quotient for arbitrary signs
func truncDiv(x *Exec) func(a, b *Term) *Term {
	return func(a, b *Term) *Term { q, _ := x.goDiv(a, b); return q }
}

const nsPerSec = 1000000000

func newObj(x *Exec, st *State, rt types.Type, l []*Term) Val {
	pt := rt.Underlying().(*types.Pointer)
	return Val{T: rt, L: []*Term{x.initObj(st, pt.Elem(), l)}}
}

// uninterp: deterministic, otherwise unspecified function of scalar arguments
func uninterp(name string) modelFn {
	return func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		var as []*Term
		for _, a := range args {
			a = x.plain(st, a)
			if sl, ok := a.T.Underlying().(*types.Slice); ok {
				if b, isb := sl.Elem().Underlying().(*types.Basic); isb && b.Kind() == types.Uint8 {
					as = append(as, x.bytesToStr(st, a))
					continue
				}
				panic(unsupported("slice argument of " + name))
			}
			as = append(as, a.L...)
		}
		v := Val{T: rt}
		for i, l := range leaves(rt) {
			_ = i
			v.L = append(v.L, App("ext:"+name+l.path, l.sort, as...))
		}
		return x.typedVal(v)
	}
}

func freshModel(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
	return x.freshVal("ext", rt)
}

func bitLen(n int) modelFn {
	return func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		v := args[0].one()
		r := I(0)
		for i := 0; i < n; i++ {
			r = Ite(Le(IntC(pow2(uint(i))), v), I(int64(i+1)), r)
		}
		return scalar(rt, r.withRange(bigZero, bi(int64(n))))
	}
}

func tzModel(n int) modelFn {
	return func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		v := args[0].one()
		r := I(int64(n))
		for i := n - 1; i >= 0; i-- {
			r = Ite(Eq(Mod(v, IntC(pow2(uint(i+1)))), IntC(pow2(uint(i)))), I(int64(i)), r)
		}
		return scalar(rt, r.withRange(bigZero, bi(int64(n))))
	}
}

func onesModel(n int) modelFn {
	return func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		v := args[0].one()
		r := I(0)
		for i := 0; i < n; i++ {
			r = Add(r, Mod(Div(v, IntC(pow2(uint(i)))), I(2)))
		}
		return scalar(rt, r)
	}
}

func init() {
	for _, n := range []string{"New", "Wrap", "Wrapf", "WithMessage", "WithMessagef", "Errorf", "WithStack"} {
		models[hive+"ierrors."+n] = constNew(n)
	}
	models["errors.New"] = constNew("New")
	models["fmt.Errorf"] = constNew("Errorf")
	models[hive+"ierrors.Join"] = joinErr
	models[hive+"ierrors.Chain"] = joinErr
	models["errors.Join"] = joinErr
	isModel := func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		a, b := args[0], args[1]
		r := App("ext:errors.Is", SBool, a.L[0], a.L[1], b.L[0], b.L[1])
		same := And(Eq(a.L[0], b.L[0]), Eq(a.L[1], b.L[1]))
		return scalar(rt, Ite(Eq(a.L[0], I(0)), Eq(b.L[0], I(0)), Or(same, r)))
	}
	models[hive+"ierrors.Is"] = isModel
	models["errors.Is"] = isModel
	models["fmt.Sprintf"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return scalar(rt, Fresh("sprintf", SStr))
	}
	models["fmt.Sprint"] = models["fmt.Sprintf"]

	for _, n := range []string{"SafeMul", "SafeMulUint64", "SafeMulInt64"} {
		models[hive+"core/safemath."+n] = exactOrErr(Mul)
	}
	models[hive+"core/safemath.SafeAdd"] = exactOrErr(func(a, b *Term) *Term { return Add(a, b) })
	models[hive+"core/safemath.SafeSub"] = exactOrErr(Sub)
	models[hive+"core/safemath.SafeDiv"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		b := args[1].one()
		z := st.decide(Eq(b, I(0)))
		e := x.newErr("div0")
		var q *Term
		if z == True {
			q = I(0)
		} else {
			q, _ = x.goDiv(args[0].one(), b)
		}
		lo, hi := intRange(args[0].T)
		if lo.Sign() < 0 {
			over := Lt(IntC(hi), q)
			z = Or(z, over)
		}
		return pair(rt, Ite(z, I(0), q).withRange(lo, hi), Ite(z, e.L[0], I(0)), Ite(z, e.L[1], I(0)))
	}
	models[hive+"core/safemath.SafeLeftShift"] = freshModel

	// lo.Map etc. are inlined; PanicOnErr is inlined as well.

	models["bytes.Equal"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return scalar(rt, x.bytesEqual(st, args[0], args[1]))
	}
	models["bytes.Compare"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		a, b := x.bytesToStr(st, args[0]), x.bytesToStr(st, args[1])
		eq := x.bytesEqual(st, args[0], args[1])
		lt := x.strLess(a, b)
		st.assume(Implies(eq, Not(lt)))
		return scalar(rt, Ite(eq, I(0), Ite(lt, I(-1), I(1))))
	}
	models["strings.Compare"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		a, b := args[0].one(), args[1].one()
		eq, lt := x.strEq(a, b), x.strLess(a, b)
		st.assume(Implies(eq, Not(lt)))
		return scalar(rt, Ite(eq, I(0), Ite(lt, I(-1), I(1))))
	}
	models["cmp.Compare"] = nil
	delete(models, "cmp.Compare")

	models["math/bits.Len64"] = bitLen(64)
	models["math/bits.Len"] = bitLen(64)
	models["math/bits.Len32"] = bitLen(32)
	models["math/bits.Len16"] = bitLen(16)
	models["math/bits.Len8"] = bitLen(8)
	models["math/bits.TrailingZeros64"] = tzModel(64)
	models["math/bits.TrailingZeros"] = tzModel(64)
	models["math/bits.TrailingZeros32"] = tzModel(32)
	models["math/bits.TrailingZeros8"] = tzModel(8)
	models["math/bits.OnesCount8"] = onesModel(8)
	models["math/bits.OnesCount32"] = onesModel(32)
	models["math/bits.OnesCount64"] = onesModel(64)
	models["math/bits.Mul64"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		p := Mul(args[0].one(), args[1].one())
		m := IntC(pow2(64))
		return pair(rt, Div(p, m), Mod(p, m))
	}
	models["math/bits.Add64"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		p := Add(args[0].one(), args[1].one(), args[2].one())
		m := IntC(pow2(64))
		return pair(rt, Mod(p, m), Div(p, m))
	}
	models["math/bits.Sub64"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		p := Sub(Sub(args[0].one(), args[1].one()), args[2].one())
		m := IntC(pow2(64))
		return pair(rt, Mod(p, m), Ite(Lt(p, I(0)), I(1), I(0)))
	}

	models["math/big.NewInt"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return newObj(x, st, rt, []*Term{args[0].one()})
	}
	models["(*math/big.Int).Add"] = bigBin(func(a, b *Term) *Term { return Add(a, b) })
	models["(*math/big.Int).Sub"] = bigBin(Sub)
	models["(*math/big.Int).Mul"] = bigBin(Mul)
	models["(*math/big.Int).Set"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return x.bigSet(st, args[0], x.bigOf(st, args[1], pos), pos)
	}
	models["(*math/big.Int).SetUint64"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return x.bigSet(st, args[0], args[1].one(), pos)
	}
	models["(*math/big.Int).SetInt64"] = models["(*math/big.Int).SetUint64"]
	models["(*math/big.Int).Neg"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return x.bigSet(st, args[0], Neg(x.bigOf(st, args[1], pos)), pos)
	}
	models["(*math/big.Int).Abs"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		v := x.bigOf(st, args[1], pos)
		return x.bigSet(st, args[0], Ite(Lt(v, I(0)), Neg(v), v), pos)
	}
	models["(*math/big.Int).Cmp"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		a, b := x.bigOf(st, args[0], pos), x.bigOf(st, args[1], pos)
		return scalar(rt, Ite(Eq(a, b), I(0), Ite(Lt(a, b), I(-1), I(1))))
	}
	models["(*math/big.Int).CmpAbs"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		abs := func(v *Term) *Term { return Ite(Lt(v, I(0)), Neg(v), v) }
		a, b := abs(x.bigOf(st, args[0], pos)), abs(x.bigOf(st, args[1], pos))
		return scalar(rt, Ite(Eq(a, b), I(0), Ite(Lt(a, b), I(-1), I(1))))
	}
	models["(*math/big.Int).Sign"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		a := x.bigOf(st, args[0], pos)
		return scalar(rt, Ite(Eq(a, I(0)), I(0), Ite(Lt(a, I(0)), I(-1), I(1))))
	}
	models["(*math/big.Int).Uint64"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return scalar(rt, x.wrap(st, x.bigOf(st, args[0], pos), types.Typ[types.Uint64]))
	}
	models["(*math/big.Int).Int64"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return scalar(rt, x.wrap(st, x.bigOf(st, args[0], pos), types.Typ[types.Int64]))
	}
	models["(*math/big.Int).IsUint64"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		a := x.bigOf(st, args[0], pos)
		return scalar(rt, And(Le(I(0), a), Lt(a, IntC(pow2(64)))))
	}
	models["(*math/big.Int).IsInt64"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		a := x.bigOf(st, args[0], pos)
		return scalar(rt, And(Le(IntC(new(big.Int).Neg(pow2(63))), a), Lt(a, IntC(pow2(63)))))
	}
	models["(*math/big.Int).BitLen"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		v := x.bigOf(st, args[0], pos)
		v = Ite(Lt(v, I(0)), Neg(v), v)
		r := App("ext:bitlen", SInt, v).withRange(bigZero, maxLen)
		for _, k := range []int64{0, 64, 256, 257} {
			st.assume(Eq(Le(r, I(k)), Lt(v, IntC(pow2(uint(k))))))
		}
		return scalar(rt, r)
	}
	models["(*math/big.Int).Quo"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		b := x.bigOf(st, args[2], pos)
		x.must(st, Not(Eq(b, I(0))), "division by zero", pos)
		return x.bigSet(st, args[0], truncDiv(x)(x.bigOf(st, args[1], pos), b), pos)
	}
	models["(*math/big.Int).SetString"] = nil
	delete(models, "(*math/big.Int).SetString")

	// time: the mathematical value is nanoseconds since the Unix epoch
	models["time.Unix"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return scalar(rt, Add(Mul(args[0].one(), I(nsPerSec)), args[1].one()))
	}
	models["(time.Time).Unix"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return scalar(rt, x.wrap(st, Div(args[0].one(), I(nsPerSec)), types.Typ[types.Int64]))
	}
	models["(time.Time).UnixNano"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return scalar(rt, x.wrap(st, args[0].one(), types.Typ[types.Int64]))
	}
	models["(time.Time).Add"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return scalar(rt, Add(args[0].one(), args[1].one()))
	}
	models["(time.Time).Sub"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		d := Sub(args[0].one(), args[1].one())
		lo, hi := intRange(types.Typ[types.Int64])
		return scalar(rt, Ite(Lt(d, IntC(lo)), IntC(lo), Ite(Lt(IntC(hi), d), IntC(hi), d)))
	}
	models["(time.Time).Before"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return scalar(rt, Lt(args[0].one(), args[1].one()))
	}
	models["(time.Time).After"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return scalar(rt, Lt(args[1].one(), args[0].one()))
	}
	models["(time.Time).Equal"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return scalar(rt, Eq(args[1].one(), args[0].one()))
	}
	models["(time.Time).UTC"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return scalar(rt, args[0].one())
	}
	models["time.Now"] = freshModel
	models["(time.Duration).Seconds"] = freshModel

	models["github.com/iotaledger/hive.go/crypto/ed25519.Verify"] = uninterp("ed25519.Verify")
	models["golang.org/x/crypto/blake2b.Sum256"] = uninterp("blake2b.Sum256")
	for _, n := range []string{"ToLower", "ToUpper"} {
		models["strings."+n] = uninterp("strings." + n)
	}
}

// bytesEqual: content equality of two byte slices.
func (x *Exec) bytesEqual(st *State, a, b Val) *Term {
	a, b = x.plain(st, a), x.plain(st, b)
	if c := st.decide(Eq(a.L[2], b.L[2])); c == False {
		return False
	}
	n := a.L[2]
	if n.op != OInt {
		n = b.L[2]
	}
	ca, cb := x.content(st, a)[0], x.content(st, b)[0]
	if n.op == OInt && n.ival.Cmp(bi(64)) <= 0 {
		r := Eq(a.L[2], b.L[2])
		for i := int64(0); i < n.ival.Int64(); i++ {
			r = And(r, Eq(Select(ca, Add(a.L[1], I(i))), Select(cb, Add(b.L[1], I(i)))))
		}
		return r
	}
	return x.strEq(mkStr(ca, a.L[1], a.L[2]), mkStr(cb, b.L[1], b.L[2]))
}
