package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// negGoal negates a goal, replacing its outer universal quantifiers by fresh constants.
func negGoal(g *Term) *Term { return skolem(Not(g), 0) }

func skolem(t *Term, d int) *Term {
	if d > 20 {
		return t
	}
	switch t.op {
	case ONot:
		a := t.args[0]
		switch a.op {
		case OForall:
			sk := Fresh("sk_"+a.bvar.name, a.bvar.sort)
			if a.bvar.lo != nil || a.bvar.hi != nil {
				sk.withRange(a.bvar.lo, a.bvar.hi)
			}
			return skolem(Not(Subst(a.args[0], a.bvar, sk)), d+1)
		case OOr:
			var l []*Term
			for _, x := range a.args {
				l = append(l, skolem(Not(x), d+1))
			}
			return And(l...)
		case OAnd:
			var l []*Term
			for _, x := range a.args {
				l = append(l, skolem(Not(x), d+1))
			}
			return Or(l...)
		}
	case OAnd:
		var l []*Term
		for _, x := range t.args {
			l = append(l, skolem(x, d+1))
		}
		return And(l...)
	case OOr:
		var l []*Term
		for _, x := range t.args {
			l = append(l, skolem(x, d+1))
		}
		return Or(l...)
	}
	return t
}

var boundCtr int

// nestBound gives a bound variable; deterministic per nesting level so that equal specification terms are shared.
var boundDepth = map[string]int{}

func (x *Exec) withBound(kind string, s *Sort, f func(b *Term)) {
	key := kind + fmt.Sprint(s.id)
	boundDepth[key]++
	n := boundDepth[key]
	defer func() { boundDepth[key]-- }()
	f(Bound(fmt.Sprintf("%s$%d_%d", kind, s.id, n), s))
}

// pureCall evaluates a closure in a copy of the state. It returns the results and the facts assumed on the way.
func (x *Exec) pureCall(st *State, f *Term, args []Val, rt types.Type) ([]*Term, *Term) {
	s := st.clone()
	n := len(s.pc)
	x.quiet++
	x.inQuant++
	np := x.nopanic
	x.nopanic = false
	rec := x.rec
	x.rec = nil
	defer func() {
		x.quiet--
		x.inQuant--
		x.nopanic = np
		x.rec = rec
	}()
	s2, v := x.callVal(s, f, args, token.NoPos, rt)
	if s2 == nil {
		return nil, False
	}
	return v.L, And(s2.pc[minInt(n, len(s2.pc)):]...)
}

func fnSig(t types.Type) *types.Signature { return t.Underlying().(*types.Signature) }

func (x *Exec) intrinsic(st *State, fn *ssa.Function, args []Val, pos token.Pos, rt types.Type) (*State, Val) {
	name := originOf(fn).Name()
	boolT := types.Typ[types.Bool]
	str := func(i int) string {
		t := args[i].one()
		if t.op == OStr {
			return t.name
		}
		return t.String()
	}
	hf := x.harnessFrame()
	harnessUse := hf != nil && hf.use
	none := Val{T: rt}
	switch name {
	case "Requires":
		c := args[0].one()
		if harnessUse {
			x.oblige(st, c, "precondition of "+hf.harness.name, "requires", hf.pos)
		} else {
			st.assume(st.decide(c))
		}
		return st, none
	case "Assume":
		if harnessUse && x.inQuant > 0 {
			return st, none
		}
		st.assume(st.decide(args[0].one()))
		if x.quiet == 0 {
			x.w.assumption(str(1))
		}
		return st, none
	case "Ensures", "Assert":
		c := args[0].one()
		if harnessUse {
			// inside of a quantified formula the (proved) facts about the callee are not repeated
			if x.inQuant == 0 {
				st.assume(st.decide(c))
			}
			return st, none
		}
		k := "ensures"
		if name == "Assert" {
			k = "assert"
		}
		x.oblige(st, c, str(1), k, pos)
		return st, none
	case "Lemma":
		// proved here, then available
		c := args[0].one()
		if !harnessUse {
			x.oblige(st, c, "lemma: "+str(1), "assert", pos)
		}
		return st, none
	case "NativeLimit":
		return st, none
	case "NoPanic":
		x.nopanic = true
		return st, none
	case "N", "ToInt":
		return st, scalar(rt, args[0].one())
	case "K":
		return st, scalar(rt, args[0].one())
	case "OldBig": // the value of a big integer when the contract was entered
		a := x.deref(st, args[0], pos)
		if a.cell != nil || len(a.idx) > 0 {
			return st, scalar(rt, x.bigOf(st, args[0], pos))
		}
		key, s := regionKey(a.root, leaves(a.root)[a.lo])
		return st, scalar(rt, Select(initRegion(key, s), a.ref))
	case "Big":
		a := x.deref(st, args[0], pos)
		return st, scalar(rt, x.load(st, a).one())
	case "Lit":
		n, ok := new(big.Int).SetString(str(0), 0)
		if !ok {
			panic(unsupported("Lit " + str(0)))
		}
		return st, scalar(rt, IntC(n))
	case "Add":
		return st, scalar(rt, Add(args[0].one(), args[1].one()))
	case "Sub":
		return st, scalar(rt, Sub(args[0].one(), args[1].one()))
	case "Mul":
		return st, scalar(rt, Mul(args[0].one(), args[1].one()))
	case "Div":
		return st, scalar(rt, Div(args[0].one(), args[1].one()))
	case "Mod":
		return st, scalar(rt, Mod(args[0].one(), args[1].one()))
	case "Neg":
		return st, scalar(rt, Neg(args[0].one()))
	case "Le":
		return st, scalar(boolT, Le(args[0].one(), args[1].one()))
	case "Lt":
		return st, scalar(boolT, Lt(args[0].one(), args[1].one()))
	case "Ge":
		return st, scalar(boolT, Le(args[1].one(), args[0].one()))
	case "Gt":
		return st, scalar(boolT, Lt(args[1].one(), args[0].one()))
	case "Eq":
		return st, scalar(boolT, Eq(args[0].one(), args[1].one()))
	case "Max":
		a, b := args[0].one(), args[1].one()
		return st, scalar(rt, Ite(Le(a, b), b, a))
	case "Min":
		a, b := args[0].one(), args[1].one()
		return st, scalar(rt, Ite(Le(a, b), a, b))
	case "If":
		if len(args) == 3 {
			v, ok := x.iteVal(st, st.decide(args[0].one()), x.plain(st, args[1]), x.plain(st, args[2]))
			if !ok {
				panic(unsupported("If"))
			}
			v.T = rt
			return st, v
		}
	case "Pow2":
		return st, scalar(rt, pow2Term(args[0].one()))
	case "Implies":
		return st, scalar(boolT, Implies(args[0].one(), args[1].one()))
	case "Forall", "Exists":
		lo, hi := args[0].one(), args[1].one()
		f := args[2].one()
		ex := name == "Exists"
		if lo.op == OInt && hi.op == OInt {
			d := new(big.Int).Sub(hi.ival, lo.ival)
			if d.Sign() <= 0 {
				return st, scalar(boolT, BoolC(!ex))
			}
			if d.Cmp(bi(72)) <= 0 {
				var l []*Term
				for i := new(big.Int).Set(lo.ival); i.Cmp(hi.ival) < 0; i = new(big.Int).Add(i, bigOne) {
					r, side := x.pureCall(st, f, []Val{scalar(types.Typ[types.Int], IntC(i))}, boolT)
					if r == nil {
						continue
					}
					if ex {
						l = append(l, And(side, r[0]))
					} else {
						l = append(l, Implies(side, r[0]))
					}
				}
				if ex {
					return st, scalar(boolT, Or(l...))
				}
				return st, scalar(boolT, And(l...))
			}
		}
		var res *Term
		x.withBound("q", SInt, func(b *Term) {
			s := st.clone()
			rng := And(Le(lo, b), Lt(b, hi))
			s.assume(rng)
			r, side := x.pureCall(s, f, []Val{scalar(types.Typ[types.Int], b)}, boolT)
			if r == nil {
				res = BoolC(!ex)
				return
			}
			if ex {
				res = Not(Forall(b, Not(And(rng, side, r[0]))))
			} else {
				res = Forall(b, Or(Not(rng), Not(side), r[0]))
			}
		})
		return st, scalar(boolT, res)
	case "Sum":
		lo, hi := args[0].one(), args[1].one()
		f := args[2].one()
		var res *Term
		if lo.op == OInt && hi.op == OInt && new(big.Int).Sub(hi.ival, lo.ival).Cmp(bi(16)) <= 0 {
			res = I(0)
			for i := new(big.Int).Set(lo.ival); i.Cmp(hi.ival) < 0; i = new(big.Int).Add(i, bigOne) {
				r, _ := x.pureCall(st, f, []Val{scalar(types.Typ[types.Int], IntC(i))}, rt)
				res = Add(res, r[0])
			}
			return st, scalar(rt, res)
		}
		x.withBound("s", SInt, func(b *Term) {
			s := st.clone()
			s.assume(And(Le(lo, b), Lt(b, hi)))
			r, _ := x.pureCall(s, f, []Val{scalar(types.Typ[types.Int], b)}, rt)
			if r == nil {
				res = I(0)
				return
			}
			res = SumT(b, Subst(r[0], b, Add(b, lo)), Sub(hi, lo))
		})
		return st, scalar(rt, res)
	case "ForallMap", "ExistsMap", "SumMap", "VisitedSum", "VisitedForall":
		m := args[0]
		r := mapRegions(m.T)
		set := x.mapPresence(st, m)
		if name == "VisitedSum" || name == "VisitedForall" {
			var ctx *loopCtx
			for i := len(x.loops) - 1; i >= 0; i-- {
				if x.loops[i].visited != nil {
					ctx = x.loops[i]
					break
				}
			}
			if ctx == nil {
				panic(unsupported("no map loop"))
			}
			set = st.cells[ctx.visited][0]
			if set.sort != r.ps.v {
				panic(unsupported("map loop of another type"))
			}
		}
		var res *Term
		x.withBound("m:"+tstr(r.kt), r.ps.v.k, func(b *Term) {
			s := st.clone()
			in := Select(set, b)
			s.assume(Select(x.mapPresence(st, m), b))
			k := x.unKey(b, r.kt)
			v, _ := x.mapGet(s, m, b)
			pk := Select(x.mapPresence(s, m), b)
			for i := range v.L {
				if v.L[i].op == OIte && v.L[i].args[0] == pk {
					v.L[i] = v.L[i].args[1]
				}
			}
			rr, side := x.pureCall(s, args[1].one(), []Val{k, v}, fnSig(args[1].T).Results().At(0).Type())
			switch name {
			case "SumMap", "VisitedSum":
				if rr == nil {
					res = I(0)
				} else {
					res = SetSumT(b, rr[0], set)
				}
			case "ExistsMap":
				if rr == nil {
					res = False
				} else {
					res = Not(Forall(b, Not(And(in, side, rr[0]))))
				}
			default:
				if rr == nil {
					res = True
				} else {
					res = Forall(b, Or(Not(in), Not(side), rr[0]))
				}
			}
		})
		return st, scalar(rt, res)
	case "Iter":
		for i := len(x.loops) - 1; i >= 0; i-- {
			return st, scalar(rt, x.loops[i].iter)
		}
		panic(unsupported("Iter outside of a loop"))
	case "NewInLoop":
		// nil or allocated in the innermost loop (loop invariants only)
		for i := len(x.loops) - 1; i >= 0; i-- {
			r := x.plain(st, args[0]).L[0]
			return st, scalar(rt, Or(Eq(r, I(0)), Lt(IntC(x.loops[i].allocBefore), r)))
		}
		panic(unsupported("NewInLoop outside of a loop"))
	case "New":
		// allocated by the code under verification (an empty slice has no array that matters)
		v := x.plain(st, args[0])
		c := Lt(IntC(pow2(62)), v.L[0])
		if _, ok := v.T.Underlying().(*types.Slice); ok {
			c = Or(c, Eq(v.L[2], I(0)))
		}
		return st, scalar(boolT, c)
	case "CopiedPtr":
		return st, scalar(boolT, Eq(x.plain(st, args[0]).L[0], x.plain(st, args[1]).L[0]))
	case "Copied":
		// identical to what the second argument, the outcome of Clone, is (natively: equal to the original, but another object)
		a, b := args[0], args[1]
		return st, scalar(boolT, And(Eq(a.L[0], b.L[0]), Or(Eq(a.L[0], I(0)), Eq(a.L[1], b.L[1]))))
	case "Scratch":
		return st, args[0]
	case "Same":
		// reference equality of slices, maps, pointers
		return st, scalar(boolT, Eq(x.plain(st, args[0]).L[0], x.plain(st, args[1]).L[0]))
	case "Disjoint":
		a, b := x.plain(st, args[0]).L[0], x.plain(st, args[1]).L[0]
		return st, scalar(boolT, Or(Eq(a, I(0)), Not(Eq(a, b))))
	case "SameIface":
		a, b := args[0], args[1]
		return st, scalar(boolT, And(Eq(a.L[0], b.L[0]), Or(Eq(a.L[0], I(0)), Eq(a.L[1], b.L[1]))))
	case "Bytes": // byte string value of a slice
		return st, scalar(rt, x.bytesToStr(st, args[0]))
	case "Time":
		return st, scalar(rt, args[0].one())
	case "StrLess":
		return st, scalar(boolT, x.strLess(args[0].one(), args[1].one()))
	case "Fresh", "Any":
		return st, x.freshVal("any", rt)
	case "Bit":
		// bit i of a non-negative integer
		return st, scalar(boolT, Eq(bitTerm(args[0].one(), args[1].one()), I(1)))
	}
	panic(unsupported("intrinsic " + name))
}

func bitTerm(v, i *Term) *Term {
	p := pow2Term(i)
	if p.op == OIte {
		return mapIte(p, func(c *Term) *Term { return Mod(Div(v, c), I(2)) })
	}
	return Mod(Div(v, p), I(2))
}

// ghostCall: a recursive specification function is an uninterpreted function of its (scalar and slice content) arguments;
// its definition is available, unfolded once, for every application outside of a definition.
func (x *Exec) ghostCall(st *State, fn *ssa.Function, args []Val, rt types.Type) Val {
	var as []*Term
	for _, a := range args {
		a = x.plain(st, a)
		if _, ok := a.T.Underlying().(*types.Slice); ok {
			as = append(as, x.content(st, a)...)
			as = append(as, a.L[1], a.L[2])
			continue
		}
		for _, l := range leaves(a.T) {
			if l.role != "" && l.role != "math" {
				panic(unsupported("argument type of ghost function " + fn.Name()))
			}
		}
		as = append(as, a.L...)
	}
	t := App("ghost:"+fn.Name(), leaves(rt)[0].sort, as...)
	if x.ghostDepth == 0 && !x.ghostDone[t] {
		if x.ghostDone == nil {
			x.ghostDone = map[*Term]bool{}
		}
		x.ghostDone[t] = true
		x.ghostDepth++
		s := st.clone()
		s.pc, s.know = nil, nil
		x.quiet++
		np, rec := x.nopanic, x.rec
		x.nopanic, x.rec = false, nil
		s2, vs := x.runFunc(fn, args, nil, s, nil, false, token.NoPos)
		x.quiet--
		x.nopanic, x.rec = np, rec
		x.ghostDepth--
		if s2 != nil {
			t.addFact(Implies(And(s2.pc...), Eq(t, vs[0].one())))
		}
	}
	return scalar(rt, t)
}
