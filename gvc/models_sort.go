package main

import (
	"go/token"
	"go/types"
)

// sorting: the result is a permutation of the elements (with an explicit inverse) in which no later element is less than an
// earlier one. The comparator is assumed to be a strict weak order without side effects.
func sortModel(x *Exec, st *State, s Val, less func(st *State, i, j *Term) (*Term, *Term)) {
	el := s.T.Underlying().(*types.Slice).Elem()
	root := arrOf(el)
	n, off := s.L[2], s.L[1]
	old := x.content(st, s)
	p, inv := Fresh("sortp", SArr(SInt, SInt)), Fresh("sortinv", SArr(SInt, SInt))
	var nw []*Term
	b := Bound("srt", SInt)
	for i, l := range leaves(root) {
		key, so := regionKey(root, l)
		row := Fresh("hr:"+key, so.v)
		x.setRegion(st, key, Store(x.region(st, key, so), s.L[0], row), s.L[0])
		st.assume(Forall(b, Or(And(Le(off, b), Lt(b, Add(off, n))), Eq(Select(row, b), Select(old[i], b)))))
		nw = append(nw, row)
	}
	rng := And(Le(I(0), b), Lt(b, n))
	pb, ib := Select(p, b), Select(inv, b)
	c1 := And(Le(I(0), pb), Lt(pb, n), Eq(Select(inv, pb), b))
	c2 := And(Le(I(0), ib), Lt(ib, n), Eq(Select(p, ib), b))
	for i := range nw {
		c1 = And(c1, Eq(Select(nw[i], Add(off, b)), Select(old[i], Add(off, pb))))
		c2 = And(c2, Eq(Select(nw[i], Add(off, ib)), Select(old[i], Add(off, b))))
	}
	st.assume(Forall(b, Or(Not(rng), c1)))
	st.assume(Forall(b, Or(Not(rng), c2)))
	x.withBound("sa", SInt, func(a *Term) {
		x.withBound("sb", SInt, func(d *Term) {
			s2 := st.clone()
			r := And(Le(I(0), a), Lt(a, d), Lt(d, n))
			s2.assume(r)
			v, side := less(s2, d, a)
			if v == nil {
				return
			}
			st.assume(Forall(a, Forall(d, Or(Not(r), Not(side), Not(v)))))
		})
	})
}

func init() {
	sl := func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		tag := args[0].L[0]
		if tag.op != OInt {
			panic(unsupported("sort.Slice of an unknown type"))
		}
		t := x.w.typeByID[tag.ival.Int64()]
		s := x.plain(st, x.unbox(args[0].L[1], t))
		f := args[1].one()
		x.w.note("the comparators passed to sort functions are strict weak orders")
		sortModel(x, st, s, func(st *State, i, j *Term) (*Term, *Term) {
			r, side := x.pureCall(st, f, []Val{scalar(types.Typ[types.Int], i), scalar(types.Typ[types.Int], j)}, types.Typ[types.Bool])
			if r == nil {
				return nil, nil
			}
			return r[0], side
		})
		return Val{T: rt}
	}
	models["sort.Slice"] = sl
	models["sort.SliceStable"] = sl
	models["slices.SortFunc"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		s := x.plain(st, args[0])
		f := args[1].one()
		x.w.note("the comparators passed to sort functions are strict weak orders")
		sortModel(x, st, s, func(st *State, i, j *Term) (*Term, *Term) {
			a, b := x.load(st, x.elemAddr(s, i)), x.load(st, x.elemAddr(s, j))
			r, side := x.pureCall(st, f, []Val{a, b}, types.Typ[types.Int])
			if r == nil {
				return nil, nil
			}
			return Lt(r[0], I(0)), side
		})
		return Val{T: rt}
	}
	models["slices.SortStableFunc"] = models["slices.SortFunc"]
}
