package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) doCall(st *State, in *ssa.Call) (*State, Val) {
	return x.callCommon(st, &in.Call, nil, Val{}, in.Pos(), in.Type())
}

func resType(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func joinResults(t types.Type, vs []Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	r := Val{T: t}
	for _, v := range vs {
		r.L = append(r.L, v.L...)
	}
	return r
}

// joinPlain joins results; in tuples static pointers have to become references.
func (x *Exec) joinPlain(st *State, t types.Type, vs []Val) Val {
	if len(vs) != 1 {
		for i := range vs {
			vs[i] = x.plain(st, vs[i])
		}
	}
	return joinResults(t, vs)
}

func (x *Exec) callCommon(st *State, c *ssa.CallCommon, pre []Val, fnVal Val, pos token.Pos, rt types.Type) (*State, Val) {
	args := pre
	if args == nil {
		for _, a := range c.Args {
			args = append(args, x.val(st, a))
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, b, c, args, pos, rt)
	}
	if rt == nil {
		rt = resType(c.Signature())
	}
	if c.IsInvoke() {
		recv := fnVal
		if recv.T == nil {
			recv = x.val(st, c.Value)
		}
		return x.invoke(st, c, recv, args, pos, rt)
	}
	if f := c.StaticCallee(); f != nil {
		var bind []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			if fnVal.T == nil {
				fnVal = x.val(st, mc)
			}
			bind = x.closures[fnVal.one().ival.Int64()-1].bind
		}
		return x.callFn(st, f, args, bind, pos, rt)
	}
	if fnVal.T == nil {
		fnVal = x.val(st, c.Value)
	}
	return x.callVal(st, fnVal.one(), args, pos, rt)
}

// callVal calls a function value.
func (x *Exec) callVal(st *State, f *Term, args []Val, pos token.Pos, rt types.Type) (*State, Val) {
	if e, ok := st.k().eqs[f]; ok {
		f = e
	}
	switch f.op {
	case OInt:
		n := f.ival.Int64()
		if n == 0 {
			x.must(st, False, "call of nil function", pos)
			return nil, Val{}
		}
		rec := x.closures[n-1]
		return x.callFn(st, rec.fn, args, rec.bind, pos, rt)
	case OIte:
		c := st.decide(f.args[0])
		if c == True {
			return x.callVal(st, f.args[1], args, pos, rt)
		}
		if c == False {
			return x.callVal(st, f.args[2], args, pos, rt)
		}
		a, b := st, st.clone()
		a = st.clone()
		a.assume(c)
		b.assume(Not(c))
		var l []retState
		if s, v := x.callVal(a, f.args[1], args, pos, rt); s != nil {
			l = append(l, retState{st: s, val: []Val{v}})
		}
		if s, v := x.callVal(b, f.args[2], args, pos, rt); s != nil {
			l = append(l, retState{st: s, val: []Val{v}})
		}
		m := x.mergeAll(l)
		if m == nil {
			return nil, Val{}
		}
		return m.st, m.val[0]
	}
	panic(unsupported("call of unknown function value " + f.String()))
}

// invoke dispatches an interface method call over the dynamic types.
func (x *Exec) invoke(st *State, c *ssa.CallCommon, recv Val, args []Val, pos token.Pos, rt types.Type) (*State, Val) {
	return x.invokeM(st, recv, c.Method, args, pos, rt)
}

func (x *Exec) invokeM(st *State, recv Val, m *types.Func, args []Val, pos token.Pos, rt types.Type) (*State, Val) {
	tag := recv.L[0]
	if e, ok := st.k().eqs[tag]; ok {
		tag = e
	}
	if types.Identical(recv.T, types.Universe.Lookup("error").Type()) || tag.isInt(x.w.errTag()) {
		return st, x.errMethod(st, recv, m.Name())
	}
	x.must(st, Not(Eq(tag, I(0))), "method call on nil interface", pos)
	if mdl := ifaceModel(x, recv.T, m.Name()); mdl != nil {
		return st, mdl(x, st, append([]Val{recv}, args...), rt)
	}
	if x.contract != nil && x.contract.opaqueM != nil {
		fn := strings.ReplaceAll(m.FullName(), "github.com/iotaledger/iota.go/v4.", "")
		if i := strings.LastIndex(fn, "/"); i >= 0 {
			fn = "(" + fn[i+1:]
		}
		if !x.contract.opaqueM[fn] {
			// iface:Equal(Feature): every interface method of that name with a parameter of that (named) type, whatever
			// interface declares it
			if sg := m.Signature(); sg.Params().Len() == 1 {
				if n, ok := x.plain(st, args[0]).T.(*types.Named); ok {
					fn = m.Name() + "(" + n.Obj().Name() + ")"
				}
			}
		}
		if !x.contract.opaqueM[fn] {
			// iface:Clone()Address: every interface method of that name without parameters and with that (named) result
			if sg := m.Signature(); sg.Params().Len() == 0 {
				if n, ok := rt.(*types.Named); ok {
					fn = m.Name() + "()" + n.Obj().Name()
				}
			}
		}
		if x.contract.opaqueM[fn] {
			x.w.notes["treated as a deterministic function without side effects (within "+x.contract.name+"): "+fn] = true
			as := append([]*Term{}, recv.L...)
			id := true
			for _, a := range args {
				as = append(as, x.encode(st, x.plain(st, a))...)
			}
			if id && !x.contract.stable {
				as = append(as, x.version(st))
			}
			return st, x.pureResult(st, "opaquem:"+fn, as, rt)
		}
	}
	cands := x.w.candidates(recv.T)
	// restrict to the tags that are possible
	var cs []types.Type
	poss := possibleConsts(tag, 64)
	for _, t := range cands {
		id := x.typeID(t)
		if poss != nil && !poss[id] {
			continue
		}
		if st.decide(Eq(tag, I(id))) == False {
			continue
		}
		cs = append(cs, t)
	}
	if poss != nil && len(cs) == 0 {
		for id := range poss {
			if id == 0 {
				continue
			}
			if t := x.w.typeByID[id]; t != nil && st.decide(Eq(tag, I(id))) != False {
				if _, ok := t.(*types.Named); ok || true {
					cs = append(cs, t)
				}
			}
		}
	}
	if len(cs) == 0 && len(cands) > 0 {
		// none of the types in the program
		x.w.notes["values of an interface have one of the types of the program that implement it"] = true
		st.assume(False)
		return st, zeroVal(rt)
	}
	if len(cs) == 0 {
		panic(unsupported(fmt.Sprintf("no implementation of %s.%s", recv.T, m.Name())))
	}
	var ids []*Term
	for _, t := range cs {
		ids = append(ids, Eq(tag, I(x.typeID(t))))
	}
	any := st.decide(Or(ids...))
	if any != True {
		// closed world: the dynamic type is one of the implementing types of the module
		st.assume(any)
	}
	var l []retState
	cur := st
	for i, t := range cs {
		g := cur.decide(ids[i])
		if g == False {
			continue
		}
		s := cur
		last := i == len(cs)-1
		if g != True && !last {
			s = cur.clone()
			cur = cur.clone()
			cur.assume(Not(g))
		}
		s.assume(g)
		rv := x.unbox(recv.L[1], t)
		fn := x.w.method(t, m)
		if fn == nil {
			panic(unsupported(fmt.Sprintf("method %s of %s", m.Name(), t)))
		}
		ns, v := x.callFn(s, fn, append([]Val{rv}, args...), nil, pos, rt)
		if ns != nil {
			l = append(l, retState{st: ns, val: []Val{v}})
		}
		if g == True {
			break
		}
	}
	mm := x.mergeAll(l)
	if mm == nil {
		return nil, Val{}
	}
	return mm.st, mm.val[0]
}

// possibleConsts: the set of constants a term can take (nil when unknown).
func possibleConsts(t *Term, max int) map[int64]bool {
	r := map[int64]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		switch t.op {
		case OInt:
			r[t.ival.Int64()] = true
			return len(r) <= max
		case OIte:
			return walk(t.args[1]) && walk(t.args[2])
		}
		return false
	}
	if walk(t) {
		return r
	}
	return nil
}

func (x *Exec) errMethod(st *State, recv Val, name string) Val {
	if name == "Error" {
		return scalar(types.Typ[types.String], App("errstr", SStr, recv.L[1]))
	}
	panic(unsupported("method " + name + " on error"))
}

// callFn calls a statically known function.
func (x *Exec) callFn(st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos, rt types.Type) (*State, Val) {
	if rt == nil {
		rt = resType(fn.Signature)
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == gvcPkg || fn.Origin() != nil && fn.Origin().Pkg != nil && fn.Origin().Pkg.Pkg.Path() == gvcPkg {
		return x.intrinsic(st, fn, args, pos, rt)
	}
	if x.w.ghosts[fn] {
		return st, x.ghostCall(st, fn, args, rt)
	}
	name := fnName(fn)
	// a harness in use mode calling its own target: the result is arbitrary
	hf := x.harnessFrame()
	if hf != nil && hf.use && hf.harness.isTarget(fn) {
		return x.havocResult(st, hf.harness, fn, args, rt)
	}
	if x.contract != nil && x.contract.opaqueFn[originOf(fn)] && len(fn.Blocks) > 0 && len(fn.FreeVars) == 0 {
		x.w.notes["treated as a deterministic function without side effects (within "+x.contract.name+"): "+shortName(originOf(fn))] = true
		if it, nm := x.opaqueIface(fn); it != nil {
			// the method is also called through an interface: the same uninterpreted function
			recv := x.makeIface(st, x.plain(st, args[0]), fn.Signature.Recv().Type(), it)
			as := append([]*Term{}, recv.L...)
			for _, a := range args[1:] {
				as = append(as, x.encode(st, x.plain(st, a))...)
			}
			if !x.contract.stable {
				as = append(as, x.version(st))
			}
			return st, x.pureResult(st, "opaquem:"+nm, as, rt)
		}
		var as []*Term
		id := false
		if sel := x.contract.opaqueArgs[originOf(fn)]; sel != nil {
			var sub []Val
			for _, i := range sel {
				sub = append(sub, args[i])
			}
			args = sub
		}
		for _, a := range args {
			if _, ok := a.T.Underlying().(*types.Pointer); ok {
				a = x.plain(st, a)
				as = append(as, a.L...)
				id = true
				continue
			}
			a = x.plain(st, a)
			as = append(as, x.encode(st, a)...)
			id = id || hasIdentity(a.T)
		}
		if id && !x.contract.stable {
			as = append(as, x.version(st))
		}
		return st, x.pureResult(st, "opaque:"+name+instKey(fn), as, rt)
	}
	if c := x.w.modularFor(fn); c != nil && !(hf != nil && hf.harness.isTarget(fn)) && x.useContract(c, fn) {
		return x.applyContract(st, c, fn, args, pos, rt)
	}
	if m := funcModel(name); m != nil {
		v := m(x, st, args, rt, pos)
		if st.dead() {
			return nil, Val{}
		}
		return st, v
	}
	if x.w.inlinable(fn) {
		s, vs := x.runFunc(fn, args, bind, st, nil, false, pos)
		if s == nil {
			return nil, Val{}
		}
		return s, x.joinPlain(s, rt, vs)
	}
	if x.w.opaquePkg(fn) {
		// external function assumed to be pure and deterministic in its scalar arguments; result arbitrary otherwise
		x.w.trust(name)
		return st, x.freshVal("ext_"+fn.Name(), rt)
	}
	panic(unsupported("external function " + name))
}

func originOf(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

func fnName(fn *ssa.Function) string {
	s := originOf(fn).String()
	return s
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos, rt types.Type) (*State, Val) {
	switch b.Name() {
	case "len":
		v := args[0]
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			return st, scalar(rt, v.L[2])
		case *types.Basic:
			return st, scalar(rt, x.strLen(v.one()))
		case *types.Map:
			return st, scalar(rt, x.mapLen(st, v))
		case *types.Array:
			return st, scalar(rt, I(u.Len()))
		case *types.Pointer:
			return st, scalar(rt, I(u.Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		v := args[0]
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			return st, scalar(rt, v.L[3])
		case *types.Array:
			return st, scalar(rt, I(u.Len()))
		}
	case "append":
		return st, x.appendB(st, args[0], args[1], rt)
	case "copy":
		return st, x.copyB(st, args[0], args[1], rt)
	case "delete":
		x.mapDelete(st, args[0], args[1])
		return st, Val{T: rt}
	case "ssa:wrapnilchk":
		x.must(st, Not(Eq(args[0].L[0], I(0))), "nil dereference", pos)
		return st, args[0]
	case "min", "max":
		r := args[0].one()
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = Ite(Le(r, a.one()), r, a.one())
			} else {
				r = Ite(Le(r, a.one()), a.one(), r)
			}
		}
		return st, scalar(rt, r)
	case "clear":
		if _, ok := args[0].T.Underlying().(*types.Map); ok {
			x.mapClear(st, args[0])
			return st, Val{T: rt}
		}
	case "print", "println":
		return st, Val{T: rt}
	case "recover":
		return st, zeroVal(rt)
	}
	panic(unsupported("builtin " + b.Name()))
}

// appendB models append as copying into a fresh backing array.
func (x *Exec) appendB(st *State, s, t Val, rt types.Type) Val {
	el := rt.Underlying().(*types.Slice).Elem()
	if isString(t.T) {
		t = x.strToBytes(st, t.one(), rt)
	}
	tl := t.L[2]
	if tl.isInt(0) {
		s.T = rt
		return s
	}
	x.w.note("append is modelled as copying into a fresh backing array (no aliasing through spare capacity)")
	sc, tc := x.content(st, s), x.content(st, t)
	if s.L[0].isInt(0) {
		z := zeroVal(arrOf(el))
		sc = z.L
	}
	nl := Add(s.L[2], tl)
	cp := Fresh("cap", SInt).withRange(bigZero, maxLen)
	st.assume(Le(nl, cp))
	st.assume(Le(nl, IntC(maxLen)))
	at := Add(s.L[1], s.L[2])
	var out []*Term
	for i := range sc {
		if tl.op == OInt && tl.ival.Cmp(bi(64)) <= 0 {
			c := sc[i]
			for j := int64(0); j < tl.ival.Int64(); j++ {
				c = Store(c, Add(at, I(j)), Select(tc[i], Add(t.L[1], I(j))))
			}
			out = append(out, c)
		} else {
			out = append(out, arrCopy(sc[i], at, tl, tc[i], t.L[1]))
		}
	}
	r := x.newSlice(st, rt, out, s.L[1], nl, cp)
	if tl.op != OInt {
		// append of nothing keeps the slice (matters for nil only)
		e := Eq(tl, I(0))
		r.L[0] = Ite(e, s.L[0], r.L[0])
		r.L[3] = Ite(e, s.L[3], r.L[3])
	}
	return r
}

func arrCopy(a, lo, n, b, o *Term) *Term {
	if n.isInt(0) {
		return a
	}
	return App("arrcopy", a.sort, a, lo, n, b, o)
}

func (x *Exec) copyB(st *State, d, s Val, rt types.Type) Val {
	if isString(s.T) {
		s = x.strToBytes(st, s.one(), d.T)
	}
	n := Ite(Le(d.L[2], s.L[2]), d.L[2], s.L[2])
	if c := st.decide(Le(d.L[2], s.L[2])); c == True {
		n = d.L[2]
	} else if c == False {
		n = s.L[2]
	}
	dc, sc := x.content(st, d), x.content(st, s)
	el := d.T.Underlying().(*types.Slice).Elem()
	root := arrOf(el)
	for i, l := range leaves(root) {
		key, so := regionKey(root, l)
		var nc *Term
		if dl, ok := x.arrLen[d.L[0]]; ok && d.L[1].isInt(0) && n.isInt(dl) {
			// whole array overwritten
			nc = x.window(sc[i], s.L[1], dl, s.L[0])
		} else if n.op == OInt && n.ival.Cmp(bi(16)) <= 0 {
			nc = dc[i]
			for j := int64(0); j < n.ival.Int64(); j++ {
				nc = Store(nc, Add(d.L[1], I(j)), Select(sc[i], Add(s.L[1], I(j))))
			}
		} else {
			nc = arrCopy(dc[i], d.L[1], n, sc[i], s.L[1])
		}
		h := x.region(st, key, so)
		x.setRegion(st, key, Store(h, d.L[0], nc), d.L[0])
	}
	return scalar(rt, n)
}

// ---------------------------------------------------------------- maps

func mapTypes(t types.Type) (*types.Map, string) {
	m := t.Underlying().(*types.Map)
	return m, tstr(m.Key()) + "=>" + tstr(m.Elem())
}

func keySort(t types.Type) *Sort {
	ls := leaves(t)
	if len(ls) == 1 {
		return ls[0].sort
	}
	return SInt
}

func (x *Exec) mapKey(st *State, k Val, kt types.Type) *Term {
	k = x.plain(st, k)
	if len(k.L) == 1 {
		return k.L[0]
	}
	if len(k.L) == 0 {
		return I(0)
	}
	t := App("mapkey:"+tstr(kt), SInt, k.L...)
	for i, l := range k.L {
		t.addFact(Eq(App(fmt.Sprintf("unkey:%s:%d", tstr(kt), i), l.sort, t), l))
	}
	return t
}

func (x *Exec) unKey(k *Term, kt types.Type) Val {
	ls := leaves(kt)
	if len(ls) == 1 {
		v := Val{T: kt, L: []*Term{k}}
		return x.typedVal(v)
	}
	v := Val{T: kt}
	if k.op == OApp && k.name == "mapkey:"+tstr(kt) {
		v.L = append(v.L, k.args...)
		return v
	}
	for i, l := range ls {
		v.L = append(v.L, App(fmt.Sprintf("unkey:%s:%d", tstr(kt), i), l.sort, k))
	}
	return x.typedVal(v)
}

type mapRegs struct {
	mp, ml string
	mv     []string
	ps     *Sort
	vs     []*Sort
	kt, vt types.Type
}

func mapRegions(t types.Type) mapRegs {
	m, n := mapTypes(t)
	ks := keySort(m.Key())
	r := mapRegs{mp: "MP:" + n, ml: "ML:" + n, ps: SArr(SInt, SArr(ks, SBool)), kt: m.Key(), vt: m.Elem()}
	for _, l := range leaves(m.Elem()) {
		r.mv = append(r.mv, "MV:"+n+":"+l.path)
		r.vs = append(r.vs, SArr(SInt, SArr(ks, l.sort)))
	}
	return r
}

func (x *Exec) mapPresence(st *State, m Val) *Term {
	r := mapRegions(m.T)
	ref := m.L[0]
	if ref.isInt(0) {
		return ConstArr(r.ps.v, False)
	}
	p := Select(x.region(st, r.mp, r.ps), ref)
	if ref.op != OInt && !(ref.lo != nil && ref.lo.Sign() > 0) {
		c := st.decide(Eq(ref, I(0)))
		return Ite(c, ConstArr(r.ps.v, False), p)
	}
	return p
}

func (x *Exec) mapLen(st *State, m Val) *Term {
	r := mapRegions(m.T)
	ref := m.L[0]
	if ref.isInt(0) {
		return I(0)
	}
	l := Select(x.region(st, r.ml, SArr(SInt, SInt)), ref).withRange(bigZero, maxLen)
	c := st.decide(Eq(ref, I(0)))
	// an empty map has no keys and vice versa
	p := x.mapPresence(st, m)
	e := Fresh("somekey", r.ps.v.k)
	res := Ite(c, I(0), l)
	op := func(t *Term) bool { return t.op == OApp && strings.HasPrefix(t.name, "fn:opaque") }
	if l.op == OSelect || op(l) || l.op == OIte && (op(l.args[1]) || op(l.args[2])) {
		b := Bound("mk"+fmt.Sprint(r.ps.v.k.id), r.ps.v.k)
		st.assume(Or(Lt(I(0), res), Forall(b, Not(Select(p, b)))))
		st.assume(Or(Le(res, I(0)), Select(p, e)))
	}
	return res
}

func (x *Exec) makeMap(st *State, t types.Type) Val {
	r := mapRegions(t)
	ref := x.newRef()
	x.noVer++
	defer func() { x.noVer-- }()
	x.setRegion(st, r.mp, Store(x.region(st, r.mp, r.ps), ref, ConstArr(r.ps.v, False)), ref)
	x.setRegion(st, r.ml, Store(x.region(st, r.ml, SArr(SInt, SInt)), ref, I(0)), ref)
	return Val{T: t, L: []*Term{ref}}
}

func (x *Exec) mapGet(st *State, m Val, k *Term) (Val, *Term) {
	r := mapRegions(m.T)
	p := Select(x.mapPresence(st, m), k)
	v := Val{T: r.vt}
	z := zeroVal(r.vt)
	ls := leaves(r.vt)
	for i, reg := range r.mv {
		raw := Select(Select(x.region(st, reg, r.vs[i]), m.L[0]), k)
		if ls[i].role == "off" && ls[i].arr == 0 && isInitialRead(raw) {
			raw = I(0)
		}
		v.L = append(v.L, raw)
	}
	v = x.typedVal(v)
	if x.w.mapPtrNonNil(r.vt) {
		// pointer values of input maps are assumed to be set
	}
	for i := range v.L {
		v.L[i] = Ite(p, v.L[i], z.L[i])
	}
	return v, p
}

func (x *Exec) lookup(st *State, in *ssa.Lookup) Val {
	m := x.val(st, in.X)
	k := x.val(st, in.Index)
	if isString(m.T) {
		x.bounds(st, k.one(), x.strLen(m.one()), in.Pos())
		return scalar(in.Type(), x.strAt(m.one(), k.one()))
	}
	mt, _ := mapTypes(m.T)
	v, p := x.mapGet(st, m, x.mapKey(st, k, mt.Key()))
	if in.CommaOk {
		v.L = append(append([]*Term{}, v.L...), p)
	}
	v.T = in.Type()
	return v
}

func (x *Exec) mapUpdate(st *State, m, k, v Val, pos token.Pos) {
	r := mapRegions(m.T)
	ref := m.L[0]
	x.must(st, Not(Eq(ref, I(0))), "assignment to nil map", pos)
	v = x.plain(st, v)
	key := x.mapKey(st, k, r.kt)
	p := x.region(st, r.mp, r.ps)
	was := Select(Select(p, ref), key)
	l := x.region(st, r.ml, SArr(SInt, SInt))
	x.setRegion(st, r.ml, Store(l, ref, Add(Select(l, ref).withRange(bigZero, maxLen), Ite(was, I(0), I(1)))), ref)
	x.setRegion(st, r.mp, Store(p, ref, Store(Select(p, ref), key, True)), ref)
	for i, reg := range r.mv {
		h := x.region(st, reg, r.vs[i])
		x.setRegion(st, reg, Store(h, ref, Store(Select(h, ref), key, v.L[i])), ref)
	}
}

func (x *Exec) mapDelete(st *State, m, k Val) {
	r := mapRegions(m.T)
	ref := m.L[0]
	key := x.mapKey(st, k, r.kt)
	p := x.region(st, r.mp, r.ps)
	was := Select(x.mapPresence(st, m), key)
	l := x.region(st, r.ml, SArr(SInt, SInt))
	x.setRegion(st, r.ml, Store(l, ref, Sub(Select(l, ref), Ite(was, I(1), I(0)))), ref)
	x.setRegion(st, r.mp, Store(p, ref, Store(Select(p, ref), key, False)), ref)
}

func (x *Exec) mapClear(st *State, m Val) {
	r := mapRegions(m.T)
	ref := m.L[0]
	l := x.region(st, r.ml, SArr(SInt, SInt))
	x.setRegion(st, r.ml, Store(l, ref, I(0)), ref)
	x.setRegion(st, r.mp, Store(x.region(st, r.mp, r.ps), ref, ConstArr(r.ps.v, False)), ref)
}

// range over a map: the iterator is identified by a cell holding the set of visited keys.
func (x *Exec) rangeStart(st *State, in *ssa.Range) Val {
	m := x.val(st, in.X)
	if isString(m.T) {
		c := x.newCell("striter", types.Typ[types.Int])
		st.cells[c] = []*Term{I(0)}
		return Val{T: in.X.Type(), L: []*Term{m.one()}, A: wholeAddr(c)}
	}
	r := mapRegions(m.T)
	c := x.newCell("visited", nil)
	st.cells[c] = []*Term{ConstArr(r.ps.v, False)}
	if x.iterP0 == nil {
		x.iterP0 = map[*Cell]*Term{}
	}
	x.iterP0[c] = x.mapPresence(st, m)
	return Val{T: m.T, L: m.L, A: &Addr{cell: c}}
}

func (x *Exec) rangeNext(st *State, in *ssa.Next) Val {
	it := x.val(st, in.Iter)
	c := it.A.cell
	tt := in.Type().(*types.Tuple)
	if in.IsString {
		// bytes < 0x80 are assumed (ASCII); other runes are arbitrary
		s := it.L[0]
		i := st.cells[c][0]
		ok := st.decide(Lt(i, x.strLen(s)))
		b := x.strAt(s, i)
		r := Ite(Lt(b, I(128)), b, App("runeat", SInt, s, i).withRange(bi(128), bi(0x10ffff)))
		adv := Ite(Lt(b, I(128)), I(1), App("runelen", SInt, s, i).withRange(bi(1), bi(4)))
		st.cells[c] = []*Term{Ite(ok, Add(i, adv), i)}
		if x.rec != nil {
			x.rec.cellWrite(c)
		}
		return Val{T: tt, L: []*Term{ok, i, r}}
	}
	m := Val{T: it.T, L: it.L}
	r := mapRegions(m.T)
	vis := st.cells[c][0]
	p := x.mapPresence(st, m)
	k := Fresh("rk", r.ps.v.k)
	okv := Fresh("rok", SBool)
	if p.op == OConstArr && p.args[0] == False {
		okv = False
	}
	b := Bound("vk"+fmt.Sprint(r.ps.v.k.id), r.ps.v.k)
	st.assume(Or(Not(okv), And(Select(p, k), Not(Select(vis, k)))))
	// exhaustive only as long as the map is not modified by the loop
	same := True
	if p0 := x.iterP0[c]; p0 != nil {
		same = st.decide(Eq(p, p0))
	} else {
		panic(unsupported("range over a map: unknown iterator"))
	}
	st.assume(Or(Not(same), okv, Forall(b, Or(Not(Select(p, b)), Select(vis, b)))))
	st.assume(Or(Not(same), okv, Eq(vis, p)))
	if !(vis.op == OConstArr && vis.args[0] == False) {
		st.assume(Or(Not(same), Forall(b, Or(Not(Select(vis, b)), Select(p, b)))))
	}
	kv := x.unKey(k, r.kt)
	v, _ := x.mapGet(st, m, k)
	// after the lookup the key is known to be present
	for i := range v.L {
		if v.L[i].op == OIte && v.L[i].args[0] == Select(p, k) {
			v.L[i] = v.L[i].args[1]
		}
	}
	st.cells[c] = []*Term{Ite(okv, Store(vis, k, True), vis)}
	if x.rec != nil {
		x.rec.cellWrite(c)
	}
	out := Val{T: tt, L: []*Term{okv}}
	add := func(i int, vv Val) {
		t := tt.At(i).Type()
		if n := nleaves0(t); n == 0 {
			return
		}
		out.L = append(out.L, vv.L...)
	}
	add(1, kv)
	add(2, v)
	return out
}

func nleaves0(t types.Type) (n int) {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return 0
	}
	return nleaves(t)
}

// ---------------------------------------------------------------- strings

func (x *Exec) strLen(s *Term) *Term {
	switch s.op {
	case OStr:
		return I(int64(len(s.name)))
	case OIte:
		return Ite(s.args[0], x.strLen(s.args[1]), x.strLen(s.args[2]))
	case OApp:
		switch s.name {
		case "sconcat":
			return Add(x.strLen(s.args[0]), x.strLen(s.args[1]))
		case "ssub":
			return Sub(s.args[2], s.args[1])
		case "mkstr":
			return s.args[2]
		}
	}
	return App("slen", SInt, s).withRange(bigZero, maxLen)
}

func (x *Exec) strAt(s, i *Term) *Term {
	switch s.op {
	case OStr:
		if i.op == OInt && i.ival.IsInt64() && i.ival.Int64() >= 0 && i.ival.Int64() < int64(len(s.name)) {
			return I(int64(s.name[i.ival.Int64()]))
		}
		if len(s.name) > 0 && len(s.name) <= 64 {
			r := I(int64(s.name[len(s.name)-1]))
			for j := len(s.name) - 2; j >= 0; j-- {
				r = Ite(Eq(i, I(int64(j))), I(int64(s.name[j])), r)
			}
			return r
		}
	case OIte:
		return Ite(s.args[0], x.strAt(s.args[1], i), x.strAt(s.args[2], i))
	case OApp:
		switch s.name {
		case "sconcat":
			n := x.strLen(s.args[0])
			return Ite(Lt(i, n), x.strAt(s.args[0], i), x.strAt(s.args[1], Sub(i, n)))
		case "ssub":
			return x.strAt(s.args[0], Add(i, s.args[1]))
		case "mkstr":
			return Select(s.args[0], Add(s.args[1], i)).withRange(bigZero, bi(255))
		}
	}
	return App("sat", SInt, s, i).withRange(bigZero, bi(255))
}

func (x *Exec) strConcat(a, b *Term) *Term {
	if a.op == OStr && b.op == OStr {
		return StrC(a.name + b.name)
	}
	if a.op == OStr && a.name == "" {
		return b
	}
	if b.op == OStr && b.name == "" {
		return a
	}
	return App("sconcat", SStr, a, b)
}

func (x *Exec) strSub(s, lo, hi *Term) *Term {
	if s.op == OStr && lo.op == OInt && hi.op == OInt && hi.ival.Int64() <= int64(len(s.name)) && lo.ival.Sign() >= 0 && lo.ival.Cmp(hi.ival) <= 0 {
		return StrC(s.name[lo.ival.Int64():hi.ival.Int64()])
	}
	if lo.isInt(0) && hi == x.strLen(s) {
		return s
	}
	if s.op == OApp && s.name == "ssub" {
		return App("ssub", SStr, s.args[0], Add(s.args[1], lo), Add(s.args[1], hi))
	}
	return App("ssub", SStr, s, lo, hi)
}

func (x *Exec) strLess(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.op == OStr && b.op == OStr {
		return BoolC(a.name < b.name)
	}
	return App("strlt", SBool, a, b)
}

func (x *Exec) strEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.op == OStr && b.op == OStr {
		return BoolC(a.name == b.name)
	}
	if c := Eq(x.strLen(a), x.strLen(b)); c == False {
		return False
	}
	if b.op == OStr {
		a, b = b, a
	}
	if a.op == OStr && len(a.name) <= 16 {
		// explicit contents
		if a.name == "" {
			return Eq(x.strLen(b), I(0))
		}
	}
	return Eq(a, b)
}

// bytesToStr converts bytes to an (immutable) string value.
func (x *Exec) bytesToStr(st *State, v Val) *Term {
	c := x.content(st, v)[0]
	return mkStr(c, v.L[1], v.L[2])
}

func mkStr(c, off, n *Term) *Term {
	if n.isInt(0) {
		return StrC("")
	}
	if n.op == OInt && off.op == OInt && n.ival.Cmp(bi(256)) <= 0 {
		all := true
		var sb strings.Builder
		for i := int64(0); i < n.ival.Int64(); i++ {
			e := Select(c, Add(off, I(i)))
			if e.op != OInt {
				all = false
				break
			}
			sb.WriteByte(byte(e.ival.Int64()))
		}
		if all {
			return StrC(sb.String())
		}
	}
	if c.op == OApp && c.name == "strbytes" && off.isInt(0) && n == c.args[1] {
		return c.args[0]
	}
	if n.op == OInt && n.ival.Cmp(bi(256)) <= 0 {
		// canonical contents: equal strings have equal contents and conversely
		w := c
		if !(off.isInt(0) && isWindow(c, n)) {
			w = windowOf(c, off, n.ival.Int64())
		}
		s := App("mkstr", SStr, w, I(0), n)
		s.addFact(Eq(App("strcontent", w.sort, s), w))
		return s
	}
	return App("mkstr", SStr, c, off, n)
}

// isWindow: the array is zero outside of [0,n).
func isWindow(c, n *Term) bool {
	for c.op == OStore && c.args[1].op == OInt && c.args[1].ival.Sign() >= 0 && c.args[1].ival.Cmp(n.ival) < 0 {
		c = c.args[0]
	}
	if c.op == OConstArr {
		return true
	}
	if c.op == OApp && c.name == "arrcopy" && c.args[1].op == OInt && c.args[2].op == OInt {
		return c.args[1].ival.Sign() >= 0 && new(big.Int).Add(c.args[1].ival, c.args[2].ival).Cmp(n.ival) <= 0 && isWindow(c.args[0], n)
	}
	return false
}

func windowOf(c, off *Term, n int64) *Term {
	z := ConstArr(c.sort, zeroOf(c.sort.v))
	if n <= 64 && c.op == OStore {
		// explicit contents
		r := z
		for i := int64(0); i < n; i++ {
			r = Store(r, I(i), Select(c, Add(off, I(i))))
		}
		return r
	}
	return App("arrcopy", c.sort, z, I(0), I(n), c, off)
}

func (x *Exec) strToBytes(st *State, s *Term, t types.Type) Val {
	n := x.strLen(s)
	srt := SArr(SInt, SInt)
	var c *Term
	if s.op == OApp && s.name == "mkstr" {
		c = s.args[0]
		return x.newSlice(st, t, []*Term{c}, s.args[1], n, n)
	}
	if s.op == OStr && len(s.name) <= 256 {
		c = ConstArr(srt, I(0))
		for i := 0; i < len(s.name); i++ {
			c = Store(c, I(int64(i)), I(int64(s.name[i])))
		}
	} else {
		c = App("strbytes", srt, s, n)
		b := Bound("sb$", SInt)
		c.addFact(mk(&Term{op: OApp, sort: SBool, name: "$strbytes", args: []*Term{c, b}}))
		c.facts = nil
		f := Eq(mk(&Term{op: OSelect, sort: SInt, args: []*Term{c, b}}), x.strAt(s, b))
		c.addFact(Forall(b, f))
	}
	return x.newSlice(st, t, []*Term{c}, I(0), n, n)
}

// ---------------------------------------------------------------- errors

func (x *Exec) newErr(name string) Val {
	return Val{T: types.Universe.Lookup("error").Type(), L: []*Term{I(x.w.errTag()), Fresh("err", SInt)}}
}

func (x *Exec) nilErr() Val { return zeroVal(types.Universe.Lookup("error").Type()) }

// ---------------------------------------------------------------- contracts at call sites

func (x *Exec) useContract(c *Contract, fn *ssa.Function) bool {
	if x.contract == nil {
		return true
	}
	// the verification of c itself executes the body (unless this is a recursive call)
	return true
}

func (x *Exec) havocResult(st *State, c *Contract, fn *ssa.Function, args []Val, rt types.Type) (*State, Val) {
	key := "res_" + fn.Name()
	if c.pure {
		// deterministic function of its (scalar) arguments
		// deterministic function of its arguments: the values of scalars, the contents of slices and maps, what pointer
		// arguments point to (one level) and the identity of everything else
		var as []*Term
		for _, a := range args {
			if pt, ok := a.T.Underlying().(*types.Pointer); ok {
				a = x.load(st, x.deref(st, a, token.NoPos))
				a.T = pt.Elem()
			} else {
				a = x.plain(st, a)
			}
			as = append(as, x.encode(st, a)...)
			if hasIdentity(a.T) {
				as = append(as, x.version(st))
			}
		}
		return st, x.pureResult(st, fnName(fn)+instKey(fn), as, rt)
	}
	v := x.freshVal(key, rt)
	return st, v
}

func (x *Exec) applyContract(st *State, c *Contract, fn *ssa.Function, args []Val, pos token.Pos, rt types.Type) (*State, Val) {
	x.w.used(c)
	fr := x.fr
	_ = fr
	s, vs := x.runContract(c, args, st, true, pos)
	if s == nil {
		return nil, Val{}
	}
	return s, x.joinPlain(s, rt, vs)
}

// runContract executes the contract text at a call site: requires become obligations, the target's result is arbitrary,
// ensures become assumptions. The contract returns the target's results.
func (x *Exec) runContract(c *Contract, args []Val, st *State, use bool, pos token.Pos) (*State, []Val) {
	return x.runFunc(c.fn, args, nil, st, c, use, pos)
}

var _ = big.NewInt

func instKey(fn *ssa.Function) string {
	if fn.Origin() == nil {
		return ""
	}
	return "$" + tstr(fn.Signature)
}

// encode lists the terms that determine a value up to one level of indirection.
func (x *Exec) encode(st *State, a Val) (r []*Term) {
	ls := leaves(a.T)
	for i := 0; i < len(ls); i++ {
		l := ls[i]
		switch l.role {
		case "ref":
			if l.arr > 0 {
				panic(unsupported("pure contract: array of slices"))
			}
			sv := Val{T: l.typ, L: a.L[i : i+4]}
			r = append(r, x.content(st, sv)...)
			r = append(r, sv.L[1], sv.L[2])
			i += 3
		case "map":
			if _, ok := l.typ.Underlying().(*types.Map); !ok || l.arr > 0 {
				panic(unsupported("pure contract: channel"))
			}
			mv := Val{T: l.typ, L: a.L[i : i+1]}
			m := mapRegions(l.typ)
			r = append(r, x.mapPresence(st, mv))
			for k, reg := range m.mv {
				r = append(r, Select(x.region(st, reg, m.vs[k]), a.L[i]))
			}
		default:
			r = append(r, a.L[i])
		}
	}
	return r
}

// opaqueIface finds an interface of the root package whose method fn implements and which is treated as uninterpreted.
func (x *Exec) opaqueIface(fn *ssa.Function) (types.Type, string) {
	if fn.Signature.Recv() == nil {
		return nil, ""
	}
	for _, n := range sortedKeys(x.contract.opaqueM) {
		i := strings.Index(n, ").")
		if !strings.HasPrefix(n, "(") || i < 0 || n[i+2:] != fn.Name() || strings.Contains(n[1:i], ".") {
			continue
		}
		p := x.w.prog.ImportedPackage(modPath)
		if p == nil {
			continue
		}
		o := p.Pkg.Scope().Lookup(n[1:i])
		if o == nil {
			continue
		}
		if it, ok := o.Type().Underlying().(*types.Interface); ok && types.Implements(fn.Signature.Recv().Type(), it) {
			return o.Type(), n
		}
	}
	return nil, ""
}

// pureResult builds a value of type rt as an uninterpreted function of the terms as.
func (x *Exec) pureResult(st *State, name string, as []*Term, rt types.Type) Val {
	x.noVer++
	defer func() { x.noVer-- }()
	for _, a := range as {
		x.escape(a)
	}
	v := Val{T: rt}
	ls := leaves(rt)
	n := 0
	app := func(s *Sort) *Term {
		n++
		return App(fmt.Sprintf("fn:%s:%d", name, n), s, as...)
	}
	for i := 0; i < len(ls); i++ {
		l := ls[i]
		switch {
		case l.role == "ref" && l.arr == 0:
			root := arrOf(l.typ.Underlying().(*types.Slice).Elem())
			var c []*Term
			for _, rl := range leaves(root) {
				_, so := regionKey(root, rl)
				c = append(c, app(so.v))
			}
			ln := app(SInt).withRange(bigZero, maxLen)
			sv := x.newSlice(st, l.typ, c, I(0), ln, ln)
			nilv := Eq(app(SInt), I(0))
			st.assume(Or(Not(nilv), Eq(ln, I(0))))
			v.L = append(v.L, Ite(nilv, I(0), sv.L[0]), I(0), ln, ln)
			i += 3
		case l.role == "map" && l.arr == 0:
			if _, ok := l.typ.Underlying().(*types.Map); !ok {
				panic(unsupported("pure contract: channel result"))
			}
			m := mapRegions(l.typ)
			mv := x.makeMap(st, l.typ)
			ref := mv.L[0]
			x.setRegion(st, m.mp, Store(x.region(st, m.mp, m.ps), ref, app(m.ps.v)), ref)
			x.setRegion(st, m.ml, Store(x.region(st, m.ml, SArr(SInt, SInt)), ref, app(SInt).withRange(bigZero, maxLen)), ref)
			for k, reg := range m.mv {
				x.setRegion(st, reg, Store(x.region(st, reg, m.vs[k]), ref, app(m.vs[k].v)), ref)
			}
			nilv := Eq(app(SInt), I(0))
			v.L = append(v.L, Ite(nilv, I(0), ref))
		default:
			v.L = append(v.L, app(l.sort))
		}
	}
	return x.typedVal(v)
}

// harnessFrame: the contract whose text (or a specification helper called by it) is being executed.
func (x *Exec) harnessFrame() *Frame {
	for f := x.fr; f != nil; f = f.parent {
		if f.harness != nil {
			return f
		}
		if !x.w.isSpec(f.fn) {
			return nil
		}
	}
	return nil
}

// isSpec: the function is part of a contract file.
func (w *World) isSpec(fn *ssa.Function) bool {
	if b, ok := w.specFn[fn]; ok {
		return b
	}
	o := originOf(fn)
	for o.Parent() != nil {
		o = originOf(o.Parent())
	}
	b := strings.Contains(w.prog.Fset.Position(o.Pos()).Filename, "zz_gvc_")
	w.specFn[fn] = b
	return b
}

// hasIdentity: values of the type contain references that are encoded by identity only.
func hasIdentity(t types.Type) bool {
	for _, l := range leaves(t) {
		if l.role == "off" || l.role == "len" || l.role == "cap" {
			continue
		}
		switch u := l.typ.Underlying().(type) {
		case *types.Slice:
			if hasIdentity(u.Elem()) {
				return true
			}
		case *types.Map:
			if hasIdentity(u.Elem()) {
				return true
			}
		case *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
			return true
		}
	}
	return false
}

// shortName is the name of a function without the module path.
func shortName(fn *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(fn.String(), modPath+"/", ""), modPath+".", "")
}
