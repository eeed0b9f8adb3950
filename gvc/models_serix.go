package main

import (
	"go/token"
	"go/types"
)

const serixPkg = hive + "serializer/v2/serix"

// addrTypeByte: the type denotation that CommonSerixAPI registers for the 32 byte address types.
var addrTypeByte = map[string]int64{
	"Ed25519Address": 0, "AccountAddress": 8, "NFTAddress": 16, "AnchorAddress": 24, "ImplicitAccountCreationAddress": 32,
}

// serixEncode: assumed contract of serix. The encoding is a deterministic function of the object (one level of
// indirection, then identities); for the 32 byte address types it is the type byte followed by the bytes.
func serixEncode(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
	obj := args[2]
	tag, val := obj.L[0], obj.L[1]
	if e, ok := st.k().eqs[tag]; ok {
		tag = e
	}
	bytesT := rt.(*types.Tuple).At(0).Type()
	errT := func(b *Term) (*Term, *Term) {
		e := x.newErr("serix")
		return Ite(b, e.L[0], I(0)), Ite(b, e.L[1], I(0))
	}
	withOpts := len(args) > 3 && !args[3].L[2].isInt(0)
	if tag.op == OInt {
		t := x.w.typeByID[tag.ival.Int64()]
		if p, ok := t.(*types.Pointer); ok {
			if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath {
				if b, ok := addrTypeByte[n.Obj().Name()]; ok {
					c := x.load(st, x.deref(st, x.unbox(val, t), pos)).L[0]
					z := ConstArr(c.sort, I(0))
					w := arrCopy(Store(z, I(0), I(b)), I(1), I(32), c, I(0))
					s := x.newSlice(st, bytesT, []*Term{w}, I(0), I(33), I(33))
					x.arrLen[s.L[0]] = 33
					return Val{T: rt, L: append(append([]*Term{}, s.L...), I(0), I(0))}
				}
			}
		}
		as := []*Term{tag}
		v := x.unbox(val, t)
		if p, ok := t.(*types.Pointer); ok {
			v = x.load(st, x.deref(st, v, pos))
			v.T = p.Elem()
		}
		as = append(as, x.encode(st, v)...)
		if _, ok := t.(*types.Pointer); ok {
			as = append(as, val, x.version(st)) // identity of what lies deeper
		}
		return x.encoded(st, "serix", as, bytesT, rt, withOpts, errT)
	}
	return x.encoded(st, "serix", []*Term{tag, val, x.version(st)}, bytesT, rt, withOpts, errT)
}

func (x *Exec) encoded(st *State, name string, as []*Term, bytesT, rt types.Type, withOpts bool, errT func(b *Term) (*Term, *Term)) Val {
	s := x.pureResult(st, name, as, bytesT)
	bad := App("fails:"+name, SBool, as...)
	if withOpts {
		bad = App("invalid:"+name, SBool, as...)
	}
	e1, e2 := errT(bad)
	var l []*Term
	for i := range s.L {
		l = append(l, Ite(bad, I(0), s.L[i]))
	}
	return Val{T: rt, L: append(l, e1, e2)}
}

func init() {
	models[modPath+".CommonSerixAPI"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		return scalar(rt, Var("serixAPI", SInt).withRange(bigOne, pow2(61)))
	}
	models["(*"+serixPkg+".API).Encode"] = serixEncode
	models["context.TODO"] = freshModel
	models["context.Background"] = freshModel
	models[hive+"serializer/v2/byteutils.ConcatBytes"] = func(x *Exec, st *State, args []Val, rt types.Type, pos token.Pos) Val {
		l := args[0]
		n := l.L[2]
		if n.op != OInt {
			panic(unsupported("ConcatBytes of a variable number of slices"))
		}
		el := rt.Underlying().(*types.Slice).Elem()
		at := types.NewSlice(el)
		r := x.newSlice(st, rt, []*Term{ConstArr(SArr(SInt, SInt), I(0))}, I(0), I(0), I(0))
		for i := int64(0); i < n.ival.Int64(); i++ {
			p := x.elemAt(st, l, I(i), at)
			r = x.appendB(st, r, p, rt)
		}
		return r
	}
	models[modPath+"/hexutil.EncodeHex"] = uninterp("hexutil.EncodeHex")
}

// elemAt reads element i of a slice (no bounds check).
func (x *Exec) elemAt(st *State, s Val, i *Term, t types.Type) Val {
	c := x.content(st, s)
	v := Val{T: t}
	for _, l := range c {
		v.L = append(v.L, Select(l, Add(s.L[1], i)))
	}
	return x.typedVal(v)
}
