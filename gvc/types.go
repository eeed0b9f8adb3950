package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Leaf describes one scalar component of a Go type.
type Leaf struct {
	path string
	sort *Sort
	typ  types.Type // Go type of the scalar (element type for arrays of scalars)
	role string     // "", "ref", "off", "len", "cap", "tag", "val", "ptr", "map", "func"
	arr  int        // number of array wrappings
}

var leafCache = map[string][]Leaf{}
var typeStrCache = map[types.Type]string{}

func tstr(t types.Type) string {
	if s, ok := typeStrCache[t]; ok {
		return s
	}
	s := types.TypeString(types.Unalias(t), nil)
	s = strings.ReplaceAll(s, "github.com/iotaledger/iota.go/v4", "iota")
	s = strings.ReplaceAll(s, "github.com/iotaledger/hive.go", "hive")
	typeStrCache[t] = s
	return s
}

const gvcPkg = "github.com/iotaledger/iota.go/v4/zzgvc"

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// opaque struct types that carry no modelled state
var emptyStructs = map[string]bool{
	"sync.Mutex": true, "sync.RWMutex": true, "sync.WaitGroup": true, "sync.Once": true,
}

func leaves(t types.Type) []Leaf {
	key := tstr(t)
	if l, ok := leafCache[key]; ok {
		return l
	}
	l := leaves0(t)
	leafCache[key] = l
	return l
}

func leaves0(t types.Type) []Leaf {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	switch np := namedPath(t); np {
	case "time.Time", "math/big.Int", gvcPkg + ".Int":
		return []Leaf{{path: "", sort: SInt, typ: t, role: "math"}}
	default:
		if emptyStructs[np] {
			return nil
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{sort: SBool, typ: t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{sort: SStr, typ: t}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{sort: SInt, typ: t}}
		default:
			return []Leaf{{sort: SInt, typ: t}}
		}
	case *types.Struct:
		var r []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				l.path = "." + f.Name() + l.path
				r = append(r, l)
			}
		}
		return r
	case *types.Array:
		var r []Leaf
		for _, l := range leaves(u.Elem()) {
			l.path = "[]" + l.path
			l.sort = SArr(SInt, l.sort)
			l.arr++
			r = append(r, l)
		}
		return r
	case *types.Slice:
		return []Leaf{{path: "#ref", sort: SInt, typ: t, role: "ref"}, {path: "#off", sort: SInt, typ: t, role: "off"}, {path: "#len", sort: SInt, typ: t, role: "len"}, {path: "#cap", sort: SInt, typ: t, role: "cap"}}
	case *types.Interface:
		return []Leaf{{path: "#tag", sort: SInt, typ: t, role: "tag"}, {path: "#val", sort: SInt, typ: t, role: "val"}}
	case *types.Pointer:
		return []Leaf{{sort: SInt, typ: t, role: "ptr"}}
	case *types.Map:
		return []Leaf{{sort: SInt, typ: t, role: "map"}}
	case *types.Chan:
		return []Leaf{{sort: SInt, typ: t, role: "map"}}
	case *types.Signature:
		return []Leaf{{sort: SInt, typ: t, role: "func"}}
	case *types.Tuple:
		var r []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				l.path = fmt.Sprintf("@%d%s", i, l.path)
				r = append(r, l)
			}
		}
		return r
	case *types.TypeParam:
		panic(unsupported("type parameter " + t.String()))
	}
	panic(unsupported("type " + t.String()))
}

func nleaves(t types.Type) int { return len(leaves(t)) }

type unsupported string

func fieldRange(st *types.Struct, idx int) (int, int) {
	lo := 0
	for i := 0; i < idx; i++ {
		lo += nleaves(st.Field(i).Type())
	}
	return lo, lo + nleaves(st.Field(idx).Type())
}

func tupleRange(st *types.Tuple, idx int) (int, int) {
	lo := 0
	for i := 0; i < idx; i++ {
		lo += nleaves(st.At(i).Type())
	}
	return lo, lo + nleaves(st.At(idx).Type())
}

func zeroOf(s *Sort) *Term {
	switch s.kind {
	case "Bool":
		return False
	case "Int":
		return I(0)
	case "Str":
		return StrC("")
	case "Arr":
		return ConstArr(s, zeroOf(s.v))
	}
	panic("zero")
}

// intInfo returns width and signedness of an integer type.
func intInfo(t types.Type) (w uint, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }

func intRange(t types.Type) (lo, hi *big.Int) {
	w, s, ok := intInfo(t)
	if !ok {
		return nil, nil
	}
	if s {
		return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), bigOne)
	}
	return bigZero, new(big.Int).Sub(pow2(w), bigOne)
}

var maxLen = pow2(40)

// Val is a symbolic Go value: its scalar components, plus a static address for pointers/slices into cells.
type Val struct {
	T types.Type
	L []*Term
	A *Addr
}

func (v Val) one() *Term {
	if len(v.L) != 1 {
		panic(unsupported(fmt.Sprintf("scalar expected, got %s", v.T)))
	}
	return v.L[0]
}

func (v Val) String() string {
	var p []string
	for _, l := range v.L {
		p = append(p, l.String())
	}
	return "<" + strings.Join(p, ", ") + ">"
}

func zeroVal(t types.Type) Val {
	ls := leaves(t)
	v := Val{T: t, L: make([]*Term, len(ls))}
	for i, l := range ls {
		v.L[i] = zeroOf(l.sort)
	}
	return v
}

func scalar(t types.Type, x *Term) Val { return Val{T: t, L: []*Term{x}} }

// ---------------------------------------------------------------- addresses

type Cell struct {
	id   int
	name string
	typ  types.Type
	ref  *Term
}

type Addr struct {
	cell   *Cell // either a cell ...
	ref    *Term // ... or a heap object
	root   types.Type
	lo, hi int
	idx    []*Term
	typ    types.Type
}

func regionKey(root types.Type, leaf Leaf) (string, *Sort) {
	if a, ok := root.Underlying().(*types.Array); ok && namedPath(root) == "" || ok {
		return "A:" + tstr(a.Elem()) + ":" + strings.TrimPrefix(leaf.path, "[]"), SArr(SInt, leaf.sort)
	}
	return "O:" + tstr(root) + ":" + leaf.path, SArr(SInt, leaf.sort)
}

var arrOfCache = map[string]*types.Array{}

func arrOf(elem types.Type) types.Type {
	k := tstr(elem)
	if a, ok := arrOfCache[k]; ok {
		return a
	}
	a := types.NewArray(elem, 1<<40)
	arrOfCache[k] = a
	return a
}
