package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- sorts

type Sort struct {
	id   int
	kind string // "Bool","Int","Str","Arr"
	k, v *Sort
}

var (
	sortTab  = map[string]*Sort{}
	SBool    = mkSort("Bool", nil, nil)
	SInt     = mkSort("Int", nil, nil)
	SStr     = mkSort("Str", nil, nil)
	sortList []*Sort
)

func mkSort(kind string, k, v *Sort) *Sort {
	key := kind
	if k != nil {
		key += "," + k.String() + "," + v.String()
	}
	if s, ok := sortTab[key]; ok {
		return s
	}
	s := &Sort{id: len(sortTab), kind: kind, k: k, v: v}
	sortTab[key] = s
	return s
}
func SArr(k, v *Sort) *Sort { return mkSort("Arr", k, v) }
func (s *Sort) String() string {
	if s.kind == "Arr" {
		return "(Array " + s.k.String() + " " + s.v.String() + ")"
	}
	return s.kind
}

// ---------------------------------------------------------------- terms

type Op int

const (
	OVar Op = iota
	OBound
	OInt
	OBool
	OStr
	OLin // sum coef*args + ival
	OMul // nonlinear product of args
	ODiv // floor division (Euclidean, divisor may be symbolic, assumed > 0)
	OMod
	OIte
	OEq
	OLe0 // args[0] <= 0
	OAnd
	OOr
	ONot
	OSelect
	OStore
	OConstArr
	OApp
	OForall // args[0] = body, bound variable name/sort in bvar
	OSum    // args[0] = body over bound bvar, args[1] = hi : sum_{0<=b<hi} body
	OSetSum // args[0] = body over bound bvar, args[1] = set array K->Bool
)

type Term struct {
	id     int
	op     Op
	sort   *Sort
	args   []*Term
	coefs  []*big.Int
	ival   *big.Int
	name   string
	bvar   *Term
	lo, hi *big.Int
	decl   bool // lo/hi is a declared range (must be asserted)
	bound  []*Term
	facts  []*Term
	size   int
}

var (
	termTab = map[string]*Term{}
	terms   []*Term
	True    *Term
	False   *Term
)

func init() {
	True = mk(&Term{op: OBool, sort: SBool, name: "true"})
	False = mk(&Term{op: OBool, sort: SBool, name: "false"})
}

func mk(t *Term) *Term {
	var sb []byte
	sb = strconv.AppendInt(sb, int64(t.op), 10)
	sb = append(sb, ':')
	sb = strconv.AppendInt(sb, int64(t.sort.id), 10)
	sb = append(sb, ':')
	sb = append(sb, t.name...)
	sb = append(sb, '|')
	if t.ival != nil {
		sb = t.ival.Append(sb, 16)
	}
	sb = append(sb, '|')
	for i, a := range t.args {
		if t.coefs != nil {
			sb = t.coefs[i].Append(sb, 16)
			sb = append(sb, '*')
		}
		sb = strconv.AppendInt(sb, int64(a.id), 10)
		sb = append(sb, ',')
	}
	if t.bvar != nil {
		sb = append(sb, 'b')
		sb = strconv.AppendInt(sb, int64(t.bvar.id), 10)
	}
	key := string(sb)
	if o, ok := termTab[key]; ok {
		return o
	}
	t.id = len(terms) + 1
	// bound variables
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		for _, b := range a.bound {
			if b != t.bvar {
				t.bound = addBound(t.bound, b)
			}
		}
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	if t.op == OBound {
		t.bound = []*Term{t}
	}
	if t.sort == SInt {
		t.calcRange()
	}
	termTab[key] = t
	terms = append(terms, t)
	return t
}

func addBound(l []*Term, b *Term) []*Term {
	for _, x := range l {
		if x == b {
			return l
		}
	}
	n := make([]*Term, len(l), len(l)+1)
	copy(n, l)
	return append(n, b)
}

var bigZero = big.NewInt(0)
var bigOne = big.NewInt(1)

func bi(n int64) *big.Int { return big.NewInt(n) }

func bmin(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// calcRange computes a conservative interval (valid for all models that respect declared ranges).
func (t *Term) calcRange() {
	switch t.op {
	case OInt:
		t.lo, t.hi = t.ival, t.ival
	case OLin:
		lo, hi := new(big.Int).Set(t.ival), new(big.Int).Set(t.ival)
		lok, hik := true, true
		for i, a := range t.args {
			c := t.coefs[i]
			al, ah := a.lo, a.hi
			if c.Sign() < 0 {
				al, ah = ah, al
			}
			if al == nil {
				lok = false
			} else if lok {
				lo.Add(lo, new(big.Int).Mul(c, al))
			}
			if ah == nil {
				hik = false
			} else if hik {
				hi.Add(hi, new(big.Int).Mul(c, ah))
			}
		}
		if lok {
			t.lo = lo
		}
		if hik {
			t.hi = hi
		}
	case OMul:
		allnn := true
		for _, a := range t.args {
			if a.lo == nil || a.lo.Sign() < 0 {
				allnn = false
			}
		}
		if allnn {
			lo, hi := bi(1), bi(1)
			for _, a := range t.args {
				lo = new(big.Int).Mul(lo, a.lo)
				if hi != nil && a.hi != nil {
					hi = new(big.Int).Mul(hi, a.hi)
				} else {
					hi = nil
				}
			}
			t.lo, t.hi = lo, hi
		}
	case ODiv:
		a, d := t.args[0], t.args[1]
		if a.lo != nil && a.lo.Sign() >= 0 && d.lo != nil && d.lo.Sign() > 0 {
			t.lo = bigZero
			if d.hi != nil {
				t.lo = new(big.Int).Div(a.lo, d.hi)
			}
			if a.hi != nil {
				t.hi = new(big.Int).Div(a.hi, d.lo)
			}
		} else if d.op == OInt && d.ival.Sign() > 0 {
			if a.lo != nil {
				t.lo = new(big.Int).Div(a.lo, d.ival)
			}
			if a.hi != nil {
				t.hi = new(big.Int).Div(a.hi, d.ival)
			}
		}
	case OMod:
		a, d := t.args[0], t.args[1]
		if d.lo != nil && d.lo.Sign() > 0 {
			t.lo = bigZero
			if d.hi != nil {
				t.hi = new(big.Int).Sub(d.hi, bigOne)
			}
			if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil {
				if t.hi == nil || a.hi.Cmp(t.hi) < 0 {
					t.hi = a.hi
				}
			}
		}
	case OIte:
		t.lo = bmin(t.args[1].lo, t.args[2].lo)
		t.hi = bmax(t.args[1].hi, t.args[2].hi)
	case OSum:
		b := t.args[0]
		if b.lo != nil && b.lo.Sign() >= 0 {
			t.lo = bigZero
		}
		if b.hi != nil && b.hi.Sign() <= 0 {
			t.hi = bigZero
		}
	case OSetSum:
		b := t.args[0]
		if b.lo != nil && b.lo.Sign() >= 0 {
			t.lo = bigZero
		}
	}
}

// ---------------------------------------------------------------- constructors

func Var(name string, s *Sort) *Term { return mk(&Term{op: OVar, sort: s, name: name}) }

var freshCtr = map[string]int{}

func Fresh(base string, s *Sort) *Term {
	freshCtr[base]++
	return Var(fmt.Sprintf("%s!%d", base, freshCtr[base]), s)
}

// declare a range for a leaf term (variable / select / app): asserted whenever the term is used.
func (t *Term) withRange(lo, hi *big.Int) *Term {
	switch t.op {
	case OVar, OSelect, OApp, OSum, OBound:
	default:
		return t
	}
	if lo != nil && (t.lo == nil || lo.Cmp(t.lo) > 0) {
		t.lo = lo
		t.decl = true
	}
	if hi != nil && (t.hi == nil || hi.Cmp(t.hi) < 0) {
		t.hi = hi
		t.decl = true
	}
	return t
}

func (t *Term) addFact(f *Term) {
	if f == True {
		return
	}
	for _, x := range t.facts {
		if x == f {
			return
		}
	}
	t.facts = append(t.facts, f)
}

func IntC(n *big.Int) *Term { return mk(&Term{op: OInt, sort: SInt, ival: n}) }
func I(n int64) *Term       { return IntC(big.NewInt(n)) }
func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}
func StrC(s string) *Term {
	t := mk(&Term{op: OStr, sort: SStr, name: s})
	return t
}

func Bound(name string, s *Sort) *Term { return mk(&Term{op: OBound, sort: s, name: name}) }

func (t *Term) isC() bool { return t.op == OInt }
func (t *Term) isInt(n int64) bool {
	return t.op == OInt && t.ival.IsInt64() && t.ival.Int64() == n
}

func linParts(t *Term) (args []*Term, coefs []*big.Int, c *big.Int) {
	switch t.op {
	case OInt:
		return nil, nil, t.ival
	case OLin:
		return t.args, t.coefs, t.ival
	}
	return []*Term{t}, []*big.Int{bigOne}, bigZero
}

func mkLin(m map[*Term]*big.Int, c *big.Int) *Term {
	var as []*Term
	for a, k := range m {
		if k.Sign() != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return IntC(c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && c.Sign() == 0 && m[as[0]].Cmp(bigOne) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = m[a]
	}
	return mk(&Term{op: OLin, sort: SInt, args: as, coefs: cs, ival: c})
}

func linComb(ts []*Term, ks []*big.Int) *Term {
	m := map[*Term]*big.Int{}
	c := new(big.Int)
	for i, t := range ts {
		k := ks[i]
		if k.Sign() == 0 {
			continue
		}
		as, cs, cc := linParts(t)
		c = new(big.Int).Add(c, new(big.Int).Mul(k, cc))
		for j, a := range as {
			v := new(big.Int).Mul(k, cs[j])
			if o, ok := m[a]; ok {
				v.Add(v, o)
			}
			m[a] = v
		}
	}
	return mkLin(m, c)
}

func Add(ts ...*Term) *Term {
	ks := make([]*big.Int, len(ts))
	for i := range ks {
		ks[i] = bigOne
	}
	return linComb(ts, ks)
}

var bigM1 = big.NewInt(-1)

func Sub(a, b *Term) *Term            { return linComb([]*Term{a, b}, []*big.Int{bigOne, bigM1}) }
func Neg(a *Term) *Term               { return linComb([]*Term{a}, []*big.Int{bigM1}) }
func Scale(a *Term, k *big.Int) *Term { return linComb([]*Term{a}, []*big.Int{k}) }

func Mul(a, b *Term) *Term {
	if a.op == OInt {
		return Scale(b, a.ival)
	}
	if b.op == OInt {
		return Scale(a, b.ival)
	}
	// ite with constant branches: push
	if a.op == OIte && a.args[1].isC() && a.args[2].isC() {
		return Ite(a.args[0], Mul(a.args[1], b), Mul(a.args[2], b))
	}
	if b.op == OIte && b.args[1].isC() && b.args[2].isC() {
		return Mul(b, a)
	}
	// distribute over small linear forms
	aa, ac, ak := linParts(a)
	ba, bc, bk := linParts(b)
	if len(aa)*len(ba) <= 16 && (a.op == OLin || b.op == OLin) {
		var ts []*Term
		var ks []*big.Int
		for i := range aa {
			for j := range ba {
				ts = append(ts, monMul(aa[i], ba[j]))
				ks = append(ks, new(big.Int).Mul(ac[i], bc[j]))
			}
			ts = append(ts, aa[i])
			ks = append(ks, new(big.Int).Mul(ac[i], bk))
		}
		for j := range ba {
			ts = append(ts, ba[j])
			ks = append(ks, new(big.Int).Mul(bc[j], ak))
		}
		ts = append(ts, IntC(new(big.Int).Mul(ak, bk)))
		ks = append(ks, bigOne)
		return linComb(ts, ks)
	}
	return monMul(a, b)
}

func monMul(a, b *Term) *Term {
	var as []*Term
	for _, x := range []*Term{a, b} {
		if x.op == OMul {
			as = append(as, x.args...)
		} else {
			as = append(as, x)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return mk(&Term{op: OMul, sort: SInt, args: as})
}

// Div is floor division; the divisor is assumed positive.
func Div(a, b *Term) *Term {
	if b.op == OInt && b.ival.Sign() > 0 {
		if b.ival.Cmp(bigOne) == 0 {
			return a
		}
		if a.op == OInt {
			return IntC(new(big.Int).Div(a.ival, b.ival)) // Euclidean = floor for positive divisor
		}
		if a.lo != nil && a.hi != nil {
			l, h := new(big.Int).Div(a.lo, b.ival), new(big.Int).Div(a.hi, b.ival)
			if l.Cmp(h) == 0 {
				return IntC(l)
			}
		}
		if a.op == ODiv && a.args[1].op == OInt && a.args[1].ival.Sign() > 0 {
			return Div(a.args[0], IntC(new(big.Int).Mul(a.args[1].ival, b.ival)))
		}
		if a.op == OLin {
			// split off multiples of b
			var t1, t2 []*Term
			var k1, k2 []*big.Int
			for i, x := range a.args {
				q, r := new(big.Int).DivMod(a.coefs[i], b.ival, new(big.Int))
				if r.Sign() == 0 {
					t1, k1 = append(t1, x), append(k1, q)
				} else {
					t2, k2 = append(t2, x), append(k2, a.coefs[i])
				}
			}
			q, r := new(big.Int).DivMod(a.ival, b.ival, new(big.Int))
			if len(t1) > 0 || (q.Sign() != 0) {
				t1, k1 = append(t1, IntC(q)), append(k1, bigOne)
				t2, k2 = append(t2, IntC(r)), append(k2, bigOne)
				rest := linComb(t2, k2)
				return Add(linComb(t1, k1), Div(rest, b))
			}
			// common factor
			g := new(big.Int).Set(b.ival)
			for _, c := range a.coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if g.Cmp(bigOne) > 0 {
				ks := make([]*big.Int, len(a.args))
				for i, c := range a.coefs {
					ks[i] = new(big.Int).Div(c, g)
				}
				na := linComb(append(append([]*Term{}, a.args...), IntC(new(big.Int).Div(a.ival, g))), append(ks, bigOne))
				return Div(na, IntC(new(big.Int).Div(b.ival, g)))
			}
		}
		if a.op == OIte && (a.args[1].isC() || a.args[2].isC()) {
			return Ite(a.args[0], Div(a.args[1], b), Div(a.args[2], b))
		}
	}
	return mk(&Term{op: ODiv, sort: SInt, args: []*Term{a, b}})
}

func Mod(a, b *Term) *Term {
	if b.op == OInt && b.ival.Sign() > 0 {
		if b.ival.Cmp(bigOne) == 0 {
			return I(0)
		}
		if a.op == OInt {
			return IntC(new(big.Int).Mod(a.ival, b.ival))
		}
		if a.lo != nil && a.hi != nil {
			l, h := new(big.Int).Div(a.lo, b.ival), new(big.Int).Div(a.hi, b.ival)
			if l.Cmp(h) == 0 {
				return Sub(a, IntC(new(big.Int).Mul(l, b.ival)))
			}
		}
		if a.op == OMod && a.args[1].op == OInt && a.args[1].ival.Sign() > 0 {
			if new(big.Int).Mod(a.args[1].ival, b.ival).Sign() == 0 {
				return Mod(a.args[0], b)
			}
		}
		if a.op == OLin {
			ch := false
			ks := make([]*big.Int, len(a.args))
			for i, c := range a.coefs {
				ks[i] = new(big.Int).Mod(c, b.ival)
				// keep small negative coefficients as they are
				if c.Sign() < 0 && new(big.Int).Neg(c).Cmp(b.ival) < 0 {
					ks[i] = c
				}
				if ks[i].Cmp(c) != 0 {
					ch = true
				}
			}
			k := new(big.Int).Mod(a.ival, b.ival)
			if a.ival.Sign() < 0 && new(big.Int).Neg(a.ival).Cmp(b.ival) < 0 {
				k = a.ival
			}
			if k.Cmp(a.ival) != 0 {
				ch = true
			}
			if ch {
				return Mod(linComb(append(append([]*Term{}, a.args...), IntC(k)), append(ks, bigOne)), b)
			}
			// inner mods with the same modulus
			for i, x := range a.args {
				if x.op == OMod && x.args[1] == b {
					ts := append([]*Term{}, a.args...)
					ts[i] = x.args[0]
					return Mod(linComb(append(ts, IntC(a.ival)), append(append([]*big.Int{}, a.coefs...), bigOne)), b)
				}
			}
			g := new(big.Int).Set(b.ival)
			for _, c := range a.coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if g.Cmp(bigOne) > 0 && new(big.Int).Mod(a.ival, g).Sign() == 0 {
				ks := make([]*big.Int, len(a.args))
				for i, c := range a.coefs {
					ks[i] = new(big.Int).Div(c, g)
				}
				na := linComb(append(append([]*Term{}, a.args...), IntC(new(big.Int).Div(a.ival, g))), append(ks, bigOne))
				return Scale(Mod(na, IntC(new(big.Int).Div(b.ival, g))), g)
			}
		}
		if a.op == OIte && (a.args[1].isC() || a.args[2].isC()) {
			return Ite(a.args[0], Mod(a.args[1], b), Mod(a.args[2], b))
		}
	}
	return mk(&Term{op: OMod, sort: SInt, args: []*Term{a, b}})
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch: %s vs %s (%s | %s)", a.sort, b.sort, a, b))
	}
	if a.sort == SBool {
		switch {
		case a == True && b == False:
			return c
		case a == False && b == True:
			return Not(c)
		case a == True:
			return Or(c, b)
		case a == False:
			return And(Not(c), b)
		case b == True:
			return Or(Not(c), a)
		case b == False:
			return And(c, a)
		}
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if a.op == OIte && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	return mk(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == ONot:
		return a.args[0]
	case a.op == OLe0:
		// not (x<=0) = x>=1 = 1-x<=0
		return Le0(Sub(I(1), a.args[0]))
	}
	return mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func negIn(set map[*Term]bool, t *Term) bool { return set[Not(t)] }

func And(ts ...*Term) *Term {
	var l []*Term
	set := map[*Term]bool{}
	for _, t := range ts {
		if t == False {
			return False
		}
		if t == True || set[t] {
			continue
		}
		if negIn(set, t) {
			return False
		}
		if t.op == OAnd && len(t.args) <= 8 {
			for _, x := range t.args {
				if !set[x] {
					if negIn(set, x) {
						return False
					}
					set[x] = true
					l = append(l, x)
				}
			}
			continue
		}
		set[t] = true
		l = append(l, t)
	}
	if len(l) == 0 {
		return True
	}
	if len(l) == 1 {
		return l[0]
	}
	return mk(&Term{op: OAnd, sort: SBool, args: l})
}

func Or(ts ...*Term) *Term {
	var l []*Term
	set := map[*Term]bool{}
	for _, t := range ts {
		if t == True {
			return True
		}
		if t == False || set[t] {
			continue
		}
		if negIn(set, t) {
			return True
		}
		if t.op == OOr && len(t.args) <= 8 {
			for _, x := range t.args {
				if !set[x] {
					if negIn(set, x) {
						return True
					}
					set[x] = true
					l = append(l, x)
				}
			}
			continue
		}
		set[t] = true
		l = append(l, t)
	}
	if len(l) == 0 {
		return False
	}
	if len(l) == 1 {
		return l[0]
	}
	// a or (not a and b) = a or b ; factor common conjuncts for pairs
	for i, t := range l {
		if t.op == OAnd {
			var keep []*Term
			ch := false
			for _, x := range t.args {
				n := Not(x)
				found := false
				for j, o := range l {
					if j != i && o == n {
						found = true
					}
				}
				if found {
					ch = true
				} else {
					keep = append(keep, x)
				}
			}
			if ch {
				nl := append([]*Term{}, l...)
				nl[i] = And(keep...)
				return Or(nl...)
			}
		}
	}
	return mk(&Term{op: OOr, sort: SBool, args: l})
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Le0(x *Term) *Term {
	if x.hi != nil && x.hi.Sign() <= 0 {
		return True
	}
	if x.lo != nil && x.lo.Sign() > 0 {
		return False
	}
	if x.op == OLin {
		g := new(big.Int)
		for _, c := range x.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			// sum/g + ceil(c/g) <= 0
			ks := make([]*big.Int, len(x.args))
			for i, c := range x.coefs {
				ks[i] = new(big.Int).Div(c, g)
			}
			nc := new(big.Int).Neg(new(big.Int).Div(new(big.Int).Neg(x.ival), g))
			x = linComb(append(append([]*Term{}, x.args...), IntC(nc)), append(ks, bigOne))
			return Le0(x)
		}
	}
	if x.op == OIte && (x.args[1].isC() || x.args[2].isC()) {
		return Ite(x.args[0], Le0(x.args[1]), Le0(x.args[2]))
	}
	if x.op == OLin && len(x.args) == 1 && x.args[0].op == OIte {
		i := x.args[0]
		if i.args[1].isC() || i.args[2].isC() {
			f := func(t *Term) *Term { return Add(Scale(t, x.coefs[0]), IntC(x.ival)) }
			return Ite(i.args[0], Le0(f(i.args[1])), Le0(f(i.args[2])))
		}
	}
	return mk(&Term{op: OLe0, sort: SBool, args: []*Term{x}})
}
func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Le0(Add(Sub(a, b), I(1))) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func provDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == OInt && b.op == OInt {
		return true
	}
	if a.op == OStr && b.op == OStr {
		return true
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch: %s vs %s: %s | %s", a.sort, b.sort, a, b))
	}
	if provDistinct(a, b) {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		return And(Or(Not(a), b), Or(a, Not(b)))
	}
	if a.sort == SInt {
		if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 || b.hi != nil && a.lo != nil && b.hi.Cmp(a.lo) < 0 {
			return False
		}
		if a.op == OLin || b.op == OLin {
			d := Sub(a, b)
			if d.op == OInt {
				return BoolC(d.ival.Sign() == 0)
			}
			if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
				return False
			}
		}
	}
	if b.op == OIte && a.op != OIte {
		a, b = b, a
	}
	if a.op == OIte {
		// push equality with constants / alloc symbols through ite
		if b.op == OInt || b.op == OStr || iteLeafConst(a, 4) {
			x, y := a.args[1], a.args[2]
			if iteConst(x) || iteConst(y) || b.op == OInt || b.op == OStr {
				return Ite(a.args[0], Eq(x, b), Eq(y, b))
			}
		}
		if a.args[1] == b {
			return Or(a.args[0], Eq(a.args[2], b))
		}
		if a.args[2] == b {
			return Or(Not(a.args[0]), Eq(a.args[1], b))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func iteConst(t *Term) bool { return t.op == OInt || t.op == OStr }
func iteLeafConst(t *Term, d int) bool {
	if iteConst(t) {
		return true
	}
	if t.op == OIte && d > 0 {
		return iteLeafConst(t.args[1], d-1) && iteLeafConst(t.args[2], d-1)
	}
	return false
}

func ConstArr(s *Sort, v *Term) *Term {
	return mk(&Term{op: OConstArr, sort: s, args: []*Term{v}})
}

func Store(a, k, v *Term) *Term {
	if a.sort.k != k.sort || a.sort.v != v.sort {
		panic(fmt.Sprintf("store sort mismatch %s [%s] := %s", a.sort, k.sort, v.sort))
	}
	if a.op == OStore && a.args[1] == k {
		return Store(a.args[0], k, v)
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == k {
		return a
	}
	return mk(&Term{op: OStore, sort: a.sort, args: []*Term{a, k, v}})
}

func idxDistinct(a, b *Term) bool {
	if provDistinct(a, b) {
		return true
	}
	if a.sort == SInt {
		if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 || b.hi != nil && a.lo != nil && b.hi.Cmp(a.lo) < 0 {
			return true
		}
		d := Sub(a, b)
		if d.op == OInt && d.ival.Sign() != 0 {
			return true
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return true
		}
	}
	return false
}

func Select(a, k *Term) *Term {
	if a.sort.kind != "Arr" {
		panic("select on non-array " + a.String())
	}
	if a.sort.k != k.sort {
		panic(fmt.Sprintf("select sort mismatch %s [%s]", a.sort, k.sort))
	}
	for {
		switch a.op {
		case OConstArr:
			return a.args[0]
		case OStore:
			if a.args[1] == k {
				return a.args[2]
			}
			if idxDistinct(a.args[1], k) {
				a = a.args[0]
				continue
			}
			if k.op == OIte && iteLeafConst(k, 6) {
				return Ite(k.args[0], Select(a, k.args[1]), Select(a, k.args[2]))
			}
		case OIte:
			x, y := Select(a.args[1], k), Select(a.args[2], k)
			return Ite(a.args[0], x, y)
		case OApp:
			switch a.name {
			case "havoc_above": // (H, top, F): F for references above top
				H, top, F := a.args[0], a.args[1], a.args[2]
				if k.hi != nil && k.hi.Cmp(top.ival) <= 0 {
					a = H
					continue
				}
				if k.lo != nil && k.lo.Cmp(top.ival) > 0 {
					a = F
					continue
				}
				return Ite(Le(k, top), Select(H, k), Select(F, k))
			case "arrcopy": // (a, lo, n, b, o): a with a[lo..lo+n) replaced by b[o..o+n)
				lo, n, o := a.args[1], a.args[2], a.args[4]
				in := And(Le(lo, k), Lt(k, Add(lo, n)))
				if in == False {
					a = a.args[0]
					continue
				}
				if in == True {
					k = Add(o, Sub(k, lo))
					a = a.args[3]
					continue
				}
				return Ite(in, Select(a.args[3], Add(o, Sub(k, lo))), Select(a.args[0], k))
			case "arrmap": // table produced by tabulate
			}
		}
		return mk(&Term{op: OSelect, sort: a.sort.v, args: []*Term{a, k}})
	}
}

func App(name string, s *Sort, args ...*Term) *Term {
	return mk(&Term{op: OApp, sort: s, name: name, args: args})
}

func Forall(bv, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	if !hasBound(body, bv) {
		return body
	}
	return mk(&Term{op: OForall, sort: SBool, args: []*Term{body}, bvar: bv})
}

func hasBound(t, bv *Term) bool {
	for _, b := range t.bound {
		if b == bv {
			return true
		}
	}
	return false
}

func SumT(bv, body, hi *Term) *Term {
	if hi.op == OInt {
		if hi.ival.Sign() <= 0 || body.isInt(0) {
			return I(0)
		}
		if hi.ival.IsInt64() && hi.ival.Int64() <= 4 {
			r := I(0)
			for i := int64(0); i < hi.ival.Int64(); i++ {
				r = Add(r, Subst(body, bv, I(i)))
			}
			return r
		}
	}
	if body.isInt(0) {
		return I(0)
	}
	if st := findStore(body, bv, map[*Term]bool{}); st != nil {
		i0 := st.args[1]
		b2 := substM(body, map[*Term]*Term{mk(&Term{op: OSelect, sort: st.sort.v, args: []*Term{st, bv}}): Select(st.args[0], bv)}, map[*Term]*Term{})
		d := Sub(Subst(body, bv, i0), Subst(b2, bv, i0))
		return Add(SumT(bv, b2, hi), Ite(And(Le(I(0), i0), Lt(i0, hi)), d, I(0)))
	}
	return mk(&Term{op: OSum, sort: SInt, args: []*Term{body, hi}, bvar: bv})
}

func SetSumT(bv, body, set *Term) *Term {
	if body.isInt(0) {
		return I(0)
	}
	if set.op == OConstArr && set.args[0] == False {
		return I(0)
	}
	if set.op == OStore {
		base := SetSumT(bv, body, set.args[0])
		k := set.args[1]
		in := Select(set.args[0], k)
		val := Subst(body, bv, k)
		// removing then adding
		return Add(base, Ite(in, Ite(set.args[2], I(0), Neg(val)), Ite(set.args[2], val, I(0))))
	}
	if set.op == OIte {
		return Ite(set.args[0], SetSumT(bv, body, set.args[1]), SetSumT(bv, body, set.args[2]))
	}
	if st := findStore(body, bv, map[*Term]bool{}); st != nil {
		k0 := st.args[1]
		b2 := substM(body, map[*Term]*Term{mk(&Term{op: OSelect, sort: st.sort.v, args: []*Term{st, bv}}): Select(st.args[0], bv)}, map[*Term]*Term{})
		d := Sub(Subst(body, bv, k0), Subst(b2, bv, k0))
		return Add(SetSumT(bv, b2, set), Ite(Select(set, k0), d, I(0)))
	}
	return mk(&Term{op: OSetSum, sort: SInt, args: []*Term{body, set}, bvar: bv})
}

// findStore looks for select(store(a,k0,v), bv) inside t where the store does not mention bv
func findStore(t, bv *Term, seen map[*Term]bool) *Term {
	if seen[t] || !hasBound(t, bv) {
		return nil
	}
	seen[t] = true
	if t.op == OSelect && t.args[1] == bv && t.args[0].op == OStore && !hasBound(t.args[0], bv) {
		return t.args[0]
	}
	for _, a := range t.args {
		if r := findStore(a, bv, seen); r != nil {
			return r
		}
	}
	return nil
}

// ---------------------------------------------------------------- substitution

func Subst(t, from, to *Term) *Term {
	return substM(t, map[*Term]*Term{from: to}, map[*Term]*Term{})
}

func SubstAll(t *Term, m map[*Term]*Term) *Term { return substM(t, m, map[*Term]*Term{}) }

func substM(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = substM(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, as)
		if t.decl && (r.op == OSelect || r.op == OApp) {
			r.withRange(t.lo, t.hi)
		}
	}
	memo[t] = r
	if ch && len(t.facts) > 0 && (r.op == OSelect || r.op == OApp || r.op == OEq) {
		for _, f := range t.facts {
			r.addFact(substM(f, m, memo))
		}
	}
	return r
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OLin:
		return linComb(append(append([]*Term{}, as...), IntC(t.ival)), append(append([]*big.Int{}, t.coefs...), bigOne))
	case OMul:
		r := as[0]
		for _, a := range as[1:] {
			r = Mul(r, a)
		}
		return r
	case ODiv:
		return Div(as[0], as[1])
	case OMod:
		return Mod(as[0], as[1])
	case OIte:
		return Ite(as[0], as[1], as[2])
	case OEq:
		return Eq(as[0], as[1])
	case OLe0:
		return Le0(as[0])
	case OAnd:
		return And(as...)
	case OOr:
		return Or(as...)
	case ONot:
		return Not(as[0])
	case OSelect:
		return Select(as[0], as[1])
	case OStore:
		return Store(as[0], as[1], as[2])
	case OConstArr:
		return ConstArr(t.sort, as[0])
	case OApp:
		return App(t.name, t.sort, as...)
	case OForall:
		return Forall(t.bvar, as[0])
	case OSum:
		return SumT(t.bvar, as[0], as[1])
	case OSetSum:
		return SetSumT(t.bvar, as[0], as[1])
	}
	panic("rebuild")
}

// ---------------------------------------------------------------- printing (debug)

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	switch t.op {
	case OVar, OBound:
		return t.name
	case OInt:
		return t.ival.String()
	case OBool:
		return t.name
	case OStr:
		return strconv.Quote(t.name)
	}
	if d == 0 {
		return "…"
	}
	var p []string
	for i, a := range t.args {
		s := a.str(d - 1)
		if t.coefs != nil && t.coefs[i].Cmp(bigOne) != 0 {
			s = t.coefs[i].String() + "*" + s
		}
		p = append(p, s)
	}
	nm := map[Op]string{OLin: "+", OMul: "*", ODiv: "div", OMod: "mod", OIte: "ite", OEq: "=", OLe0: "<=0", OAnd: "and", OOr: "or", ONot: "not", OSelect: "sel", OStore: "store", OConstArr: "const", OForall: "forall", OSum: "sum", OSetSum: "setsum"}[t.op]
	if t.op == OApp {
		nm = t.name
	}
	if t.op == OLin && t.ival.Sign() != 0 {
		p = append(p, t.ival.String())
	}
	if t.bvar != nil {
		nm += "[" + t.bvar.name + "]"
	}
	return "(" + nm + " " + strings.Join(p, " ") + ")"
}
