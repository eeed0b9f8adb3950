package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- state

type State struct {
	pc     []*Term
	know   *knowledge
	heap   map[string]*Term
	cells  map[*Cell][]*Term
	prom   map[*Cell]bool
	env    map[ssa.Value]Val
	defers []deferred
}

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fn   Val
	pos  token.Pos
}

// knowledge is an index over the path condition.
type knowledge struct {
	set map[*Term]bool
	eqs map[*Term]*Term
	lo  map[*Term]*big.Int
	hi  map[*Term]*big.Int
}

func newState() *State {
	return &State{heap: map[string]*Term{}, cells: map[*Cell][]*Term{}, prom: map[*Cell]bool{}, env: map[ssa.Value]Val{}}
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], heap: make(map[string]*Term, len(s.heap)), cells: make(map[*Cell][]*Term, len(s.cells)), prom: make(map[*Cell]bool, len(s.prom)), env: make(map[ssa.Value]Val, len(s.env)+8), defers: s.defers[:len(s.defers):len(s.defers)]}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.prom {
		n.prom[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

func (s *State) k() *knowledge {
	if s.know == nil {
		s.know = &knowledge{set: map[*Term]bool{}, eqs: map[*Term]*Term{}, lo: map[*Term]*big.Int{}, hi: map[*Term]*big.Int{}}
		for _, c := range s.pc {
			s.know.learn(c)
		}
	}
	return s.know
}

func (k *knowledge) learn(c *Term) {
	k.set[c] = true
	switch c.op {
	case OAnd:
		for _, a := range c.args {
			k.learn(a)
		}
	case OEq:
		a, b := c.args[0], c.args[1]
		if a.op == OInt || a.op == OStr {
			a, b = b, a
		}
		if b.op == OInt || b.op == OStr {
			k.eqs[a] = b
			if b.op == OInt {
				k.lo[a], k.hi[a] = b.ival, b.ival
			}
		}
	case ONot:
		// x != c at the border of the range
		e := c.args[0]
		if e.op == OEq && e.args[0].sort == SInt {
			a, b := e.args[0], e.args[1]
			if a.op == OInt {
				a, b = b, a
			}
			if b.op == OInt {
				lo, hi := k.bounds(a)
				if lo != nil && lo.Cmp(b.ival) == 0 {
					k.lo[a] = new(big.Int).Add(lo, bigOne)
				}
				if hi != nil && hi.Cmp(b.ival) == 0 {
					k.hi[a] = new(big.Int).Sub(hi, bigOne)
				}
			}
		}
	case OLe0:
		t := c.args[0]
		as, cs, cc := linParts(t)
		if len(as) == 1 {
			// coef*x + cc <= 0
			x, co := as[0], cs[0]
			if co.Sign() > 0 {
				h := new(big.Int).Div(new(big.Int).Neg(cc), co)
				if o := k.hi[x]; o == nil || h.Cmp(o) < 0 {
					k.hi[x] = h
				}
			} else {
				// x >= cc/(-co) rounded up
				m := new(big.Int).Neg(co)
				l := new(big.Int).Neg(new(big.Int).Div(new(big.Int).Neg(cc), m))
				if o := k.lo[x]; o == nil || l.Cmp(o) > 0 {
					k.lo[x] = l
				}
			}
		} else if t.op == OLin {
			// difference information: remember the bound for the linear part itself
			base := linComb(as, cs)
			k.hi[base] = new(big.Int).Neg(cc)
			k.lo[Neg(base)] = cc
			// bounds of the single parts
			for i, a := range as {
				if len(as) > 6 {
					continue
				}
				// cs[i]*a <= -cc - sum(others)
				m := new(big.Int).Neg(cc)
				ok := true
				for j, b := range as {
					if j == i {
						continue
					}
					bl, bh := k.bounds(b)
					if cs[j].Sign() < 0 {
						bl = bh
					}
					if bl == nil {
						ok = false
						break
					}
					m.Sub(m, new(big.Int).Mul(cs[j], bl))
				}
				if !ok {
					continue
				}
				if ac := new(big.Int).Abs(cs[i]); ac.Cmp(bigOne) != 0 {
					m.Div(m, ac) // |c|*x <= m, x the variable or its negation
				}
				if cs[i].Sign() > 0 {
					if o := k.hi[a]; o == nil || m.Cmp(o) < 0 {
						k.hi[a] = m
					}
				} else {
					m = new(big.Int).Neg(m)
					if o := k.lo[a]; o == nil || m.Cmp(o) > 0 {
						k.lo[a] = m
					}
				}
			}
		}
	}
}

func (k *knowledge) bounds(t *Term) (lo, hi *big.Int) {
	lo, hi = t.lo, t.hi
	if l := k.lo[t]; l != nil && (lo == nil || l.Cmp(lo) > 0) {
		lo = l
	}
	if h := k.hi[t]; h != nil && (hi == nil || h.Cmp(hi) < 0) {
		hi = h
	}
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return
	}
	upd := func(l, h *big.Int) {
		if l != nil && (lo == nil || l.Cmp(lo) > 0) {
			lo = l
		}
		if h != nil && (hi == nil || h.Cmp(hi) < 0) {
			hi = h
		}
	}
	switch t.op {
	case OMul:
		if len(t.args) > 4 {
			return
		}
		l, h := bi(1), bi(1)
		for _, a := range t.args {
			al, ah := k.bounds(a)
			if al == nil || al.Sign() < 0 {
				return
			}
			l = new(big.Int).Mul(l, al)
			if h != nil && ah != nil {
				h = new(big.Int).Mul(h, ah)
			} else {
				h = nil
			}
		}
		upd(l, h)
	case ODiv:
		al, ah := k.boundsLin(t.args[0])
		dl, dh := k.bounds(t.args[1])
		if al != nil && al.Sign() >= 0 && dl != nil && dl.Sign() > 0 {
			l := bigZero
			if dh != nil {
				l = new(big.Int).Div(al, dh)
			}
			if ah != nil {
				upd(l, new(big.Int).Div(ah, dl))
			} else {
				upd(l, nil)
			}
		}
	case OMod:
		dl, dh := k.bounds(t.args[1])
		if dl != nil && dl.Sign() > 0 {
			if dh != nil {
				upd(bigZero, new(big.Int).Sub(dh, bigOne))
			}
			al, ah := k.boundsLin(t.args[0])
			if al != nil && al.Sign() >= 0 && ah != nil {
				upd(bigZero, ah)
			}
		}
	}
	return
}

func (k *knowledge) boundsLin(t *Term) (lo, hi *big.Int) {
	as, cs, cc := linParts(t)
	lo, hi = new(big.Int).Set(cc), new(big.Int).Set(cc)
	for i, a := range as {
		al, ah := k.bounds(a)
		if cs[i].Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil && al != nil {
			lo.Add(lo, new(big.Int).Mul(cs[i], al))
		} else {
			lo = nil
		}
		if hi != nil && ah != nil {
			hi.Add(hi, new(big.Int).Mul(cs[i], ah))
		} else {
			hi = nil
		}
	}
	if len(as) > 1 {
		base := linComb(as, cs)
		if h := k.hi[base]; h != nil {
			h2 := new(big.Int).Add(h, cc)
			if hi == nil || h2.Cmp(hi) < 0 {
				hi = h2
			}
		}
		if l := k.lo[base]; l != nil {
			l2 := new(big.Int).Add(l, cc)
			if lo == nil || l2.Cmp(lo) > 0 {
				lo = l2
			}
		}
	}
	return
}

// decide simplifies a condition under the path condition (syntactically).
func (s *State) decide(c *Term) *Term { return s.decideD(c, 3) }

func (s *State) decideD(c *Term, d int) *Term {
	if c == True || c == False {
		return c
	}
	k := s.k()
	if k.set[c] {
		return True
	}
	if k.set[Not(c)] {
		return False
	}
	switch c.op {
	case OLe0:
		lo, hi := k.boundsLin(c.args[0])
		if hi != nil && hi.Sign() <= 0 {
			return True
		}
		if lo != nil && lo.Sign() > 0 {
			return False
		}
	case OEq:
		a, b := c.args[0], c.args[1]
		if a.op == OInt || a.op == OStr {
			a, b = b, a
		}
		if e, ok := k.eqs[a]; ok {
			if r := Eq(e, b); r == True || r == False {
				return r
			}
		}
		if e, ok := k.eqs[b]; ok {
			if r := Eq(e, a); r == True || r == False {
				return r
			}
		}
		if a.sort == SInt {
			al, ah := k.boundsLin(a)
			bl, bh := k.boundsLin(b)
			if al != nil && bh != nil && al.Cmp(bh) > 0 || bl != nil && ah != nil && bl.Cmp(ah) > 0 {
				return False
			}
		}
	case ONot:
		if d > 0 {
			return Not(s.decideD(c.args[0], d))
		}
	case OAnd, OOr:
		if d > 0 && len(c.args) <= 12 {
			as := make([]*Term, len(c.args))
			ch := false
			for i, a := range c.args {
				as[i] = s.decideD(a, d-1)
				ch = ch || as[i] != a
			}
			if ch {
				if c.op == OAnd {
					return And(as...)
				}
				return Or(as...)
			}
		}
	}
	return c
}

func (s *State) assume(c *Term) {
	if c == True {
		return
	}
	if c.op == OAnd {
		for _, a := range c.args {
			s.assume(a)
		}
		return
	}
	k := s.k()
	if k.set[c] {
		return
	}
	s.pc = append(s.pc, c)
	if s.know != nil {
		// knowledge may be shared after clone; rebuild lazily on first write
		nk := s.know
		nk.learn(c)
	}
}

func (s *State) dead() bool {
	for _, c := range s.pc {
		if c == False {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- executor

type Oblig struct {
	contract *Contract
	label    string
	kind     string // ensures, requires, assert, nopanic, invariant, unsupported
	pos      string
	pc       []*Term
	goal     *Term
	split    string
	params   []paramVal
	res      Result
	who      string
	ms       int64
}

type paramVal struct {
	name string
	v    Val
}

type closureRec struct {
	fn   *ssa.Function
	bind []Val
}

type Frame struct {
	fn      *ssa.Function
	parent  *Frame
	bind    []Val
	depth   int
	harness *Contract // this frame runs the body of a contract
	use     bool      // contract is being used at a call site
	rets    []retState
	pos     token.Pos
	// environment of the caller at the time of the call
	callerEnv map[ssa.Value]Val
}

type retState struct {
	st  *State
	val []Val
}

type Exec struct {
	w         *World
	obl       []*Oblig
	alloc     *big.Int
	quiet     int // >0: obligations are not recorded
	fr        *Frame
	closures  []closureRec
	cells     int
	globals   map[*ssa.Global]*Cell
	gtab      map[*ssa.Global][]*Term
	contract  *Contract
	split     string
	params    []paramVal
	nopanic   bool
	rec       *writeRec
	loops     []*loopCtx
	arrLen    map[*Term]int64
	snap      map[*Term]*Addr // arrays inside other objects which a slice was made of
	steps     int
	baseBound map[*Term]*big.Int
	mayAlias  bool
	inQuant   int

	frameBase  *big.Int // set while the target of a modular contract runs: memory allocated before may not be written
	frameBad   map[string]bool
	noFrame    int
	escaped    map[*Term]bool
	holds      map[*Term][]*Term
	gheap      map[*ssa.Global][]gwrite
	gfacts     map[*ssa.Global][]*Term
	iterP0     map[*Cell]*Term
	noVer      int // writes that initialise fresh objects do not change the heap version
	pathDone   bool
	pathPick   int
	nPaths     int
	pathObl    int
	ghostDepth int
	ghostDone  map[*Term]bool
}

var refWindow = pow2(80)

func newExec(w *World, c *Contract) *Exec {
	return &Exec{w: w, alloc: new(big.Int).Set(pow2(62)), globals: map[*ssa.Global]*Cell{}, gtab: map[*ssa.Global][]*Term{}, contract: c, arrLen: map[*Term]int64{}, snap: map[*Term]*Addr{}, baseBound: map[*Term]*big.Int{}, escaped: map[*Term]bool{}, holds: map[*Term][]*Term{}, gheap: map[*ssa.Global][]gwrite{}, gfacts: map[*ssa.Global][]*Term{}}
}

func (x *Exec) newRef() *Term {
	x.alloc = new(big.Int).Add(x.alloc, bigOne)
	r := IntC(x.alloc)
	delete(x.snap, r) // the loop's body is executed several times with the same references
	return r
}

func (x *Exec) posStr(p token.Pos) string {
	if p == token.NoPos {
		return ""
	}
	ps := x.w.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) oblige(st *State, goal *Term, label, kind string, pos token.Pos) {
	goal = st.decide(goal)
	if x.quiet > 0 {
		st.assume(goal)
		return
	}
	o := &Oblig{contract: x.contract, label: label, kind: kind, pos: x.posStr(pos), pc: append([]*Term{}, st.pc...), goal: goal, split: x.split, params: x.params}
	x.obl = append(x.obl, o)
	st.assume(goal)
}

// must: a runtime check. Under nopanic it becomes an obligation, otherwise the failing path ends in a panic and is dropped.
func (x *Exec) must(st *State, c *Term, what string, pos token.Pos) {
	c = st.decide(c)
	if c == True {
		return
	}
	if x.quiet == 0 && (x.nopanic || x.specText()) {
		x.oblige(st, c, "no panic: "+what, "nopanic", pos)
		return
	}
	st.assume(c)
}

// specText: the text of the contract being verified (or a specification helper called by it) is being executed;
// a specification that panics would be vacuous.
func (x *Exec) specText() bool {
	hf := x.harnessFrame()
	return hf != nil && !hf.use
}

// ---------------------------------------------------------------- fresh values

// typedFacts attaches the facts implied by the Go type to the leaves.
func (x *Exec) typedLeaf(l Leaf, t *Term) *Term {
	if t.sort != SInt {
		if t.sort == SStr {
			return t
		}
		return t
	}
	switch l.role {
	case "math":
		return t
	case "ref", "ptr", "map":
		return t.withRange(bigZero, x.maxRef(t))
	case "off":
		return t.withRange(bigZero, maxLen)
	case "len", "cap":
		return t.withRange(bigZero, maxLen)
	case "tag":
		t = t.withRange(bigZero, bi(int64(len(x.w.typeIDs)+1000)))
		x.closedWorld(l.typ, t)
		return t
	case "val", "func":
		return t
	}
	if lo, hi := intRange(l.typ); lo != nil {
		return t.withRange(lo, hi)
	}
	return t
}

// typedSlice adds the facts of slice headers: nil slices are empty, len <= cap.
func (x *Exec) typedVal(v Val) Val {
	ls := leaves(v.T)
	for i, l := range ls {
		if len(v.L) <= i {
			break
		}
		v.L[i] = x.typedLeaf(l, v.L[i])
		if l.role == "len" && l.arr == 0 && v.L[i].op != OInt {
			ref, ln, cp := v.L[i-2], v.L[i], v.L[i+1]
			switch ln.op {
			case OVar, OSelect, OApp:
				if len(ln.facts) == 0 {
					ln.addFact(rawOr(Not(Eq(ref, I(0))), Eq(ln, I(0))))
					ln.addFact(Le(ln, cp))
				}
			}
		}
	}
	return v
}

func rawOr(a, b *Term) *Term { return Or(a, b) }

// freshVal makes an arbitrary value of type t. Slices of the initial state start at offset 0 of their backing array.
func (x *Exec) freshVal(name string, t types.Type) Val {
	ls := leaves(t)
	v := Val{T: t, L: make([]*Term, len(ls))}
	for i, l := range ls {
		v.L[i] = Fresh(name+l.path, l.sort)
		if l.role == "off" && l.arr == 0 {
			v.L[i] = I(0)
		}
	}
	return x.typedVal(v)
}

// ---------------------------------------------------------------- memory

func (x *Exec) region(st *State, key string, s *Sort) *Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	return initRegion(key, s)
}

// initRegion is the content of a region in the initial state; slices of the initial state start at offset 0.
func initRegion(key string, s *Sort) *Term {
	if strings.HasSuffix(key, "#off") {
		return zeroSort(s)
	}
	return Var("H:"+key, s)
}

func zeroSort(s *Sort) *Term {
	if s == SInt {
		return I(0)
	}
	return ConstArr(s, zeroSort(s.v))
}

func (x *Exec) setRegion(st *State, key string, h *Term, ref *Term) {
	st.heap[key] = h
	if h.op == OStore {
		if ref != nil && isFresh(ref) && !x.escaped[ref] {
			// reachable only through ref
			x.holds[ref] = append(x.holds[ref], h.args[2])
		} else {
			x.escape(h.args[2])
		}
	}
	fresh := x.freshWrite(st, key, ref)
	if x.noVer == 0 && !(ref != nil && isFresh(ref) && !x.escaped[ref]) && !fresh {
		// version of the heap as seen by functions treated as uninterpreted
		st.heap[verKey] = Fresh("ver", SInt)
		if x.rec != nil {
			x.rec.heapWrite(verKey, nil, SInt)
		}
	}
	if x.frameBase != nil && x.noFrame == 0 && ref != nil && !(ref.lo != nil && ref.lo.Cmp(x.frameBase) > 0) {
		x.frameBad[key] = true
	}
	if x.rec != nil {
		x.rec.heapWrite(key, ref, h.sort)
	}
	if a := x.snap[ref]; a != nil && ref != nil {
		// a write through a slice of an array that is part of another object
		v := Val{T: a.typ}
		for _, l := range leaves(a.typ) {
			k, so := regionKey(a.typ, l)
			v.L = append(v.L, Select(x.region(st, k, so), ref))
		}
		x.store(st, a, v)
	}
}

// freshWrite: under the tag freshwrites, writes through references the tool does not know precisely have to be to
// objects allocated in the loop; reports whether the write cannot be seen through values of the initial heap.
func (x *Exec) freshWrite(st *State, key string, ref *Term) bool {
	if ref == nil || isFresh(ref) || x.contract == nil || x.contract.freshWrites == "" || !strings.Contains(key, x.contract.freshWrites) || len(x.loops) == 0 || x.noVer > 0 {
		return false
	}
	top := x.loops[len(x.loops)-1].allocBefore
	x.oblige(st, Lt(IntC(top), ref), "only objects allocated in the loop are written", "frame", token.NoPos)
	for e := range x.escaped {
		if e.ival.Cmp(top) > 0 {
			return false
		}
	}
	return true
}

// isFresh: the reference of an object allocated by the code under verification.
func isFresh(r *Term) bool {
	return r.op == OInt && r.ival.Cmp(pow2(62)) > 0 && r.ival.Cmp(pow2(100)) < 0
}

// escape records the allocated objects whose references are stored in memory, passed to functions treated as
// uninterpreted or carried around loops: writes to all others cannot be observed through values of the initial heap.
func (x *Exec) escape(t *Term) {
	switch t.op {
	case OInt:
		if isFresh(t) && !x.escaped[t] {
			x.escaped[t] = true
			for _, h := range x.holds[t] {
				x.escape(h)
			}
		}
	case OIte:
		x.escape(t.args[1])
		x.escape(t.args[2])
	case OStore:
		x.escape(t.args[0])
		x.escape(t.args[2])
	}
}

const verKey = "$ver"

func (x *Exec) version(st *State) *Term { return x.region(st, verKey, SInt) }

func (x *Exec) newCell(name string, t types.Type) *Cell {
	x.cells++
	return &Cell{id: x.cells, name: name, typ: t, ref: x.newRef()}
}

func wholeAddr(c *Cell) *Addr {
	return &Addr{cell: c, root: c.typ, lo: 0, hi: nleaves(c.typ), typ: c.typ}
}

// sameShape: an address of the only field of a struct is not an address of the struct.
func sameShape(root, typ types.Type) bool {
	if root == nil || typ == nil || types.Identical(root, typ) {
		return true
	}
	return types.Identical(root.Underlying(), typ.Underlying())
}

func (a *Addr) whole() bool {
	return len(a.idx) == 0 && a.lo == 0 && a.hi == nleaves(a.root) && sameShape(a.root, a.typ)
}

func (x *Exec) cellVal(st *State, c *Cell) []*Term {
	if v, ok := st.cells[c]; ok {
		return v
	}
	panic(unsupported("cell " + c.name + " not initialised"))
}

// promote moves a cell to the heap.
func (x *Exec) promote(st *State, c *Cell) {
	if st.prom[c] {
		return
	}
	st.prom[c] = true
	x.noFrame++
	x.noVer++
	defer func() { x.noFrame--; x.noVer-- }()
	v := x.cellVal(st, c)
	ls := leaves(c.typ)
	if a, ok := c.typ.Underlying().(*types.Array); ok {
		x.arrLen[c.ref] = a.Len()
	}
	for i, l := range ls {
		key, s := regionKey(c.typ, l)
		x.setRegion(st, key, Store(x.region(st, key, s), c.ref, v[i]), c.ref)
	}
}

func (x *Exec) deref(st *State, p Val, pos token.Pos) *Addr {
	if p.A != nil {
		return p.A
	}
	pt, ok := p.T.Underlying().(*types.Pointer)
	if !ok {
		panic(unsupported("deref of " + p.T.String()))
	}
	el := pt.Elem()
	r := p.one()
	x.must(st, Not(Eq(r, I(0))), "nil dereference", pos)
	return &Addr{ref: r, root: el, lo: 0, hi: nleaves(el), typ: el}
}

func (x *Exec) load(st *State, a *Addr) Val {
	ls := leaves(a.root)
	n := a.hi - a.lo
	v := Val{T: a.typ, L: make([]*Term, n)}
	tl := leaves(a.typ)
	if a.cell != nil && !st.prom[a.cell] {
		c := x.cellVal(st, a.cell)
		for i := 0; i < n; i++ {
			t := c[a.lo+i]
			for _, ix := range a.idx {
				t = Select(t, ix)
			}
			v.L[i] = t
		}
		return x.typedVal(v)
	}
	ref := a.ref
	if a.cell != nil {
		ref = a.cell.ref
	}
	for i := 0; i < n; i++ {
		key, s := regionKey(a.root, ls[a.lo+i])
		t := Select(x.region(st, key, s), ref)
		for _, ix := range a.idx {
			t = Select(t, ix)
		}
		if tl[i].role == "off" && tl[i].arr == 0 && isInitialRead(t) {
			t = I(0)
		}
		v.L[i] = t
	}
	return x.typedVal(v)
}

// isInitialRead: the term reads directly from the initial heap.
func isInitialRead(t *Term) bool {
	for t.op == OSelect {
		t = t.args[0]
	}
	return t.op == OVar && strings.HasPrefix(t.name, "H:")
}

func storePath(t *Term, idx []*Term, v *Term) *Term {
	if len(idx) == 0 {
		return v
	}
	return Store(t, idx[0], storePath(Select(t, idx[0]), idx[1:], v))
}

func (x *Exec) store(st *State, a *Addr, v Val) {
	v = x.plain(st, v)
	ls := leaves(a.root)
	n := a.hi - a.lo
	if len(v.L) != n {
		panic(unsupported(fmt.Sprintf("store of %s (%d) into %s (%d)", v.T, len(v.L), a.typ, n)))
	}
	if a.cell != nil && !st.prom[a.cell] {
		c := append([]*Term{}, x.cellVal(st, a.cell)...)
		for i := 0; i < n; i++ {
			c[a.lo+i] = storePath(c[a.lo+i], a.idx, v.L[i])
		}
		st.cells[a.cell] = c
		if x.rec != nil {
			x.rec.cellWrite(a.cell)
		}
		return
	}
	ref := a.ref
	if a.cell != nil {
		ref = a.cell.ref
	}
	for i := 0; i < n; i++ {
		key, s := regionKey(a.root, ls[a.lo+i])
		h := x.region(st, key, s)
		x.setRegion(st, key, Store(h, ref, storePath(Select(h, ref), a.idx, v.L[i])), ref)
	}
}

// plain turns pointers to cells into heap references so that the value can be stored anywhere.
func (x *Exec) plain(st *State, v Val) Val {
	if v.A == nil {
		return v
	}
	if !v.A.whole() {
		panic(unsupported("interior pointer escapes"))
	}
	if v.A.cell != nil {
		x.promote(st, v.A.cell)
		return Val{T: v.T, L: []*Term{v.A.cell.ref}}
	}
	return Val{T: v.T, L: []*Term{v.A.ref}}
}

// newObject allocates a zeroed heap object and returns its reference.
func (x *Exec) initObj(st *State, t types.Type, v []*Term) *Term {
	x.noVer++
	defer func() { x.noVer-- }()
	r := x.newRef()
	for i, l := range leaves(t) {
		key, s := regionKey(t, l)
		x.setRegion(st, key, Store(x.region(st, key, s), r, v[i]), r)
	}
	return r
}

// elements of a slice: address of element i
func (x *Exec) elemAddr(s Val, i *Term) *Addr {
	el := s.T.Underlying().(*types.Slice).Elem()
	root := arrOf(el)
	return &Addr{ref: s.L[0], root: root, lo: 0, hi: nleaves(root), idx: []*Term{Add(s.L[1], i)}, typ: el}
}

// content arrays (one per element leaf) of a slice
func (x *Exec) content(st *State, s Val) []*Term {
	el := s.T.Underlying().(*types.Slice).Elem()
	root := arrOf(el)
	var r []*Term
	for _, l := range leaves(root) {
		key, so := regionKey(root, l)
		r = append(r, Select(x.region(st, key, so), s.L[0]))
	}
	return r
}

func (x *Exec) newSlice(st *State, t types.Type, content []*Term, off, ln, cp *Term) Val {
	el := t.Underlying().(*types.Slice).Elem()
	r := x.initObj(st, arrOf(el), content)
	return Val{T: t, L: []*Term{r, off, ln, cp}}
}

// ---------------------------------------------------------------- merging

func (x *Exec) iteVal(st *State, c *Term, a, b Val) (Val, bool) {
	if a.A != nil || b.A != nil {
		return Val{}, false
	}
	if len(a.L) != len(b.L) {
		return Val{}, false
	}
	r := Val{T: a.T, L: make([]*Term, len(a.L))}
	for i := range a.L {
		if a.L[i].sort != b.L[i].sort {
			return Val{}, false
		}
		r.L[i] = Ite(c, a.L[i], b.L[i])
	}
	return r, true
}

func sameAddr(a, b *Addr) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if a.cell != b.cell || a.ref != b.ref || a.lo != b.lo || a.hi != b.hi || len(a.idx) != len(b.idx) {
		return false
	}
	for i := range a.idx {
		if a.idx[i] != b.idx[i] {
			return false
		}
	}
	return types.Identical(a.root, b.root)
}

func sameVal(a, b Val) bool {
	if len(a.L) != len(b.L) || !sameAddr(a.A, b.A) {
		return false
	}
	for i := range a.L {
		if a.L[i] != b.L[i] {
			return false
		}
	}
	return true
}

func commonPrefix(a, b []*Term) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

// mergeAll merges states (with attached value lists) into one.
func (x *Exec) mergeAll(l []retState) *retState {
	var live []retState
	for _, s := range l {
		if s.st != nil && !s.st.dead() {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return nil
	}
	for len(live) > 1 {
		// the neighbouring pair with the longest common prefix
		best, bi := -1, 0
		bj := 1
		for i := 0; i < len(live); i++ {
			for j := i + 1; j < len(live); j++ {
				n := commonPrefix(live[i].st.pc, live[j].st.pc)
				if n > best {
					best, bi, bj = n, i, j
				}
			}
		}
		m := x.merge2(live[bi], live[bj])
		live[bi] = m
		live = append(live[:bj], live[bj+1:]...)
	}
	return &live[0]
}

func (x *Exec) merge2(a, b retState) retState {
	n := commonPrefix(a.st.pc, b.st.pc)
	ra, rb := a.st.pc[n:], b.st.pc[n:]
	var cond *Term
	var npc []*Term
	npc = append(npc, a.st.pc[:n]...)
	if len(ra) > 0 && len(rb) > 0 && ra[0] == Not(rb[0]) {
		cond = ra[0]
		inB := map[*Term]bool{}
		for _, t := range rb[1:] {
			inB[t] = true
		}
		inA := map[*Term]bool{}
		for _, t := range ra[1:] {
			inA[t] = true
			if inB[t] {
				npc = append(npc, t)
			} else {
				npc = append(npc, Or(Not(cond), t))
			}
		}
		for _, t := range rb[1:] {
			if !inA[t] {
				npc = append(npc, Or(cond, t))
			}
		}
	} else {
		// complementary literals further down?
		cond = And(ra...)
		if len(ra) == 0 || len(rb) > 0 && len(rb) < len(ra) {
			cond = Not(And(rb...))
			if len(rb) == 0 {
				cond = And(ra...)
			}
		}
		npc = append(npc, Or(And(ra...), And(rb...)))
	}
	st := newState()
	for _, t := range npc {
		if t != True {
			st.pc = append(st.pc, t)
		}
	}
	sa, sb := a.st, b.st
	// promotions
	for c := range sa.prom {
		if !sb.prom[c] {
			if _, ok := sb.cells[c]; ok {
				x.promoteQuiet(sb, c)
			}
		}
	}
	for c := range sb.prom {
		if !sa.prom[c] {
			if _, ok := sa.cells[c]; ok {
				x.promoteQuiet(sa, c)
			}
		}
	}
	// pointers that differ need references
	fix := func(va, vb Val) (Val, Val) {
		if (va.A != nil || vb.A != nil) && !sameAddr(va.A, vb.A) {
			if (va.A == nil || va.A.whole()) && (vb.A == nil || vb.A.whole()) {
				if va.A != nil && va.A.cell != nil {
					x.promoteQuiet(sa, va.A.cell)
					if _, ok := sb.cells[va.A.cell]; ok {
						x.promoteQuiet(sb, va.A.cell)
					}
				}
				if vb.A != nil && vb.A.cell != nil {
					x.promoteQuiet(sb, vb.A.cell)
					if _, ok := sa.cells[vb.A.cell]; ok {
						x.promoteQuiet(sa, vb.A.cell)
					}
				}
				return x.plain(sa, va), x.plain(sb, vb)
			}
		}
		return va, vb
	}
	mergeVal := func(va, vb Val) (Val, bool) {
		if sameVal(va, vb) {
			return va, true
		}
		va, vb = fix(va, vb)
		if va.A != nil && vb.A != nil && !sameAddr(va.A, vb.A) {
			// interior pointers of the same shape
			p, q := va.A, vb.A
			if p.cell == nil && q.cell == nil && p.lo == q.lo && p.hi == q.hi && len(p.idx) == len(q.idx) && types.Identical(p.root, q.root) {
				n := &Addr{ref: Ite(cond, p.ref, q.ref), root: p.root, lo: p.lo, hi: p.hi, typ: p.typ}
				for i := range p.idx {
					n.idx = append(n.idx, Ite(cond, p.idx[i], q.idx[i]))
				}
				return Val{T: va.T, L: []*Term{Ite(cond, va.L[0], vb.L[0])}, A: n}, true
			}
			return Val{}, false
		}
		if va.A != nil && vb.A != nil {
			r := va
			r.L = append([]*Term{}, va.L...)
			for i := range r.L {
				r.L[i] = Ite(cond, va.L[i], vb.L[i])
			}
			return r, true
		}
		return x.iteVal(st, cond, va, vb)
	}
	res := retState{st: st}
	for k, va := range sa.env {
		if vb, ok := sb.env[k]; ok {
			if r, ok := mergeVal(va, vb); ok {
				st.env[k] = r
			}
		}
	}
	for i := range a.val {
		r, ok := mergeVal(a.val[i], b.val[i])
		if !ok {
			panic(unsupported("merge of pointers into different objects"))
		}
		res.val = append(res.val, r)
	}
	for c, va := range sa.cells {
		if vb, ok := sb.cells[c]; ok {
			m := make([]*Term, len(va))
			for i := range va {
				m[i] = Ite(cond, va[i], vb[i])
			}
			st.cells[c] = m
		} else {
			st.cells[c] = va
		}
	}
	for c, vb := range sb.cells {
		if _, ok := sa.cells[c]; !ok {
			st.cells[c] = vb
		}
	}
	for c := range sa.prom {
		st.prom[c] = true
	}
	for c := range sb.prom {
		st.prom[c] = true
	}
	for k, ha := range sa.heap {
		hb, ok := sb.heap[k]
		if !ok {
			hb = initRegion(k, ha.sort)
		}
		st.heap[k] = mergeArr(cond, ha, hb)
	}
	for k, hb := range sb.heap {
		if _, ok := sa.heap[k]; !ok {
			st.heap[k] = mergeArr(cond, initRegion(k, hb.sort), hb)
		}
	}
	if len(sa.defers) != len(sb.defers) {
		// a deferred call on one branch only
		if len(sa.defers) > len(sb.defers) {
			st.defers = sa.defers
		} else {
			st.defers = sb.defers
		}
		for _, d := range st.defers[minInt(len(sa.defers), len(sb.defers)):] {
			if !x.harmlessDefer(d) {
				panic(unsupported("conditional defer"))
			}
		}
	} else {
		st.defers = sa.defers
	}
	return res
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (x *Exec) promoteQuiet(st *State, c *Cell) {
	r := x.rec
	x.promote(st, c)
	x.rec = r
}

// mergeArr merges two versions of a region, keeping the common base outside of the ite when one extends the other.
func mergeArr(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	// collect store chains
	type ent struct{ k, v *Term }
	chain := func(t *Term, n int) (l []*Term) {
		for i := 0; i < n && t.op == OStore; i++ {
			l = append(l, t)
			t = t.args[0]
		}
		return append(l, t)
	}
	ca, cb := chain(a, 40), chain(b, 40)
	pos := map[*Term]int{}
	for i, t := range ca {
		pos[t] = i
	}
	for j, t := range cb {
		i, ok := pos[t]
		if !ok {
			continue
		}
		// common base t; keys written above it
		var keys []*Term
		seen := map[*Term]bool{}
		for _, s := range append(append([]*Term{}, ca[:i]...), cb[:j]...) {
			if !seen[s.args[1]] {
				seen[s.args[1]] = true
				keys = append(keys, s.args[1])
			}
		}
		// keys must be pairwise provably distinct
		for p := range keys {
			for q := p + 1; q < len(keys); q++ {
				if !idxDistinct(keys[p], keys[q]) {
					return Ite(c, a, b)
				}
			}
		}
		r := t
		for _, k := range keys {
			va, vb := Select(a, k), Select(b, k)
			var nv *Term
			if va.sort.kind == "Arr" {
				nv = mergeArr(c, va, vb)
			} else {
				nv = Ite(c, va, vb)
			}
			r = Store(r, k, nv)
		}
		return r
	}
	return Ite(c, a, b)
}

// ---------------------------------------------------------------- values of operands

func (x *Exec) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return x.funcVal(v, nil, v.Type())
	case *ssa.Global:
		c := x.globalCell(st, v)
		return Val{T: v.Type(), L: []*Term{c.ref}, A: wholeAddr(c)}
	case *ssa.FreeVar:
		for i, f := range x.fr.fn.FreeVars {
			if f == v {
				return x.fr.bind[i]
			}
		}
	case *ssa.Builtin:
		panic(unsupported("builtin as value"))
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	panic(unsupported(fmt.Sprintf("no value for %s (%s) in %s", v.Name(), v, x.fr.fn)))
}

func (x *Exec) funcVal(fn *ssa.Function, bind []Val, t types.Type) Val {
	if len(bind) == 0 {
		for i, c := range x.closures {
			if c.fn == fn && len(c.bind) == 0 {
				return scalar(t, I(int64(i+1)))
			}
		}
	}
	x.closures = append(x.closures, closureRec{fn, bind})
	return scalar(t, I(int64(len(x.closures))))
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return scalar(t, BoolC(constant.BoolVal(c.Value)))
		case u.Info()&types.IsString != 0:
			return scalar(t, StrC(constant.StringVal(c.Value)))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			n, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				panic(unsupported("integer constant " + v.ExactString()))
			}
			return scalar(t, IntC(n))
		case u.Info()&types.IsFloat != 0:
			return scalar(t, App("float:"+c.Value.ExactString(), SInt))
		}
	}
	panic(unsupported("constant " + c.String()))
}

// ---------------------------------------------------------------- running functions

func debugf(f string, a ...any) {
	if os.Getenv("GVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

const maxDepth = 60

// call executes the body of fn; nil state when no path returns.
func (x *Exec) runFunc(fn *ssa.Function, args []Val, bind []Val, st *State, harness *Contract, use bool, pos token.Pos) (*State, []Val) {
	if fn.Blocks == nil {
		panic(unsupported("no body: " + fn.String()))
	}
	depth, rec := 0, 0
	for f := x.fr; f != nil; f = f.parent {
		depth++
		if f.fn == fn {
			rec++
		}
	}
	if depth > maxDepth || rec > 3 {
		panic(unsupported("recursion too deep: " + fn.String()))
	}
	if harness == nil && x.quiet == 0 {
		x.w.touched[fnName(fn)] = true
	}
	saved := st.env
	fr := &Frame{fn: fn, parent: x.fr, bind: bind, harness: harness, use: use, pos: pos, callerEnv: saved}
	savedDef := st.defers
	st = st.clone()
	st.env = map[ssa.Value]Val{}
	st.defers = nil
	for i, p := range fn.Params {
		if i >= len(args) {
			panic(unsupported("arity " + fn.String()))
		}
		a := args[i]
		a.T = p.Type()
		st.env[p] = a
	}
	x.fr = fr
	defer func() { x.fr = fr.parent }()
	li := x.w.loopsOf(fn)
	if c := x.contract; c != nil && c.modular && x.frameBase == nil && x.targetCall(fr, c) {
		x.frameBase, x.frameBad = x.alloc, map[string]bool{}
		defer func() {
			bad := keys(x.frameBad)
			x.frameBase = nil
			if len(bad) > 0 && x.quiet == 0 {
				x.obl = append(x.obl, &Oblig{contract: c, label: "frame: the function writes memory it did not allocate (" + strings.Join(bad, ", ") + ")", kind: "frame", pc: nil, goal: False, split: x.split, params: x.params})
			}
		}()
	}
	x.runRegion(fr, li, nil, fn.Blocks[0], []edgeState{{st: st, pred: -1}})
	rets := fr.rets
	if c := x.contract; c != nil && c.paths && !x.pathDone && x.quiet == 0 && x.targetCall(fr, c) {
		// one run of the rest of the contract per return path of the target
		x.pathDone = true
		var live []retState
		for _, s := range rets {
			if s.st != nil && !s.st.dead() {
				live = append(live, s)
			}
		}
		x.nPaths = len(live)
		x.pathObl = len(x.obl)
		if x.pathPick < len(live) {
			rets = live[x.pathPick : x.pathPick+1]
		}
	}
	r := x.mergeAll(rets)
	if r == nil {
		return nil, nil
	}
	r.st.env = saved
	r.st.defers = savedDef
	return r.st, r.val
}

type edgeState struct {
	st   *State
	pred int // index into block.Preds
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
}

// runRegion executes the blocks of a region (function body or loop body) from start. It returns the edges leaving the
// region and the back edges to the loop header.
func (x *Exec) runRegion(fr *Frame, li *loopInfo, loop *Loop, start *ssa.BasicBlock, in []edgeState) (exits, backs []edgeState) {
	pending := map[*ssa.BasicBlock][]edgeState{start: in}
	done := map[*ssa.BasicBlock]bool{}
	push := func(e edgeState) {
		if loop != nil && e.to == loop.head {
			backs = append(backs, e)
			return
		}
		if loop != nil && !loop.blocks[e.to] {
			exits = append(exits, e)
			return
		}
		pending[e.to] = append(pending[e.to], e)
	}
	for _, b := range li.rpo {
		if loop != nil && !loop.blocks[b] || done[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		if inner := li.headOf[b]; inner != nil && inner != loop {
			for ib := range inner.blocks {
				done[ib] = true
			}
			for _, e := range x.runLoop(fr, li, inner, es) {
				push(e)
			}
			continue
		}
		st := x.enterBlock(b, es)
		if st == nil {
			continue
		}
		for _, e := range x.runBlock(fr, b, st) {
			push(e)
		}
	}
	return
}

// enterBlock evaluates the phis on every incoming edge and merges the states.
func (x *Exec) enterBlock(b *ssa.BasicBlock, es []edgeState) *State {
	var l []retState
	for _, e := range es {
		if e.st == nil || e.st.dead() {
			continue
		}
		x.evalPhis(b, e)
		l = append(l, retState{st: e.st})
	}
	m := x.mergeAll(l)
	if m == nil {
		return nil
	}
	return m.st
}

func (x *Exec) evalPhis(b *ssa.BasicBlock, e edgeState) {
	if e.pred < 0 {
		return
	}
	var vs []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			if _, dbg := in.(*ssa.DebugRef); dbg {
				continue
			}
			break
		}
		v := x.val(e.st, p.Edges[e.pred])
		v.T = p.Type()
		vs, ps = append(vs, v), append(ps, p)
	}
	for i, p := range ps {
		e.st.env[p] = vs[i]
	}
}

func predIndex(from *ssa.BasicBlock, succ int) int {
	to := from.Succs[succ]
	occ := 0
	for i := 0; i < succ; i++ {
		if from.Succs[i] == to {
			occ++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if occ == 0 {
				return i
			}
			occ--
		}
	}
	return -1
}

func (x *Exec) edge(from *ssa.BasicBlock, succ int, st *State) edgeState {
	return edgeState{st: st, pred: predIndex(from, succ), from: from, to: from.Succs[succ]}
}

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State) []edgeState {
	for _, in := range b.Instrs {
		x.steps++
		if x.steps > 3000000 {
			panic(unsupported("step limit"))
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return []edgeState{x.edge(b, 0, st)}
		case *ssa.If:
			c := st.decide(x.val(st, in.Cond).one())
			switch c {
			case True:
				return []edgeState{x.edge(b, 0, st)}
			case False:
				return []edgeState{x.edge(b, 1, st)}
			}
			s2 := st.clone()
			st.know = nil
			st.assume(c)
			s2.assume(Not(c))
			return []edgeState{x.edge(b, 0, st), x.edge(b, 1, s2)}
		case *ssa.Return:
			var vs []Val
			for _, r := range in.Results {
				vs = append(vs, x.val(st, r))
			}
			fr.rets = append(fr.rets, retState{st: st, val: vs})
			return nil
		case *ssa.Panic:
			if x.nopanic {
				x.oblige(st, False, "no panic: explicit panic", "nopanic", in.Pos())
			}
			return nil
		case *ssa.RunDefers:
			ds := st.defers
			st.defers = nil
			for i := len(ds) - 1; i >= 0; i-- {
				ns, _ := x.callCommon(st, ds[i].call, ds[i].args, ds[i].fn, ds[i].pos, nil)
				if ns == nil {
					return nil
				}
				st = ns
			}
		default:
			ns := x.instr(fr, st, in)
			if ns == nil {
				return nil
			}
			st = ns
			if st.dead() {
				return nil
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- instructions

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) *State {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		c := x.newCell(in.Comment, t)
		st.cells[c] = zeroVal(t).L
		st.env[in] = Val{T: in.Type(), L: []*Term{c.ref}, A: wholeAddr(c)}
	case *ssa.BinOp:
		st.env[in] = x.binop(st, in.Op, x.val(st, in.X), x.val(st, in.Y), in.Type(), in.Pos())
	case *ssa.UnOp:
		st.env[in] = x.unop(st, in)
	case *ssa.Call:
		ns, v := x.doCall(st, in)
		if ns == nil {
			return nil
		}
		st = ns
		v.T = in.Type()
		st.env[in] = v
	case *ssa.ChangeInterface:
		v := x.val(st, in.X)
		v.T = in.Type()
		st.env[in] = v
	case *ssa.ChangeType:
		v := x.val(st, in.X)
		if p, ok := in.Type().Underlying().(*types.Pointer); ok {
			if q := v.T.Underlying().(*types.Pointer); tstr(p.Elem()) != tstr(q.Elem()) {
				// the pointer is only used through its new type: a snapshot of the object
				al, ok := in.X.(*ssa.Alloc)
				_, par := in.X.(*ssa.Parameter)
				if par {
					x.w.notes["a pointer converted to another pointer type in "+shortName(fr.fn)+" is only read through its new type"] = true
				}
				if ok && onlyInitialised(al, in) || par {
					a := x.deref(st, v, in.Pos())
					cur := x.load(st, a)
					ref := x.initObj(st, p.Elem(), cur.L)
					st.env[in] = Val{T: in.Type(), L: []*Term{ref}}
					break
				}
			}
		}
		if v.A == nil {
			if p, ok := in.Type().Underlying().(*types.Pointer); ok {
				q := v.T.Underlying().(*types.Pointer)
				if tstr(p.Elem()) != tstr(q.Elem()) {
					panic(unsupported("pointer type change"))
				}
			}
		} else {
			panic(unsupported("pointer type change"))
		}
		v.T = in.Type()
		st.env[in] = v
	case *ssa.Convert:
		st.env[in] = x.convert(st, x.val(st, in.X), in.Type(), in.Pos())
	case *ssa.MultiConvert:
		st.env[in] = x.convert(st, x.val(st, in.X), in.Type(), in.Pos())
	case *ssa.Defer:
		var args []Val
		for _, a := range in.Call.Args {
			args = append(args, x.val(st, a))
		}
		var fv Val
		if in.Call.StaticCallee() == nil {
			if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				fv = x.val(st, in.Call.Value)
			}
		} else if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
			fv = x.val(st, mc)
		}
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], deferred{call: &in.Call, args: args, fn: fv, pos: in.Pos()})
	case *ssa.Extract:
		v := x.val(st, in.Tuple)
		tt := in.Tuple.Type().(*types.Tuple)
		lo, hi := tupleRange(tt, in.Index)
		st.env[in] = Val{T: in.Type(), L: v.L[lo:hi], A: tupleAddr(v, in.Index)}
	case *ssa.Field:
		v := x.val(st, in.X)
		lo, hi := fieldRange(in.X.Type().Underlying().(*types.Struct), in.Field)
		st.env[in] = x.typedVal(Val{T: in.Type(), L: append([]*Term{}, v.L[lo:hi]...)})
	case *ssa.FieldAddr:
		p := x.val(st, in.X)
		a := x.deref(st, p, in.Pos())
		s := a.typ.Underlying().(*types.Struct)
		lo, hi := fieldRange(s, in.Field)
		n := *a
		n.lo, n.hi = a.lo+lo, a.lo+hi
		n.typ = s.Field(in.Field).Type()
		st.env[in] = Val{T: in.Type(), L: []*Term{x.interiorRef(&n)}, A: &n}
	case *ssa.Index:
		v := x.val(st, in.X)
		i := x.val(st, in.Index).one()
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.bounds(st, i, I(u.Len()), in.Pos())
			r := Val{T: in.Type()}
			for _, l := range v.L {
				r.L = append(r.L, Select(l, i))
			}
			st.env[in] = x.typedVal(r)
		case *types.Basic: // string
			x.bounds(st, i, x.strLen(v.one()), in.Pos())
			st.env[in] = scalar(in.Type(), x.strAt(v.one(), i))
		default:
			panic(unsupported("index of " + in.X.Type().String()))
		}
	case *ssa.IndexAddr:
		v := x.val(st, in.X)
		i := x.val(st, in.Index).one()
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			x.bounds(st, i, v.L[2], in.Pos())
			a := x.elemAddr(v, i)
			st.env[in] = Val{T: in.Type(), L: []*Term{x.interiorRef(a)}, A: a}
		case *types.Pointer:
			a := x.deref(st, v, in.Pos())
			arr := u.Elem().Underlying().(*types.Array)
			x.bounds(st, i, I(arr.Len()), in.Pos())
			n := *a
			n.idx = append(append([]*Term{}, a.idx...), i)
			n.typ = arr.Elem()
			st.env[in] = Val{T: in.Type(), L: []*Term{x.interiorRef(&n)}, A: &n}
		default:
			panic(unsupported("indexaddr"))
		}
	case *ssa.Lookup:
		st.env[in] = x.lookup(st, in)
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range in.Bindings {
			b = append(b, x.val(st, v))
		}
		st.env[in] = x.funcVal(in.Fn.(*ssa.Function), b, in.Type())
	case *ssa.MakeInterface:
		st.env[in] = x.makeIface(st, x.val(st, in.X), in.X.Type(), in.Type())
	case *ssa.MakeMap:
		st.env[in] = x.makeMap(st, in.Type())
	case *ssa.MakeSlice:
		ln, cp := x.val(st, in.Len).one(), x.val(st, in.Cap).one()
		x.must(st, And(Le(I(0), ln), Le(ln, cp)), "makeslice", in.Pos())
		el := in.Type().Underlying().(*types.Slice).Elem()
		st.env[in] = x.newSlice(st, in.Type(), zeroVal(arrOf(el)).L, I(0), ln, cp)
	case *ssa.MapUpdate:
		x.mapUpdate(st, x.val(st, in.Map), x.val(st, in.Key), x.val(st, in.Value), in.Pos())
	case *ssa.Slice:
		st.env[in] = x.slice(st, in)
	case *ssa.SliceToArrayPointer:
		st.env[in] = x.sliceToArr(st, in)
	case *ssa.Store:
		p := x.val(st, in.Addr)
		a := x.deref(st, p, in.Pos())
		if x.nopanic && a.cell == nil && len(a.idx) == 0 {
			x.must(st, Not(Eq(a.ref, I(0))), "nil dereference", in.Pos())
		}
		v := x.val(st, in.Val)
		if v.A != nil && a.cell != nil && a.whole() && isPtrCell(a.cell.typ) && !st.prom[a.cell] {
			// a pointer variable: keep the static target
			v = x.plain(st, v)
		}
		x.store(st, a, v)
	case *ssa.TypeAssert:
		return x.typeAssert(st, in)
	case *ssa.Range:
		st.env[in] = x.rangeStart(st, in)
	case *ssa.Next:
		st.env[in] = x.rangeNext(st, in)
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		panic(unsupported(fmt.Sprintf("concurrency: %s", in)))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	return st
}

func isPtrCell(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// results of multi-value calls that are static pointers
var tupleAddrs = map[*Term]*Addr{}

func tupleAddr(v Val, i int) *Addr { return nil }

// interiorRef gives a (meaningless but stable) scalar for an interior pointer; only nil comparisons look at it.
func (x *Exec) interiorRef(a *Addr) *Term {
	if a.cell != nil {
		return a.cell.ref
	}
	if a.ref.op == OInt && a.ref.ival.Sign() != 0 {
		return a.ref
	}
	return App("interior", SInt, a.ref).withRange(bigOne, nil)
}

func (x *Exec) bounds(st *State, i, n *Term, pos token.Pos) {
	x.must(st, And(Le(I(0), i), Lt(i, n)), "index out of range", pos)
}

// wrap reduces a mathematical integer to the value range of type t.
func (x *Exec) wrap(st *State, v *Term, t types.Type) *Term {
	w, signed, ok := intInfo(t)
	if !ok {
		return v
	}
	lo, hi := intRange(t)
	vl, vh := v.lo, v.hi
	if st != nil {
		vl, vh = st.k().boundsLin(v)
		if v.lo != nil && (vl == nil || v.lo.Cmp(vl) > 0) {
			vl = v.lo
		}
		if v.hi != nil && (vh == nil || v.hi.Cmp(vh) < 0) {
			vh = v.hi
		}
	}
	if vl != nil && vh != nil && vl.Cmp(lo) >= 0 && vh.Cmp(hi) <= 0 {
		return v
	}
	m := pow2(w)
	if vl != nil && vh != nil {
		// one wrap at most on either side: linear case split
		over := vh.Cmp(hi) > 0
		under := vl.Cmp(lo) < 0
		if (!over || new(big.Int).Sub(vh, m).Cmp(hi) <= 0) && (!under || new(big.Int).Add(vl, m).Cmp(lo) >= 0) {
			r := v
			if over {
				r = Ite(Le(v, IntC(hi)), v, Sub(v, IntC(m)))
			}
			if under {
				r = Ite(Le(IntC(lo), v), r, Add(v, IntC(m)))
			}
			return r
		}
	}
	if v.op == OIte && (v.args[1].isC() || v.args[2].isC()) {
		return Ite(v.args[0], x.wrap(st, v.args[1], t), x.wrap(st, v.args[2], t))
	}
	if !signed {
		return Mod(v, IntC(m))
	}
	h := pow2(w - 1)
	return Sub(Mod(Add(v, IntC(h)), IntC(m)), IntC(h))
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, t types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL:
		return scalar(t, x.equal(st, a, b))
	case token.NEQ:
		return scalar(t, Not(x.equal(st, a, b)))
	}
	if isFloat(a.T) {
		return scalar(t, App("float"+op.String(), sortOf(t), a.one(), b.one()))
	}
	if isString(a.T) {
		switch op {
		case token.ADD:
			return scalar(t, x.strConcat(a.one(), b.one()))
		case token.LSS:
			return scalar(t, x.strLess(a.one(), b.one()))
		case token.GTR:
			return scalar(t, x.strLess(b.one(), a.one()))
		case token.LEQ:
			return scalar(t, Not(x.strLess(b.one(), a.one())))
		case token.GEQ:
			return scalar(t, Not(x.strLess(a.one(), b.one())))
		}
	}
	p, q := a.one(), b.one()
	if p.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return scalar(t, And(p, q))
		case token.OR, token.LOR:
			return scalar(t, Or(p, q))
		case token.XOR:
			return scalar(t, Not(Eq(p, q)))
		}
	}
	switch op {
	case token.LSS:
		return scalar(t, Lt(p, q))
	case token.LEQ:
		return scalar(t, Le(p, q))
	case token.GTR:
		return scalar(t, Lt(q, p))
	case token.GEQ:
		return scalar(t, Le(q, p))
	case token.ADD:
		return scalar(t, x.wrap(st, Add(p, q), t))
	case token.SUB:
		return scalar(t, x.wrap(st, Sub(p, q), t))
	case token.MUL:
		return scalar(t, x.wrap(st, Mul(p, q), t))
	case token.QUO, token.REM:
		x.must(st, Not(Eq(q, I(0))), "division by zero", pos)
		d, m := x.goDiv(p, q)
		if op == token.QUO {
			return scalar(t, x.wrap(st, d, t))
		}
		return scalar(t, m)
	case token.SHL, token.SHR:
		return scalar(t, x.shift(st, op, p, q, t, b.T, pos))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return scalar(t, x.bitop(st, op, p, q, t))
	}
	panic(unsupported("binop " + op.String()))
}

// goDiv is truncated division on mathematical integers (q != 0).
func (x *Exec) goDiv(p, q *Term) (*Term, *Term) {
	if p.lo != nil && p.lo.Sign() >= 0 && q.lo != nil && q.lo.Sign() >= 0 {
		return Div(p, q), Mod(p, q)
	}
	if q.op == OInt && q.ival.Sign() > 0 {
		d := Ite(Le(I(0), p), Div(p, q), Neg(Div(Neg(p), q)))
		return d, Sub(p, Mul(d, q))
	}
	ap := Ite(Le(I(0), p), p, Neg(p))
	aq := Ite(Le(I(0), q), q, Neg(q))
	u := Div(ap, aq)
	d := Ite(Eq(BoolC(true), Eq(Le(I(0), p), Le(I(0), q))), u, Neg(u))
	return d, Sub(p, Mul(d, q))
}

func sortOf(t types.Type) *Sort {
	l := leaves(t)
	if len(l) != 1 {
		panic(unsupported("sort of " + t.String()))
	}
	return l[0].sort
}

func pow2Term(n *Term) *Term {
	if n.op == OInt && n.ival.IsInt64() && n.ival.Sign() >= 0 && n.ival.Int64() < 4096 {
		return IntC(pow2(uint(n.ival.Int64())))
	}
	if n.op == OIte {
		return Ite(n.args[0], pow2Term(n.args[1]), pow2Term(n.args[2]))
	}
	if n.lo != nil && n.lo.Sign() >= 0 && n.hi != nil && n.hi.Cmp(bi(16)) <= 0 {
		r := IntC(pow2(uint(n.hi.Int64())))
		for i := n.hi.Int64() - 1; i >= n.lo.Int64(); i-- {
			r = Ite(Eq(n, I(i)), IntC(pow2(uint(i))), r)
		}
		return r
	}
	t := App("pow2", SInt, n).withRange(bigOne, nil)
	if n.lo != nil && n.lo.Sign() >= 0 && n.hi != nil && n.hi.Cmp(bi(256)) <= 0 {
		t.withRange(pow2(uint(n.lo.Int64())), pow2(uint(n.hi.Int64())))
		for i := n.lo.Int64(); i <= n.hi.Int64(); i++ {
			t.addFact(Or(Not(Eq(n, I(i))), Eq(t, IntC(pow2(uint(i))))))
		}
	}
	return t
}

func (x *Exec) shift(st *State, op token.Token, p, q *Term, t, qt types.Type, pos token.Pos) *Term {
	w, _, _ := intInfo(t)
	_, qs, _ := intInfo(qt)
	if qs {
		x.must(st, Le(I(0), q), "negative shift", pos)
	}
	if e, ok := st.k().eqs[q]; ok {
		q = e
	}
	if q.op == OIte && q.args[1].isC() && q.args[2].isC() {
		return Ite(q.args[0], x.shift(st, op, p, q.args[1], t, qt, pos), x.shift(st, op, p, q.args[2], t, qt, pos))
	}
	if q.op == OInt {
		n := q.ival
		if n.Cmp(bi(int64(w))) >= 0 {
			if op == token.SHL {
				return I(0)
			}
			return Ite(Le(I(0), p), I(0), I(-1))
		}
		f := IntC(pow2(uint(n.Int64())))
		if op == token.SHL {
			return x.wrap(st, Mul(p, f), t)
		}
		return Div(p, f)
	}
	lo, hi := st.k().bounds(q)
	big := Le(IntC(bi(int64(w))), q)
	if hi != nil && hi.Cmp(bi(int64(w))) < 0 {
		big = False
	}
	_ = lo
	// bounded amount: clamp so that the table of powers is finite
	qq := q
	if big != False {
		qq = Ite(big, I(0), q)
		if q.hi == nil || q.hi.Cmp(bi(256)) > 0 {
			c := App("clamp64", SInt, q).withRange(bigZero, bi(int64(w)-1))
			c.addFact(Or(big, Eq(c, q)))
			qq = c
		}
	}
	f := pow2Term(qq)
	if op == token.SHL {
		return Ite(big, I(0), x.wrap(st, Mul(p, f), t))
	}
	neg := Ite(Le(I(0), p), I(0), I(-1))
	if f.op == OIte {
		return Ite(big, neg, mapIte(f, func(c *Term) *Term { return Div(p, c) }))
	}
	return Ite(big, neg, Div(p, f))
}

func mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return Ite(t.args[0], mapIte(t.args[1], f), mapIte(t.args[2], f))
	}
	return f(t)
}

// tz is a lower bound on the number of trailing zero bits.
func tz(t *Term) uint {
	switch t.op {
	case OInt:
		if t.ival.Sign() == 0 {
			return 256
		}
		return t.ival.TrailingZeroBits()
	case OLin:
		m := uint(256)
		if t.ival.Sign() != 0 {
			m = t.ival.TrailingZeroBits()
		}
		for i, a := range t.args {
			k := t.coefs[i].TrailingZeroBits() + tz(a)
			if k < m {
				m = k
			}
		}
		return m
	case OIte:
		a, b := tz(t.args[1]), tz(t.args[2])
		if a < b {
			return a
		}
		return b
	case OMul:
		k := uint(0)
		for _, a := range t.args {
			k += tz(a)
		}
		return k
	case OMod:
		if t.args[1].op == OInt {
			a, b := tz(t.args[0]), tz(t.args[1])
			if a < b {
				return a
			}
			return b
		}
	}
	return 0
}

func bitRuns(c *big.Int) [][2]uint {
	var r [][2]uint
	n := uint(c.BitLen())
	for i := uint(0); i < n; {
		if c.Bit(int(i)) == 0 {
			i++
			continue
		}
		j := i
		for j < n && c.Bit(int(j)) == 1 {
			j++
		}
		r = append(r, [2]uint{i, j})
		i = j
	}
	return r
}

func bitsOf(t *Term, lo, hi uint) *Term { // bits lo..hi-1 of a non-negative value, shifted down
	return Mod(Div(t, IntC(pow2(lo))), IntC(pow2(hi-lo)))
}

func andConst(p *Term, c *big.Int) *Term {
	r := I(0)
	for _, b := range bitRuns(c) {
		r = Add(r, Scale(bitsOf(p, b[0], b[1]), pow2(b[0])))
	}
	return r
}

func (x *Exec) bitop(st *State, op token.Token, p, q *Term, t types.Type) *Term {
	w, signed, _ := intInfo(t)
	if signed {
		if !(p.lo != nil && p.lo.Sign() >= 0 && q.lo != nil && q.lo.Sign() >= 0) {
			if q.op == OInt && q.ival.Sign() < 0 || p.op == OInt && p.ival.Sign() < 0 || true {
				// through the unsigned representation
				m := IntC(pow2(w))
				up, uq := Mod(p, m), Mod(q, m)
				r := x.bitop0(st, op, up, uq, w)
				return Ite(Lt(r, IntC(pow2(w-1))), r, Sub(r, m))
			}
		}
	}
	return x.bitop0(st, op, p, q, w)
}

func (x *Exec) bitop0(st *State, op token.Token, p, q *Term, w uint) *Term {
	if e, ok := st.k().eqs[p]; ok && e.op == OInt {
		p = e
	}
	if e, ok := st.k().eqs[q]; ok && e.op == OInt {
		q = e
	}
	if p.op == OInt && q.op == OInt {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(p.ival, q.ival)
		case token.OR:
			r.Or(p.ival, q.ival)
		case token.XOR:
			r.Xor(p.ival, q.ival)
		case token.AND_NOT:
			r.AndNot(p.ival, q.ival)
		}
		return IntC(r)
	}
	if q.op == OIte && iteLeafConst(q, 16) {
		return mapIte(q, func(c *Term) *Term { return x.bitop0(st, op, p, c, w) })
	}
	if p.op == OIte && iteLeafConst(p, 16) {
		return mapIte(p, func(c *Term) *Term { return x.bitop0(st, op, c, q, w) })
	}
	if p.op == OInt && op != token.AND_NOT {
		p, q = q, p
	}
	if q.op == OInt {
		a := andConst(p, q.ival)
		switch op {
		case token.AND:
			return a
		case token.OR:
			return Sub(Add(p, q), a)
		case token.XOR:
			return Sub(Add(p, q), Scale(a, bi(2)))
		case token.AND_NOT:
			return Sub(p, a)
		}
	}
	// symbolic mask 2^n - 1
	if op == token.AND {
		for i, m := range []*Term{p, q} {
			o := []*Term{q, p}[i]
			if as, cs, c := linParts(m); len(as) == 1 && as[0].op == OApp && as[0].name == "pow2" && cs[0].Cmp(bigOne) == 0 && c.Cmp(bigM1) == 0 {
				return Mod(o, as[0])
			}
		}
	}
	// disjoint bits
	disjoint := func(a, b *Term) bool {
		al, ah := st.k().boundsLin(a)
		bl, _ := st.k().boundsLin(b)
		return ah != nil && al != nil && al.Sign() >= 0 && uint(ah.BitLen()) <= tz(b) && bl != nil && bl.Sign() >= 0
	}
	if disjoint(p, q) || disjoint(q, p) {
		switch op {
		case token.AND:
			return I(0)
		case token.OR, token.XOR:
			return Add(p, q)
		case token.AND_NOT:
			return p
		}
	}
	if p == q {
		switch op {
		case token.AND, token.OR:
			return p
		default:
			return I(0)
		}
	}
	// an ite with one simple branch
	if q.op == OIte {
		return Ite(q.args[0], x.bitop0(st, op, p, q.args[1], w), x.bitop0(st, op, p, q.args[2], w))
	}
	if p.op == OIte {
		return Ite(p.args[0], x.bitop0(st, op, p.args[1], q, w), x.bitop0(st, op, p.args[2], q, w))
	}
	n := w
	if p.hi != nil && q.hi != nil {
		b := p.hi.BitLen()
		if q.hi.BitLen() > b {
			b = q.hi.BitLen()
		}
		n = uint(b)
	}
	if n <= 32 {
		r := I(0)
		for i := uint(0); i < n; i++ {
			a, b := bitsOf(p, i, i+1), bitsOf(q, i, i+1)
			var c *Term
			switch op {
			case token.AND:
				c = Ite(And(Eq(a, I(1)), Eq(b, I(1))), I(1), I(0))
			case token.OR:
				c = Ite(Or(Eq(a, I(1)), Eq(b, I(1))), I(1), I(0))
			case token.XOR:
				c = Ite(Eq(a, b), I(0), I(1))
			case token.AND_NOT:
				c = Ite(And(Eq(a, I(1)), Eq(b, I(0))), I(1), I(0))
			}
			r = Add(r, Scale(c, pow2(i)))
		}
		return r
	}
	return App(fmt.Sprintf("bit%s%d", op, w), SInt, p, q).withRange(bigZero, new(big.Int).Sub(pow2(w), bigOne))
}

// equal is Go's == on values.
func (x *Exec) equal(st *State, a, b Val) *Term {
	if a.A != nil || b.A != nil {
		if sameAddr(a.A, b.A) {
			return True
		}
		if a.A != nil && b.A == nil && b.one().isInt(0) || b.A != nil && a.A == nil && a.one().isInt(0) {
			return False
		}
		if (a.A == nil || a.A.whole()) && (b.A == nil || b.A.whole()) {
			a, b = x.plain(st, a), x.plain(st, b)
		} else {
			panic(unsupported("comparison of interior pointers"))
		}
	}
	switch a.T.Underlying().(type) {
	case *types.Slice: // only against nil
		if b.L[0].isInt(0) {
			return Eq(a.L[0], I(0))
		}
		return Eq(b.L[0], I(0))
	case *types.Interface:
		if _, ok := b.T.Underlying().(*types.Interface); !ok && len(b.L) == 1 && b.L[0].isInt(0) {
			return Eq(a.L[0], I(0))
		}
		if b.L[0].isInt(0) {
			return Eq(a.L[0], I(0))
		}
		if a.L[0].isInt(0) {
			return Eq(b.L[0], I(0))
		}
		te := st.decide(Eq(a.L[0], b.L[0]))
		if te == False {
			return False
		}
		return And(te, Or(Eq(a.L[0], I(0)), Eq(a.L[1], b.L[1])))
	}
	if len(a.L) != len(b.L) {
		panic(unsupported(fmt.Sprintf("comparison %s == %s", a.T, b.T)))
	}
	if at, ok := a.T.Underlying().(*types.Array); ok && len(a.L) == 1 && at.Len() <= 64 {
		return st.decide(arrEq(a.L[0], b.L[0], at.Len()))
	}
	var cs []*Term
	for i := range a.L {
		cs = append(cs, x.eqLeaf(a.L[i], b.L[i]))
	}
	return st.decide(And(cs...))
}

// arrEq: arrays are canonical (zero outside of their bounds), so equal elements make equal arrays.
func arrEq(a, b *Term, n int64) *Term {
	e := Eq(a, b)
	if e.op == OEq {
		var l []*Term
		for i := int64(0); i < n; i++ {
			l = append(l, Eq(Select(a, I(i)), Select(b, I(i))))
		}
		e.addFact(Or(e, Not(And(l...))))
	}
	return e
}

func (x *Exec) eqLeaf(a, b *Term) *Term {
	if a.sort == SStr {
		return x.strEq(a, b)
	}
	return Eq(a, b)
}

func (x *Exec) unop(st *State, in *ssa.UnOp) Val {
	v := x.val(st, in.X)
	switch in.Op {
	case token.MUL:
		a := x.deref(st, v, in.Pos())
		r := x.load(st, a)
		r.T = in.Type()
		return r
	case token.NOT:
		return scalar(in.Type(), Not(v.one()))
	case token.SUB:
		if isFloat(v.T) {
			return scalar(in.Type(), App("floatneg", SInt, v.one()))
		}
		return scalar(in.Type(), x.wrap(st, Neg(v.one()), in.Type()))
	case token.XOR:
		w, signed, _ := intInfo(in.Type())
		if signed {
			return scalar(in.Type(), Sub(I(-1), v.one()))
		}
		return scalar(in.Type(), Sub(IntC(new(big.Int).Sub(pow2(w), bigOne)), v.one()))
	}
	panic(unsupported("unop " + in.Op.String()))
}

func (x *Exec) convert(st *State, v Val, t types.Type, pos token.Pos) Val {
	from, to := v.T.Underlying(), t.Underlying()
	if isInt(v.T) && isInt(t) {
		return scalar(t, x.wrap(st, v.one(), t))
	}
	if isFloat(v.T) || isFloat(t) {
		if isFloat(t) && isInt(v.T) && v.one().op == OInt {
			return scalar(t, App("float:"+v.one().ival.String(), SInt))
		}
		r := App("fconv:"+tstr(v.T)+":"+tstr(t), sortOf(t), v.one())
		return x.typedVal(scalar(t, r))
	}
	if isString(t) {
		if s, ok := from.(*types.Slice); ok {
			if w, _, ok := intInfo(s.Elem()); ok && w == 8 {
				return scalar(t, x.bytesToStr(st, v))
			}
			panic(unsupported("[]rune to string"))
		}
		if isInt(v.T) {
			return scalar(t, App("runestr", SStr, v.one()))
		}
		if isString(v.T) {
			return scalar(t, v.one())
		}
	}
	if isString(v.T) {
		if s, ok := to.(*types.Slice); ok {
			if w, _, ok := intInfo(s.Elem()); ok && w == 8 {
				return x.strToBytes(st, v.one(), t)
			}
		}
	}
	if len(leaves(v.T)) == len(leaves(t)) {
		if _, ok := to.(*types.Pointer); !ok {
			v.T = t
			return v
		}
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s", v.T, t)))
}

func (x *Exec) slice(st *State, in *ssa.Slice) Val {
	v := x.val(st, in.X)
	get := func(p ssa.Value, d *Term) *Term {
		if p == nil {
			return d
		}
		return x.val(st, p).one()
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		lo := get(in.Low, I(0))
		hi := get(in.High, v.L[2])
		cp := get(in.Max, v.L[3])
		x.must(st, And(Le(I(0), lo), Le(lo, hi), Le(hi, v.L[3])), "slice bounds", in.Pos())
		if x.rec == nil || true {
			return Val{T: in.Type(), L: []*Term{v.L[0], Add(v.L[1], lo), Sub(hi, lo), Sub(cp, lo)}}
		}
	case *types.Basic:
		s := v.one()
		lo := get(in.Low, I(0))
		hi := get(in.High, x.strLen(s))
		x.must(st, And(Le(I(0), lo), Le(lo, hi), Le(hi, x.strLen(s))), "slice bounds", in.Pos())
		return scalar(in.Type(), x.strSub(s, lo, hi))
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		n := I(arr.Len())
		lo, hi := get(in.Low, I(0)), get(in.High, n)
		x.must(st, And(Le(I(0), lo), Le(lo, hi), Le(hi, n)), "slice bounds", in.Pos())
		a := x.deref(st, v, in.Pos())
		var ref *Term
		if a.whole() && a.cell != nil {
			x.promote(st, a.cell)
			ref = a.cell.ref
		} else if a.whole() {
			ref = a.ref
		} else {
			// interior array: read-only snapshot
			c := x.load(st, a)
			ref = x.initObj(st, a.typ, c.L)
			x.arrLen[ref] = arr.Len()
			x.snap[ref] = a
			x.w.note("slices of arrays inside other objects are snapshots (writes through the slice reach the object)")
		}
		return Val{T: in.Type(), L: []*Term{ref, lo, Sub(hi, lo), Sub(n, lo)}}
	}
	panic(unsupported("slice of " + in.X.Type().String()))
}

func (x *Exec) sliceToArr(st *State, in *ssa.SliceToArrayPointer) Val {
	v := x.val(st, in.X)
	arr := in.Type().Underlying().(*types.Pointer).Elem()
	at := arr.Underlying().(*types.Array)
	x.must(st, Le(I(at.Len()), v.L[2]), "slice to array", in.Pos())
	// the copy is what the code uses (conversion [N]T(s) loads immediately)
	c := x.content(st, v)
	vals := make([]*Term, len(c))
	for i := range c {
		vals[i] = x.window(c[i], v.L[1], at.Len(), v.L[0])
	}
	ref := x.initObj(st, arr, vals)
	x.arrLen[ref] = at.Len()
	x.w.note("array pointers made from slices are snapshots")
	return Val{T: in.Type(), L: []*Term{ref}}
}

// window gives the canonical array content c[off..off+n) (zero elsewhere).
func (x *Exec) window(c, off *Term, n int64, ref *Term) *Term {
	if ref != nil && off.isInt(0) {
		if l, ok := x.arrLen[ref]; ok && l == n {
			return c
		}
	}
	return windowOf(c, off, n)
}

// ---------------------------------------------------------------- interfaces

func (x *Exec) typeID(t types.Type) int64 { return x.w.typeID(t) }

func (x *Exec) makeIface(st *State, v Val, from, to types.Type) Val {
	if _, ok := from.Underlying().(*types.Interface); ok {
		v.T = to
		return v
	}
	return Val{T: to, L: []*Term{I(x.typeID(from)), x.box(st, v, from)}}
}

func (x *Exec) box(st *State, v Val, t types.Type) *Term {
	v = x.plain(st, v)
	if len(v.L) == 0 {
		return I(0)
	}
	if len(v.L) == 1 && leaves(t)[0].role == "ptr" {
		return v.L[0]
	}
	if len(v.L) >= 1 && v.L[0].op == OApp && strings.HasPrefix(v.L[0].name, "unbox:"+tstr(t)+":") {
		src := v.L[0].args[0]
		all := true
		for i, l := range v.L {
			if l != App(fmt.Sprintf("unbox:%s:%d", tstr(t), i), l.sort, src) {
				all = false
			}
		}
		if all {
			return src
		}
	}
	b := App("box:"+tstr(t), SInt, v.L...)
	for i, l := range v.L {
		b.addFact(Eq(App(fmt.Sprintf("unbox:%s:%d", tstr(t), i), l.sort, b), l))
	}
	return b
}

func (x *Exec) unbox(val *Term, t types.Type) Val {
	ls := leaves(t)
	if len(ls) == 0 {
		return Val{T: t}
	}
	if len(ls) == 1 && ls[0].role == "ptr" {
		x.boxedPtr(val)
		return Val{T: t, L: []*Term{val}}
	}
	var r Val
	r.T = t
	for i, l := range ls {
		r.L = append(r.L, x.unboxLeaf(val, t, i, l))
	}
	return x.typedVal(r)
}

// maxRef: references read from the initial heap precede everything allocated by the code.
func (x *Exec) maxRef(t *Term) *big.Int {
	if isInitialRead(t) {
		return pow2(62)
	}
	return x.alloc
}

// boxedPtr: dynamic pointer values inside interfaces are not typed nils (and tags of nil interfaces carry no value).
func (x *Exec) boxedPtr(r *Term) {
	switch r.op {
	case OVar, OSelect, OApp:
		if r.lo == nil {
			r.withRange(bigOne, x.maxRef(r))
			x.w.note("a pointer stored in an interface value is not nil")
		}
	case OIte:
		x.boxedPtr(r.args[1])
		x.boxedPtr(r.args[2])
	}
}

// closedWorld: the dynamic type of an interface value is one of the implementing types of the module.
func (x *Exec) closedWorld(t types.Type, tag *Term) {
	switch tag.op {
	case OVar, OSelect, OApp:
	default:
		return
	}
	if len(tag.facts) > 0 {
		return
	}
	i, ok := t.Underlying().(*types.Interface)
	if !ok || i.NumMethods() == 0 || types.Identical(t, types.Universe.Lookup("error").Type()) {
		return
	}
	if _, ok := types.Unalias(t).(*types.Named); !ok || !strings.HasPrefix(namedPath(t), modPath) {
		return
	}
	cs := x.w.candidates(t)
	if len(cs) == 0 || len(cs) > 24 {
		return
	}
	l := []*Term{Eq(tag, I(0))}
	for _, c := range cs {
		l = append(l, Eq(tag, I(x.typeID(c))))
	}
	tag.addFact(Or(l...))
}

func (x *Exec) unboxLeaf(val *Term, t types.Type, i int, l Leaf) *Term {
	switch val.op {
	case OIte:
		return Ite(val.args[0], x.unboxLeaf(val.args[1], t, i, l), x.unboxLeaf(val.args[2], t, i, l))
	case OApp:
		if val.name == "box:"+tstr(t) {
			return val.args[i]
		}
	}
	u := App(fmt.Sprintf("unbox:%s:%d", tstr(t), i), l.sort, val)
	if l.role == "off" && l.arr == 0 {
		return I(0)
	}
	return x.typedLeaf(l, u)
}

// hasDyn: the dynamic type of the interface value implements / equals t.
func (x *Exec) hasDyn(st *State, v Val, t types.Type) *Term {
	tag := v.L[0]
	if it, ok := t.Underlying().(*types.Interface); ok {
		if types.Implements(v.T, it) {
			return Not(Eq(tag, I(0)))
		}
		var cs []*Term
		for _, c := range x.w.candidates(v.T) {
			if types.Implements(c, it) {
				cs = append(cs, Eq(tag, I(x.typeID(c))))
			}
		}
		return Or(cs...)
	}
	return Eq(tag, I(x.typeID(t)))
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) *State {
	v := x.val(st, in.X)
	ok := st.decide(x.hasDyn(st, v, in.AssertedType))
	var r Val
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		r = Val{T: in.AssertedType, L: v.L}
	} else {
		r = x.unbox(v.L[1], in.AssertedType)
	}
	if !in.CommaOk {
		x.must(st, ok, "type assertion", in.Pos())
		st.env[in] = r
		return st
	}
	z := zeroVal(in.AssertedType)
	out := Val{T: in.Type()}
	for i := range r.L {
		out.L = append(out.L, Ite(ok, r.L[i], z.L[i]))
	}
	out.L = append(out.L, ok)
	st.env[in] = out
	return st
}

// ---------------------------------------------------------------- globals

func (x *Exec) globalCell(st *State, g *ssa.Global) *Cell {
	c, ok := x.globals[g]
	if !ok {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		c = &Cell{id: -1 - len(x.globals), name: g.Name(), typ: t, ref: IntC(new(big.Int).Add(pow2(61), bi(int64(len(x.globals)))))}
		x.globals[g] = c
	}
	if _, ok := st.cells[c]; !ok {
		st.cells[c] = x.globalInit(st, g, c)
		for _, w := range x.gheap[g] {
			st.heap[w.key] = Store(x.region(st, w.key, w.sort), w.ref, w.val)
			st.assume(Eq(Select(initRegion(w.key, w.sort), w.ref), w.val))
		}
		for _, f := range x.gfacts[g] {
			st.assume(f)
		}
	}
	return c
}

// gwrite: an object reachable from a package variable. Its reference is below those of the objects allocated by the
// code under verification, so that it stays the same on all paths.
type gwrite struct {
	key      string
	sort     *Sort
	ref, val *Term
}

// globalInit: value of a package variable after initialisation (package variables of the verified code are never
// reassigned outside init; the ones that are get an arbitrary value).
func (x *Exec) globalInit(st *State, g *ssa.Global, c *Cell) []*Term {
	name := g.String()
	if v, ok := x.gtab[g]; ok {
		return v
	}
	var r []*Term
	st0 := st.clone()
	st0.heap = map[string]*Term{}
	npc := len(st0.pc)
	alloc, rec := x.alloc, x.rec
	x.alloc = new(big.Int).Add(new(big.Int).Add(pow2(61), pow2(50)), new(big.Int).Mul(pow2(32), bi(int64(len(x.gtab)))))
	x.rec = nil
	x.noVer++
	v, ok := x.w.globalInitVal(x, st0, g)
	x.noVer--
	x.alloc, x.rec = alloc, rec
	if ok {
		r = v.L
		for _, k := range sortedKeys(st0.heap) {
			var ws []gwrite
			h := st0.heap[k]
			for ; h.op == OStore; h = h.args[0] {
				ws = append([]gwrite{{key: k, sort: h.sort, ref: h.args[1], val: h.args[2]}}, ws...)
			}
			x.gheap[g] = append(x.gheap[g], ws...)
		}
		if len(st0.pc) > npc {
			x.gfacts[g] = append(x.gfacts[g], st0.pc[npc:]...)
		}
	} else {
		ls := leaves(c.typ)
		for _, l := range ls {
			r = append(r, Var("G:"+name+l.path, l.sort))
		}
		v := x.typedVal(Val{T: c.typ, L: r})
		r = v.L
		// error variables and other interface values set once are not nil
		if x.w.globalIsErr(g) {
			r[0] = I(x.w.errTag())
			r[1] = x.w.errConst(name)
		}
	}
	x.gtab[g] = r
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// targetCall: the frame runs the target of the contract being verified, called from the contract's text.
func (x *Exec) targetCall(fr *Frame, c *Contract) bool {
	if fr.parent == nil || !c.isTarget(fr.fn) {
		return false
	}
	for f := fr.parent; f != nil; f = f.parent {
		if f.harness != nil {
			return f.harness == c && !f.use
		}
		if !x.w.isSpec(f.fn) {
			return false
		}
	}
	return false
}

// onlyInitialised: the object is only stored to directly before it is converted, and used by nothing else.
func onlyInitialised(al *ssa.Alloc, conv *ssa.ChangeType) bool {
	for _, r := range *al.Referrers() {
		if _, dbg := r.(*ssa.DebugRef); dbg || r == ssa.Instruction(conv) {
			continue
		}
		s, ok := r.(*ssa.Store)
		if !ok || s.Addr != ssa.Value(al) || s.Block() != conv.Block() {
			return false
		}
		for _, in := range conv.Block().Instrs {
			if in == ssa.Instruction(s) {
				break
			}
			if in == ssa.Instruction(conv) {
				return false
			}
		}
	}
	return true
}
