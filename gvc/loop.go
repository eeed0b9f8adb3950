package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- loop structure

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	rpo    []*ssa.BasicBlock
	headOf map[*ssa.BasicBlock]*Loop
}

func (w *World) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := w.loops[fn]; ok {
		return li
	}
	li := &loopInfo{headOf: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	num := map[*ssa.BasicBlock]int{}
	for i, b := range li.rpo {
		num[b] = i
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.headOf[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.headOf[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if seen[p] && !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			} else if num[s] <= num[b] {
				// irreducible
				li.headOf[s] = &Loop{head: s, blocks: nil}
			}
		}
	}
	w.loops[fn] = li
	return li
}

// ---------------------------------------------------------------- write recording

type writeRec struct {
	parent *writeRec
	refs   map[string]map[*Term]bool
	sorts  map[string]*Sort
	total  map[string]bool
	cells  map[*Cell]bool
}

func (r *writeRec) heapWrite(key string, ref *Term, s *Sort) {
	for ; r != nil; r = r.parent {
		r.sorts[key] = s
		if ref == nil {
			r.total[key] = true
			continue
		}
		if r.refs[key] == nil {
			r.refs[key] = map[*Term]bool{}
		}
		r.refs[key][ref] = true
	}
}

func (r *writeRec) cellWrite(c *Cell) {
	for ; r != nil; r = r.parent {
		r.cells[c] = true
	}
}

func newRec(p *writeRec) *writeRec {
	return &writeRec{parent: p, refs: map[string]map[*Term]bool{}, sorts: map[string]*Sort{}, total: map[string]bool{}, cells: map[*Cell]bool{}}
}

type loopCtx struct {
	loop    *Loop
	fr      *Frame
	iter    *Term
	visited *Cell // map iterator
	rng     *ssa.Range
	entry   *State

	allocBefore *big.Int
}

const maxUnroll = 260

// leafKind of a havocked scalar
const (
	lkSame   = iota // unchanged by the loop
	lkAffine        // entry + k*iter
	lkRange         // fresh, in an optimistic range
	lkFree          // fresh
)

type leafState struct {
	kind   int
	k      *big.Int
	lo, hi *big.Int
	fresh  *Term
}

func (x *Exec) runLoop(fr *Frame, li *loopInfo, loop *Loop, in []edgeState) []edgeState {
	if loop.blocks == nil {
		panic(unsupported("irreducible control flow"))
	}
	st := x.enterBlock(loop.head, in)
	if st == nil {
		return nil
	}
	var exits []edgeState
	// unrolling while the header condition is a constant
	limit := maxUnroll
	forced := 0
	if x.contract != nil && x.contract.unroll > 0 {
		forced = x.contract.unroll
	}
	for n := 0; ; n++ {
		c := x.peekHeader(fr, loop, st)
		known := c == True || c == False
		if !known && n < forced && c != nil {
			known = true
		}
		if !known {
			break
		}
		if n > limit {
			panic(unsupported("unroll limit"))
		}
		ex, backs := x.runRegion(fr, li, loop, loop.head, []edgeState{{st: st, pred: -1}})
		exits = append(exits, ex...)
		if len(backs) == 0 {
			return exits
		}
		st = x.enterBlock(loop.head, backs)
		if st == nil {
			return exits
		}
	}
	return append(exits, x.cutLoop(fr, li, loop, st)...)
}

// peekHeader evaluates the header's branch condition without effects (nil if the header does not end in an If).
func (x *Exec) peekHeader(fr *Frame, loop *Loop, st *State) *Term {
	b := loop.head
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	if loop.blocks[b.Succs[0]] && loop.blocks[b.Succs[1]] {
		return nil
	}
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.BinOp, *ssa.UnOp, *ssa.Field, *ssa.FieldAddr, *ssa.Extract, *ssa.Convert, *ssa.If, *ssa.IndexAddr, *ssa.Next, *ssa.ChangeType:
		case *ssa.Call:
			if bi, ok := in.(*ssa.Call).Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" && bi.Name() != "cap" && bi.Name() != "min" && bi.Name() != "max" {
				return nil
			}
		default:
			return nil
		}
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			// map iteration: constant only when the map is empty
			return nil
		}
	}
	s := st.clone()
	x.quiet++
	np := x.nopanic
	x.nopanic = false
	rec := x.rec
	x.rec = nil
	defer func() { x.quiet--; x.nopanic = np; x.rec = rec }()
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			return s.decide(x.val(s, ifi.Cond).one())
		default:
			s = x.instr(fr, s, in)
			if s == nil {
				return nil
			}
		}
	}
	return nil
}

func (x *Exec) cutLoop(fr *Frame, li *loopInfo, loop *Loop, entry *State) []edgeState {
	allocBefore := new(big.Int).Set(x.alloc)
	mark := len(terms)
	iter := Fresh("iter", SInt)
	iter.lo, iter.decl = bigZero, true
	ctx := &loopCtx{loop: loop, fr: fr, iter: iter, entry: entry, allocBefore: allocBefore}
	for b := range loop.blocks {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && !n.IsString {
				if rg, ok := n.Iter.(*ssa.Range); ok && !loop.blocks[rg.Block()] && b == loop.head {
					if v, ok := entry.env[rg]; ok {
						ctx.visited = v.A.cell
						ctx.rng = rg
					}
				}
			}
		}
	}
	x.loops = append(x.loops, ctx)
	defer func() { x.loops = x.loops[:len(x.loops)-1] }()

	// phis
	var phis []*ssa.Phi
	for _, in := range loop.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	phiSt := map[*ssa.Phi][]*leafState{}
	for _, p := range phis {
		v := entry.env[p]
		for range v.L {
			phiSt[p] = append(phiSt[p], &leafState{kind: lkSame})
		}
	}
	cellSt := map[*Cell][]*leafState{}
	hav := map[string]map[*Term]bool{} // region -> precise refs
	above := map[string]bool{}
	total := map[string]bool{}
	sorts := map[string]*Sort{}

	leafOf := func(t types.Type, i int) Leaf {
		if t == nil {
			return Leaf{sort: nil, role: "visited"}
		}
		return leaves(t)[i]
	}
	mkLeaf := func(ls *leafState, l Leaf, e *Term, name string) *Term {
		switch ls.kind {
		case lkSame:
			return e
		case lkAffine:
			return Add(e, Scale(iter, ls.k))
		}
		if ls.fresh == nil {
			ls.fresh = Fresh(name, e.sort)
			if ls.kind == lkRange {
				ls.fresh.withRange(ls.lo, ls.hi)
			} else if l.role != "visited" {
				x.typedLeaf(l, ls.fresh)
			}
		}
		return ls.fresh
	}
	// build constructs the state at the loop head for an arbitrary iteration
	build := func() *State {
		st := entry.clone()
		// a counter keeps the range that was inductive before it was recognised as affine
		affine := func(ls *leafState, v *Term) {
			if ls.kind == lkAffine && ls.lo != nil {
				st.assume(And(Le(IntC(ls.lo), v), Le(v, IntC(ls.hi))))
			}
		}
		x.alloc = new(big.Int).Add(allocBefore, refWindow)
		for _, p := range phis {
			ev := entry.env[p]
			nv := Val{T: ev.T, A: ev.A, L: make([]*Term, len(ev.L))}
			ch := false
			for i := range ev.L {
				l := Leaf{}
				if len(leaves(p.Type())) == len(ev.L) {
					l = leaves(p.Type())[i]
				}
				nv.L[i] = mkLeaf(phiSt[p][i], l, ev.L[i], "phi_"+p.Comment+l.path)
				affine(phiSt[p][i], nv.L[i])
				if nv.L[i] != ev.L[i] {
					ch = true
				}
			}
			if ch {
				nv.A = nil
				nv = x.typedVal(nv)
			}
			st.env[p] = nv
		}
		for c, lss := range cellSt {
			ec := entry.cells[c]
			nc := make([]*Term, len(ec))
			for i := range ec {
				l := leafOf(c.typ, i)
				nc[i] = mkLeaf(lss[i], l, ec[i], "cell_"+c.name)
				affine(lss[i], nc[i])
			}
			if c.typ != nil {
				nc = x.typedVal(Val{T: c.typ, L: nc}).L
			}
			st.cells[c] = nc
		}
		var keys []string
		for k := range sorts {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			h := x.region(st, k, sorts[k])
			if total[k] {
				h = Fresh("hv:"+k, sorts[k])
			} else {
				var rs []*Term
				for r := range hav[k] {
					rs = append(rs, r)
				}
				sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
				for _, r := range rs {
					h = Store(h, r, Fresh("hr:"+k, sorts[k].v))
				}
				if above[k] {
					h = App("havoc_above", h.sort, h, IntC(allocBefore), Fresh("ha:"+k, sorts[k]))
				}
			}
			st.heap[k] = h
			if x.rec != nil {
				if total[k] {
					x.rec.heapWrite(k, nil, sorts[k])
				}
				for r := range hav[k] {
					x.rec.heapWrite(k, r, sorts[k])
				}
				if above[k] {
					x.rec.heapWrite(k, IntC(x.alloc), sorts[k])
				}
			}
		}
		if x.rec != nil {
			for c := range cellSt {
				x.rec.cellWrite(c)
			}
		}
		return st
	}
	invariantTerm := func(t *Term) bool {
		seen := map[*Term]bool{}
		ok := true
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] || !ok {
				return
			}
			seen[t] = true
			if t.op == OVar && t.id > mark {
				ok = false
			}
			if t.op == OApp && t.name == "havoc_above" && t.id > mark {
				ok = false
			}
			if t.op == OInt && t.ival.Cmp(allocBefore) > 0 {
				ok = false
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(t)
		return ok
	}
	outerRec := x.rec
	// fixpoint over the shape of the havoc
	for round := 0; ; round++ {
		if round > 40 {
			panic(unsupported("loop shape does not stabilise"))
		}
		x.rec = newRec(outerRec)
		for _, ls := range phiSt {
			for _, l := range ls {
				l.fresh = nil
			}
		}
		for _, ls := range cellSt {
			for _, l := range ls {
				l.fresh = nil
			}
		}
		saveRec := x.rec
		x.rec = nil
		nesc := len(x.escaped)
		st := build()
		x.rec = saveRec
		startCells := map[*Cell][]*Term{}
		for c, v := range st.cells {
			startCells[c] = v
		}
		x.quiet++
		_, backs := x.runRegion(fr, li, loop, loop.head, []edgeState{{st: st.clone(), pred: -1}})
		x.quiet--
		rec := x.rec
		x.rec = outerRec
		changed := false
		demote := func(ls *leafState, start, e, v *Term, l Leaf, bst *State) {
			if v != e {
				x.escape(e)
				x.escape(v)
			}
			switch ls.kind {
			case lkSame:
				if v == e {
					return
				}
				changed = true
				if e.sort == SInt {
					if lo, hi := intRange(orInt(l.typ)); l.typ != nil && lo != nil && l.role == "" || l.role == "math" || l.role == "len" {
						ls.kind = lkRange
						el, eh := entry.k().boundsLin(e)
						cap := IntC(new(big.Int).Add(maxLen, bi(8))).ival
						if el == nil {
							el = bi(0)
						}
						if eh == nil {
							eh = cap
						}
						ls.lo = bmin(bi(-8), el)
						ls.hi = bmax(cap, eh)
						if l.role == "" {
							if ls.lo.Cmp(lo) < 0 {
								ls.lo = lo
							}
							if ls.hi.Cmp(hi) > 0 {
								ls.hi = hi
							}
						}
						return
					}
				}
				debugf("leaf %s -> free (%v %q): %s", e, l.typ, l.role, v.str(5))
				ls.kind = lkFree
			case lkAffine:
				if v != Add(start, IntC(ls.k)) {
					debugf("affine leaf %s demoted: %s", start, v.str(6))
					ls.kind = lkFree
					changed = true
					return
				}
				bl, bh := bst.k().boundsLin(v)
				if bl == nil || bh == nil || bl.Cmp(ls.lo) < 0 || bh.Cmp(ls.hi) > 0 {
					debugf("affine leaf %s out of range: %s", start, v.str(6))
					ls.kind = lkFree
					changed = true
				}
			case lkRange:
				if v == start {
					return
				}
				bl, bh := bst.k().boundsLin(v)
				if v.lo != nil && (bl == nil || v.lo.Cmp(bl) > 0) {
					bl = v.lo
				}
				if v.hi != nil && (bh == nil || v.hi.Cmp(bh) < 0) {
					bh = v.hi
				}
				if bl == nil || bh == nil || bl.Cmp(ls.lo) < 0 || bh.Cmp(ls.hi) > 0 {
					debugf("range leaf %s demoted: %s in [%v,%v], allowed [%v,%v]", start, v.str(6), bl, bh, ls.lo, ls.hi)
					ls.kind = lkFree
					changed = true
				}
			}
		}
		var bs []edgeState
		for _, e := range backs {
			if e.st == nil || e.st.dead() {
				continue
			}
			x.evalPhis(loop.head, e)
			bs = append(bs, e)
		}
		for _, e := range bs {
			for _, p := range phis {
				ev, sv, bv := entry.env[p], st.env[p], e.st.env[p]
				if (bv.A != nil || ev.A != nil) && !sameAddr(bv.A, ev.A) {
					if sv.A != nil || bv.A != nil {
						// pointer that moves: keep as reference
						if ev.A != nil {
							entry.env[p] = x.plain(entry, ev)
							changed = true
						}
						if bv.A != nil {
							bv = x.plain(e.st, bv)
						}
					}
				}
				for i := range ev.L {
					l := Leaf{}
					if lv := leaves(p.Type()); len(lv) == len(ev.L) {
						l = lv[i]
					}
					demote(phiSt[p][i], sv.L[i], ev.L[i], bv.L[i], l, e.st)
				}
			}
			for c, ev := range entry.cells {
				bv, ok := e.st.cells[c]
				if !ok {
					continue
				}
				sv := startCells[c]
				if e.st.prom[c] && !entry.prom[c] {
					x.promote(entry, c)
					changed = true
				}
				if entry.prom[c] {
					continue
				}
				ch := false
				for i := range ev {
					if bv[i] != sv[i] {
						ch = true
					}
				}
				if ch && cellSt[c] == nil {
					for range ev {
						cellSt[c] = append(cellSt[c], &leafState{})
					}
				}
				if cellSt[c] != nil {
					for i := range ev {
						demote(cellSt[c][i], sv[i], ev[i], bv[i], leafOf(c.typ, i), e.st)
					}
				}
			}
		}
		if len(x.escaped) != nesc {
			changed = true
		}
		// affine detection: when nothing else changed, turn range leaves with a constant step into entry + k*iter
		if !changed && len(bs) > 0 {
			aff := func(ls *leafState, get func(st *State) *Term, start *Term) {
				if ls.kind != lkRange {
					return
				}
				var k *big.Int
				for _, e := range bs {
					d := Sub(get(e.st), start)
					if d.op != OInt || k != nil && k.Cmp(d.ival) != 0 || d.ival.Sign() == 0 {
						return
					}
					k = d.ival
				}
				ls.kind, ls.k = lkAffine, k
				changed = true
			}
			for _, p := range phis {
				for i := range phiSt[p] {
					p, i := p, i
					aff(phiSt[p][i], func(s *State) *Term { return s.env[p].L[i] }, st.env[p].L[i])
				}
			}
			for c, lss := range cellSt {
				for i := range lss {
					c, i := c, i
					aff(lss[i], func(s *State) *Term { return s.cells[c][i] }, st.cells[c][i])
				}
			}
		}
		// heap writes
		for k, s := range rec.sorts {
			if _, ok := sorts[k]; !ok {
				sorts[k] = s
				changed = true
			}
			if rec.total[k] && !total[k] {
				total[k] = true
				changed = true
			}
			for r := range rec.refs[k] {
				if total[k] {
					continue
				}
				switch {
				case r.op == OInt && r.ival.Cmp(allocBefore) > 0:
					if !above[k] {
						above[k] = true
						changed = true
					}
				case invariantTerm(r):
					if hav[k] == nil {
						hav[k] = map[*Term]bool{}
					}
					if !hav[k][r] {
						hav[k][r] = true
						changed = true
					}
				default:
					if r.lo != nil && r.lo.Cmp(allocBefore) > 0 || x.contract != nil && x.contract.freshWrites != "" && strings.Contains(k, x.contract.freshWrites) {
						if !above[k] {
							above[k] = true
							changed = true
						}
						continue
					}
					total[k] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	x.rec = outerRec

	// numeric bound of the iteration counter and candidate invariants
	reset := func() {
		for _, ls := range phiSt {
			for _, l := range ls {
				l.fresh = nil
			}
		}
		for _, ls := range cellSt {
			for _, l := range ls {
				l.fresh = nil
			}
		}
	}
	cands := x.autoCandidates(fr, loop, ctx)
	cands = append(cands, x.userCandidates(fr, loop, ctx, entry)...)
	// entry check
	iterZero := func(t *Term) *Term { return Subst(t, iter, I(0)) }
	var live []*invCand
	for _, c := range cands {
		es := entry.clone()
		t, ok := x.evalCand(c, es, ctx, I(0))
		if !ok {
			continue
		}
		t = iterZero(t)
		if x.proveQuick(es, t) {
			live = append(live, c)
		} else {
			debugf("cand %s dropped on entry: %s", c.name, t.str(5))
		}
	}
	for {
		reset()
		st := build()
		var assumed []*Term
		for _, c := range live {
			t, ok := x.evalCand(c, st, ctx, iter)
			if !ok {
				t = True
			}
			assumed = append(assumed, t)
		}
		for _, t := range assumed {
			st.assume(t)
		}
		x.quiet++
		rec := x.rec
		x.rec = nil
		_, backs := x.runRegion(fr, li, loop, loop.head, []edgeState{{st: st, pred: -1}})
		x.rec = rec
		x.quiet--
		dropped := false
		for _, e := range backs {
			if e.st == nil || e.st.dead() || len(live) == 0 {
				continue
			}
			x.evalPhis(loop.head, e)
			var ts []*Term
			for _, c := range live {
				t, ok := x.evalCand(c, e.st, ctx, Add(iter, I(1)))
				if !ok {
					t = False
				}
				ts = append(ts, t)
			}
			if len(live) > 1 && x.proveQuick(e.st, And(ts...)) {
				continue
			}
			var keep []*invCand
			for i, c := range live {
				if x.proveQuick(e.st, ts[i]) {
					keep = append(keep, c)
				} else {
					debugf("cand %s dropped at back edge: %s", c.name, ts[i].str(debugDepth))
					dropped = true
				}
			}
			live = keep
		}
		if !dropped {
			break
		}
	}
	for _, c := range live {
		c.src.kept++
	}
	reset()
	st := build()
	for _, c := range live {
		if t, ok := x.evalCand(c, st, ctx, iter); ok {
			st.assume(t)
		}
	}
	if len(live) > 0 {
		var ns []string
		for _, c := range live {
			ns = append(ns, c.name)
		}
		debugf("loop in %s: invariants %s", fr.fn.Name(), strings.Join(ns, ", "))
	}
	exits, _ := x.runRegion(fr, li, loop, loop.head, []edgeState{{st: st, pred: -1}})
	return exits
}

func orInt(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.String]
	}
	return t
}

// proveQuick decides pc => t with a short timeout.
func (x *Exec) proveQuick(st *State, t *Term) bool {
	t = st.decide(t)
	if t == True {
		return true
	}
	if t == False {
		// still provable when the path is infeasible
		r, _ := solveX(st.pc, 2000, false)
		return r == Unsat
	}
	ms := 4000
	if x.contract != nil && x.contract.invTimeout > 0 {
		ms = x.contract.invTimeout
	}
	r, _ := solveX(append(append([]*Term{}, st.pc...), negGoal(t)), ms, false)
	return r == Unsat
}

// ---------------------------------------------------------------- candidates

type invSource struct {
	name string
	kept int
}

type invCand struct {
	name string
	src  *invSource
	fn   *ssa.Function // template
	args []func(st *State) (Val, bool)
	auto func(st *State, iter *Term) (*Term, bool)
}

func (x *Exec) evalCand(c *invCand, st *State, ctx *loopCtx, iter *Term) (*Term, bool) {
	if c.auto != nil {
		return c.auto(st, iter)
	}
	var args []Val
	for _, g := range c.args {
		v, ok := g(st)
		if !ok {
			return nil, false
		}
		args = append(args, v)
	}
	save := ctx.iter
	ctx.iter = iter
	defer func() { ctx.iter = save }()
	t, ok := x.evalPure(st, c.fn, args, nil)
	return t, ok
}

// evalPure evaluates a boolean function on a copy of the state; facts learnt on the way guard the result.
func (x *Exec) evalPure(st *State, fn *ssa.Function, args []Val, bind []Val) (res *Term, ok bool) {
	s := st.clone()
	n := len(s.pc)
	x.quiet++
	np := x.nopanic
	x.nopanic = false
	rec := x.rec
	x.rec = nil
	fr := x.fr
	defer func() {
		x.quiet--
		x.nopanic = np
		x.rec = rec
		x.fr = fr
		if r := recover(); r != nil {
			if u, is := r.(unsupported); is {
				debugf("evalPure %s: %s", fn.Name(), string(u))
				ok = false
				return
			}
			panic(r)
		}
	}()
	s2, vs := x.runFunc(fn, args, bind, s, nil, false, fn.Pos())
	if s2 == nil {
		return False, true
	}
	t := vs[0].one()
	_ = n
	return t, true
}

func (x *Exec) autoCandidates(fr *Frame, loop *Loop, ctx *loopCtx) []*invCand {
	var r []*invCand
	src := &invSource{name: "auto"}
	head := loop.head
	ifi, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if ok {
		neg := !loop.blocks[head.Succs[0]]
		// header condition a < b: candidate a <= b
		mk := func(name string, f func(c *Term, st *State) *Term) {
			r = append(r, &invCand{name: name, src: src, auto: func(st *State, iter *Term) (*Term, bool) {
				s := st.clone()
				c := x.condAt(fr, loop, s, ifi)
				if c == nil {
					return nil, false
				}
				if neg {
					c = Not(c)
				}
				t := f(c, s)
				if t == nil {
					return nil, false
				}
				return t, true
			}})
		}
		mk("header bound", func(c *Term, st *State) *Term {
			switch c.op {
			case OLe0: // a-b+1 <= 0  ->  a-b <= 0
				return Le0(Sub(c.args[0], I(1)))
			case OBool:
				return True
			}
			return nil
		})
		mk("header bound numeric", func(c *Term, st *State) *Term {
			if c == True || c == False {
				return True
			}
			if c.op != OLe0 {
				return nil
			}
			as, cs, cc := linParts(Sub(c.args[0], I(1)))
			// drop the parts with a known upper bound
			var ts []*Term
			var ks []*big.Int
			k := new(big.Int).Set(cc)
			for i, a := range as {
				lo, hi := a.lo, a.hi
				if cs[i].Sign() < 0 && hi != nil && a != ctx.iter {
					k.Add(k, new(big.Int).Mul(cs[i], hi))
				} else {
					_ = lo
					ts, ks = append(ts, a), append(ks, cs[i])
				}
			}
			if len(ts) == 0 || len(ts) == len(as) {
				return nil
			}
			return Le0(linComb(append(ts, IntC(k)), append(ks, bigOne)))
		})
	}
	// bound of the iteration counter
	r = append(r, &invCand{name: "iter bound", src: src, auto: func(st *State, iter *Term) (*Term, bool) {
		return Le(iter, IntC(new(big.Int).Mul(maxLen, bi(4)))), true
	}})
	return r
}

// condAt evaluates the header condition at the loop head.
func (x *Exec) condAt(fr *Frame, loop *Loop, s *State, ifi *ssa.If) *Term {
	b := loop.head
	x.quiet++
	np := x.nopanic
	x.nopanic = false
	rec := x.rec
	x.rec = nil
	cur := x.fr
	x.fr = fr
	defer func() { x.quiet--; x.nopanic = np; x.rec = rec; x.fr = cur }()
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			return x.val(s, ifi.Cond).one()
		case *ssa.Next:
			return nil
		case *ssa.BinOp, *ssa.UnOp, *ssa.Field, *ssa.FieldAddr, *ssa.Extract, *ssa.Convert, *ssa.ChangeType, *ssa.IndexAddr:
			s = x.instr(fr, s, in)
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return nil
			}
			s = x.instr(fr, s, in)
		default:
			return nil
		}
	}
	return nil
}

type liveVal struct {
	name string
	typ  types.Type
	get  func(st *State) (Val, bool)
	prio int
}

// liveValues lists the values an invariant can talk about at a loop head.
func (x *Exec) liveValues(fr *Frame, loop *Loop, ctx *loopCtx, entry *State) []liveVal {
	var r []liveVal
	seen := map[ssa.Value]bool{}
	add := func(name string, v ssa.Value, f *Frame, env map[ssa.Value]Val, cur bool, prio int) {
		if seen[v] {
			return
		}
		seen[v] = true
		ev, ok := env[v]
		if !ok {
			return
		}
		if ev.A != nil && ev.A.cell == nil && !ev.A.whole() {
			return
		}
		if ev.T == nil {
			return
		}
		get := func(st *State) (Val, bool) {
			if cur {
				if c, ok := st.env[v]; ok {
					return c, true
				}
				return Val{}, false
			}
			return ev, true
		}
		r = append(r, liveVal{name: name, typ: v.Type(), get: get, prio: prio})
		// variables kept in memory
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok && ev.A != nil && ev.A.cell != nil && ev.A.cell.typ != nil {
			a := ev.A
			r = append(r, liveVal{name: name, typ: pt.Elem(), prio: prio, get: func(st *State) (Val, bool) {
				if _, ok := st.cells[a.cell]; !ok {
					return Val{}, false
				}
				return x.load(st, a), true
			}})
		}
	}
	names0 := debugNames(fr.fn)
	for _, in := range loop.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			if p.Comment == "rangeindex" {
				// invariants talk about the number of elements processed, under the name of the index variable
				n := "rangeindex"
				for _, in := range loop.head.Instrs {
					if b, ok := in.(*ssa.BinOp); ok && b.X == ssa.Value(p) && names0[b] != "" {
						n = names0[b]
					}
				}
				seen[p] = true
				r = append(r, liveVal{name: n, typ: p.Type(), prio: 0, get: func(st *State) (Val, bool) {
					c, ok := st.env[p]
					if !ok {
						return Val{}, false
					}
					return scalar(p.Type(), Add(c.L[0], I(1))), true
				}})
				continue
			}
			add(p.Comment, p, fr, entry.env, true, 0)
		}
	}
	f, env, prio := fr, entry.env, 1
	for f != nil {
		names := debugNames(f.fn)
		var vs []ssa.Value
		for v := range env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return valOrder(vs[i]) < valOrder(vs[j]) })
		for i := len(vs) - 1; i >= 0; i-- {
			v := vs[i]
			n := names[v]
			if a, ok := v.(*ssa.Alloc); ok {
				n = a.Comment
			}
			if p, ok := v.(*ssa.Parameter); ok {
				n = p.Name()
			}
			if p, ok := v.(*ssa.Phi); ok && n == "" {
				n = p.Comment
			}
			if n == "" {
				continue
			}
			add(n, v, f, env, f == fr, prio)
		}
		for i, fv := range f.fn.FreeVars {
			if i < len(f.bind) {
				b := f.bind[i]
				if b.A != nil && b.A.cell != nil && b.A.cell.typ != nil {
					a := b.A
					r = append(r, liveVal{name: fv.Name(), typ: a.cell.typ, prio: prio, get: func(st *State) (Val, bool) {
						if _, ok := st.cells[a.cell]; !ok {
							return Val{}, false
						}
						return x.load(st, a), true
					}})
				} else {
					r = append(r, liveVal{name: fv.Name(), typ: b.T, prio: prio, get: func(st *State) (Val, bool) { return b, true }})
				}
			}
		}
		env = f.callerEnv
		f = f.parent
		prio++
	}
	// variables captured by closures that are alive
	for _, c := range x.closures {
		for i, fv := range c.fn.FreeVars {
			if i < len(c.bind) {
				b := c.bind[i]
				if b.A != nil && b.A.cell != nil && b.A.cell.typ != nil {
					a := b.A
					if _, ok := entry.cells[a.cell]; !ok {
						continue
					}
					r = append(r, liveVal{name: fv.Name(), typ: a.cell.typ, prio: prio + 1, get: func(st *State) (Val, bool) {
						if _, ok := st.cells[a.cell]; !ok {
							return Val{}, false
						}
						return x.load(st, a), true
					}})
				} else if b.A == nil {
					r = append(r, liveVal{name: fv.Name(), typ: b.T, prio: prio + 1, get: func(st *State) (Val, bool) { return b, true }})
				}
			}
		}
	}
	return r
}

func valOrder(v ssa.Value) int {
	switch v := v.(type) {
	case *ssa.Parameter:
		return -1
	case ssa.Instruction:
		if v.Block() != nil {
			n := v.Block().Index * 100000
			for i, in := range v.Block().Instrs {
				if in == v {
					return n + i
				}
			}
			return n
		}
	}
	return -2
}

var dbgCache = map[*ssa.Function]map[ssa.Value]string{}

func debugNames(fn *ssa.Function) map[ssa.Value]string {
	if m, ok := dbgCache[fn]; ok {
		return m
	}
	m := map[ssa.Value]string{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && !d.IsAddr {
				if o := d.Object(); o != nil {
					if _, isv := o.(*types.Var); isv {
						if _, dup := m[d.X]; !dup {
							m[d.X] = o.Name()
						}
					}
				}
			}
		}
	}
	dbgCache[fn] = m
	return m
}

func (x *Exec) userCandidates(fr *Frame, loop *Loop, ctx *loopCtx, entry *State) []*invCand {
	if x.contract == nil || len(x.contract.invs) == 0 {
		return nil
	}
	lv := x.liveValues(fr, loop, ctx, entry)
	var out []*invCand
	for _, inv := range x.contract.invs {
		if inv.needMap && ctx.visited == nil {
			continue
		}
		var choices [][]liveVal
		okAll := true
		for i := 0; i < inv.fn.Signature.Params().Len(); i++ {
			p := inv.fn.Signature.Params().At(i)
			var byName, byType []liveVal
			for _, l := range lv {
				if !types.Identical(types.Unalias(l.typ), types.Unalias(p.Type())) {
					continue
				}
				if l.name == p.Name() {
					byName = append(byName, l)
				}
				byType = append(byType, l)
			}
			// the innermost named value wins
			if len(byName) > 0 {
				best := byName[0]
				for _, b := range byName {
					if b.prio < best.prio {
						best = b
					}
				}
				var bests []liveVal
				for _, b := range byName {
					if b.prio == best.prio && len(bests) < 4 {
						bests = append(bests, b)
					}
				}
				choices = append(choices, bests)
				continue
			}
			if len(byType) == 0 {
				okAll = false
				break
			}
			if len(byType) > 10 {
				byType = byType[:10]
			}
			choices = append(choices, byType)
		}
		if !okAll {
			continue
		}
		idx := make([]int, len(choices))
		n := 0
		for {
			c := &invCand{src: inv.src, fn: inv.fn}
			var ns []string
			for i, ch := range choices {
				c.args = append(c.args, ch[idx[i]].get)
				ns = append(ns, ch[idx[i]].name)
			}
			c.name = fmt.Sprintf("%s(%s)", inv.fn.Name(), strings.Join(ns, ","))
			out = append(out, c)
			n++
			if n >= 60 {
				break
			}
			j := len(idx) - 1
			for j >= 0 {
				idx[j]++
				if idx[j] < len(choices[j]) {
					break
				}
				idx[j] = 0
				j--
			}
			if j < 0 {
				break
			}
		}
	}
	return out
}

var debugDepth = func() int {
	if os.Getenv("GVC_DEPTH") != "" {
		return 14
	}
	return 6
}()
