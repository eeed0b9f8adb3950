package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

// Ground mode: closed quantifiers are replaced by propositional proxies; a proxy implies the instances of its body for
// the ground terms that occur in matching positions, and its negation implies the negation of the body for a witness.
// Unsatisfiability of the result carries over to the original query (the instances are consequences of it).

type gquant struct {
	t      *Term
	proxy  *Term
	done   map[*Term]bool
	trigs  []gtrig
	nested bool
}

type gtrig struct {
	class string
	rest  *Term
}

type grounder struct {
	q      *Query
	memo   map[*Term]*Term
	qs     map[*Term]*gquant
	order  []*gquant
	cand   map[string][]*Term // class -> ground terms
	seen   map[string]map[*Term]bool
	walk   map[*Term]bool
	insts  int
	strict bool
}

func arrClass(a *Term, strict bool) string {
	switch a.op {
	case OStore:
		return arrClass(a.args[0], strict)
	case OIte:
		return arrClass(a.args[1], strict)
	case OSelect:
		if strict {
			return fmt.Sprintf("row:%s@%d", arrClass(a.args[0], false), a.args[1].id)
		}
		return "row:" + arrClass(a.args[0], strict)
	case OVar:
		if i := strings.IndexByte(a.name, '!'); i > 0 {
			n := a.name[:i]
			if !strict && strings.HasPrefix(n, "hr:") {
				return "row:H:" + n[3:]
			}
			return n
		}
		return a.name
	case OApp:
		if a.name == "havoc_above" || a.name == "arrcopy" {
			return arrClass(a.args[0], strict)
		}
		return a.name
	}
	return fmt.Sprintf("op%d", a.op)
}

// linear decomposition of an index in the bound variable with coefficient 1
func idxRest(idx, bv *Term) *Term {
	if idx == bv {
		return I(0)
	}
	if !hasBound(idx, bv) || idx.sort != SInt {
		return nil
	}
	r := Sub(idx, bv)
	if hasBound(r, bv) || len(r.bound) > 0 {
		return nil
	}
	return r
}

func (g *grounder) keyClass(a, k *Term) string {
	if k.sort == SInt {
		return "i:" + arrClass(a, g.strict)
	}
	return "s:" + k.sort.String()
}

func (g *grounder) trigs(body, bv *Term) []gtrig {
	var out []gtrig
	seen := map[*Term]bool{}
	dup := map[string]bool{}
	add := func(c string, rest *Term) {
		k := fmt.Sprintf("%s|%d", c, rest.id)
		if !dup[k] {
			dup[k] = true
			out = append(out, gtrig{c, rest})
		}
	}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] || !hasBound(t, bv) {
			return
		}
		seen[t] = true
		switch t.op {
		case OSelect, OStore:
			if bv.sort != SInt {
				if t.args[1] == bv {
					add(g.keyClass(t.args[0], bv), I(0))
				}
			} else if r := idxRest(t.args[1], bv); r != nil {
				add(g.keyClass(t.args[0], t.args[1]), r)
			}
		case OApp:
			for i, a := range t.args {
				if a.sort != bv.sort {
					continue
				}
				if bv.sort != SInt {
					if a == bv {
						add("s:"+bv.sort.String(), I(0))
					}
				} else if r := idxRest(a, bv); r != nil {
					add(fmt.Sprintf("f:%s:%d", t.name, i), r)
				}
			}
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(body)
	if bv.sort != SInt && len(out) == 0 {
		add("s:"+bv.sort.String(), I(0))
	}
	return out
}

func (g *grounder) note(class string, t *Term) {
	m := g.seen[class]
	if m == nil {
		m = map[*Term]bool{}
		g.seen[class] = m
	}
	if !m[t] {
		m[t] = true
		g.cand[class] = append(g.cand[class], t)
	}
}

// gather records the ground terms at index and argument positions.
func (g *grounder) gather(t *Term) {
	if g.walk[t] || len(t.bound) > 0 {
		return
	}
	g.walk[t] = true
	switch t.op {
	case OForall:
		return
	case OSum, OSetSum:
		g.gather(t.args[1])
		return
	case OSelect, OStore:
		k := t.args[1]
		if len(k.bound) == 0 {
			g.note(g.keyClass(t.args[0], k), k)
		}
	case OApp:
		for i, a := range t.args {
			if len(a.bound) > 0 {
				continue
			}
			if a.sort == SInt {
				g.note(fmt.Sprintf("f:%s:%d", t.name, i), a)
			}
		}
	}
	for _, a := range t.args {
		g.gather(a)
	}
}

func (g *grounder) proxy(t *Term) *Term {
	if len(t.args) == 0 || len(t.bound) > 0 {
		return t
	}
	if r, ok := g.memo[t]; ok {
		return r
	}
	var r *Term
	if t.op == OForall {
		gq := g.qs[t]
		if gq == nil {
			gq = &gquant{t: t, proxy: Var(fmt.Sprintf("pf_%d", t.id), SBool), done: map[*Term]bool{}, trigs: g.trigs(t.args[0], t.bvar), nested: hasQuant(t.args[0])}
			g.qs[t] = gq
			g.order = append(g.order, gq)
			// witness of the negation
			sk := Var(fmt.Sprintf("skf_%d", t.id), t.bvar.sort)
			if t.bvar.decl {
				sk = sk.withRange(t.bvar.lo, t.bvar.hi)
			}
			g.axiom(Or(gq.proxy, Not(Subst(t.args[0], t.bvar, sk))))
		}
		r = gq.proxy
	} else if t.op == OSum || t.op == OSetSum {
		r = t
		if a := g.proxy(t.args[1]); a != t.args[1] {
			r = rebuild(t, []*Term{t.args[0], a})
		}
	} else {
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = g.proxy(a)
			ch = ch || as[i] != a
		}
		r = t
		if ch {
			r = rebuild(t, as)
			if t.decl && (r.op == OSelect || r.op == OApp) {
				r.withRange(t.lo, t.hi)
			}
		}
	}
	g.memo[t] = r
	return r
}

func (g *grounder) axiom(t *Term) {
	g.q.axioms = append(g.q.axioms, t)
	g.q.collect(t, 1)
}

const maxInst = 600

// groundText returns the instantiated query, or "" if nothing is quantified.
func groundText(asserts []*Term, strict bool) string {
	q := newQuery(asserts)
	q.ground = true
	for _, a := range asserts {
		q.collect(a, 0)
	}
	g := &grounder{q: q, strict: strict, memo: map[*Term]*Term{}, qs: map[*Term]*gquant{}, cand: map[string][]*Term{}, seen: map[string]map[*Term]bool{}, walk: map[*Term]bool{}}
	var out []*Term
	add := func(t *Term) {
		p := g.proxy(t)
		if p != t {
			q.collect(p, 1)
		}
		out = append(out, p)
		g.gather(p)
	}
	for _, a := range asserts {
		add(a)
	}
	ai := 0
	seenAx := map[*Term]bool{}
	for round := 0; round < 4; round++ {
		for ; ai < len(q.axioms); ai++ {
			a := q.axioms[ai]
			if seenAx[a] || len(a.bound) > 0 {
				continue
			}
			seenAx[a] = true
			add(a)
		}
		if round == 3 {
			break
		}
		// quantifiers without nested quantifiers first
		ord := append([]*gquant{}, g.order...)
		sort.SliceStable(ord, func(i, j int) bool { return !ord[i].nested && ord[j].nested })
		for _, gq := range ord {
			n := 0
			for _, tr := range gq.trigs {
				cs := g.cand[tr.class]
				for _, c := range cs {
					if g.insts > maxInst || n > 60 {
						break
					}
					if c.sort != gq.t.bvar.sort {
						continue
					}
					v := c
					if c.sort == SInt {
						v = Sub(c, tr.rest)
					}
					if gq.done[v] {
						continue
					}
					gq.done[v] = true
					n++
					g.insts++
					inst := Subst(gq.t.args[0], gq.t.bvar, v)
					if b := gq.t.bvar; b.decl {
						var gs []*Term
						if b.lo != nil {
							gs = append(gs, Le(IntC(b.lo), v))
						}
						if b.hi != nil {
							gs = append(gs, Le(v, IntC(b.hi)))
						}
						inst = Implies(And(gs...), inst)
					}
					g.axiom(Or(Not(gq.proxy), inst))
				}
			}
		}
	}
	if len(g.order) == 0 {
		return ""
	}
	for _, gq := range g.order {
		debugf("ground: %d instances of %s", len(gq.done), gq.t.str(6))
		for _, tr := range gq.trigs {
			_ = tr
			if false {
				debugf("   trigger %s + %s: %d", tr.class, tr.rest.str(3), len(g.cand[tr.class]))
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return false })
	var body bytes.Buffer
	for _, a := range out {
		fmt.Fprintf(&body, "(assert %s)\n", q.emit(a))
	}
	return q.finish(body.Bytes())
}

func hasQuant(t *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OForall {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}
