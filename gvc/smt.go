package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Query: satisfiability of a conjunction of terms (plus the facts attached to the terms that occur).

type SolverStats struct {
	queries  int64
	nanos    int64
	z3       int64
	cvc5     int64
	trivial  int64
	timeouts int64
}

var stats SolverStats

type Query struct {
	rk      []*Term
	asserts []*Term
	out     bytes.Buffer
	late    bytes.Buffer
	decls   bytes.Buffer
	defs    bytes.Buffer
	axioms  []*Term
	seenT   map[*Term]bool // terms whose facts have been collected
	names   map[*Term]string
	declSet map[string]bool
	strs    []*Term
	sums    map[string]*sumSym
	sumSeen map[*Term]bool
	sumDep  map[*Term]int
	quant   bool
	ground  bool // quantifiers are instantiated, see ground.go
	abs     bool // products and divisions by non-constants as uninterpreted functions with a few axioms
	nonlin  bool
	leaves  []*Term // free leaf terms for models
}

type sumSym struct {
	name  string
	body  *Term
	bv    *Term
	outer []*Term
	set   bool
	occ   []*Term
	ksort *Sort
}

func newQuery(asserts []*Term) *Query {
	// the keys of the range loops: candidates for the strict monotonicity of sums over sets
	seen := map[*Term]bool{}
	var rk []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar && strings.HasPrefix(t.name, "rk!") {
			rk = append(rk, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, a := range asserts {
		walk(a)
	}
	sort.Slice(rk, func(i, j int) bool { return rk[i].id < rk[j].id })
	return &Query{rk: rk, asserts: asserts, seenT: map[*Term]bool{}, names: map[*Term]string{}, declSet: map[string]bool{}, sums: map[string]*sumSym{}, sumSeen: map[*Term]bool{}, sumDep: map[*Term]int{}}
}

func sym(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$%&*+-/<=>?@^~", r)) {
			return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(s) + "|"
		}
	}
	if s == "" || s[0] >= '0' && s[0] <= '9' {
		return "|" + s + "|"
	}
	return s
}

const maxSumDepth = 2

// collect walks a term, gathers its attached facts and sum occurrences.
func (q *Query) collect(t *Term, depth int) {
	if q.seenT[t] {
		if d, ok := q.sumDep[t]; !ok || d <= depth {
			return
		}
	}
	q.seenT[t] = true
	q.sumDep[t] = depth
	if q.ground && (t.op == OForall || len(t.bound) > 0) {
		return
	}
	for i, a := range t.args {
		if q.ground && i == 0 && (t.op == OSum || t.op == OSetSum) {
			continue
		}
		q.collect(a, depth)
	}
	if t.decl && t.op != OBound {
		var f []*Term
		if t.lo != nil {
			f = append(f, rawLe(IntC(t.lo), t))
		}
		if t.hi != nil {
			f = append(f, rawLe(t, IntC(t.hi)))
		}
		for _, x := range f {
			q.addAxiom(t, x)
		}
	}
	for _, f := range t.facts {
		q.collect(f, depth)
		q.addAxiom(t, f)
	}
	if t.op == OSelect && t.sort == SBool && t.args[1].op == OBound && t.args[1].sort.kind == "Arr" {
		// the keys of a map are values of the key type
		q.quant = true
		q.axioms = append(q.axioms, mk(&Term{op: OApp, sort: SBool, name: "$forallpat", args: []*Term{t, Implies(t, wfT(t.args[1]))}}))
	}
	if t.op == OForall {
		q.quant = true
	}
	if t.op == OSum || t.op == OSetSum {
		q.addSum(t, depth)
	}
}

// wfT: t is a value of its Go type.
func wfT(t *Term) *Term { return App("$wf", SBool, t) }

// rawLe builds a <= b without range-based simplification.
func rawLe(a, b *Term) *Term {
	return mk(&Term{op: OLe0, sort: SBool, args: []*Term{Sub(a, b)}})
}

func (q *Query) addAxiom(anchor, f *Term) {
	if len(f.bound) == 0 {
		q.axioms = append(q.axioms, f)
		return
	}
	if q.ground {
		return
	}
	// quantify over bound variables, with the anchor as trigger
	for _, b := range f.bound {
		if !hasBound(anchor, b) {
			return
		}
		// the ranges of the elements hold for the values of the Go type, not for every array of integers
		if b.sort.kind == "Arr" {
			f = Implies(wfT(b), f)
		}
	}
	q.quant = true
	q.axioms = append(q.axioms, mk(&Term{op: OApp, sort: SBool, name: "$forallpat", args: []*Term{anchor, f}}))
}

// boundGuard: a bound variable with a range is quantified over that range only.
func boundGuard(b *Term, body string) string {
	if !b.decl {
		return body
	}
	g := ""
	if b.lo != nil {
		g += " (<= " + smtInt(b.lo) + " " + sym(b.name) + ")"
	}
	if b.hi != nil {
		g += " (<= " + sym(b.name) + " " + smtInt(b.hi) + ")"
	}
	return "(=> (and true" + g + ") " + body + ")"
}

func (q *Query) addSum(t *Term, depth int) {
	if q.sumSeen[t] {
		return
	}
	q.sumSeen[t] = true
	var outer []*Term
	for _, b := range t.args[0].bound {
		if b != t.bvar {
			outer = append(outer, b)
		}
	}
	key := fmt.Sprintf("%d_%d_%d", t.op, t.args[0].id, t.bvar.id)
	s := q.sums[key]
	if s == nil {
		s = &sumSym{name: fmt.Sprintf("S%d", len(q.sums)), body: t.args[0], bv: t.bvar, outer: outer, set: t.op == OSetSum}
		q.sums[key] = s
	}
	nonneg := s.body.lo != nil && s.body.lo.Sign() >= 0
	if len(outer) > 0 || len(t.bound) > 0 {
		// parametrised sum: emit quantified unfolding
		if t.op == OSum {
			q.sumAxiomQuant(s, t)
		}
		return
	}
	hi := t.args[1]
	if t.op == OSum {
		if depth < maxSumDepth {
			prev := mk(&Term{op: OSum, sort: SInt, args: []*Term{s.body, Sub(hi, I(1))}, bvar: s.bv})
			if hi.op == OInt && hi.ival.Cmp(bi(5)) <= 0 {
				prev = SumT(s.bv, s.body, Sub(hi, I(1)))
			}
			elt := Subst(s.body, s.bv, Sub(hi, I(1)))
			ax := Ite(Le(hi, I(0)), Eq(t, I(0)), Eq(t, Add(prev, elt)))
			q.axioms = append(q.axioms, ax)
			q.collect(ax, depth+1)
		}
		if nonneg {
			q.axioms = append(q.axioms, rawLe(I(0), t))
		}
		for _, o := range s.occ {
			oh := o.args[1]
			if nonneg {
				ax := And(Implies(Le(hi, oh), rawLe(t, o)), Implies(Le(oh, hi), rawLe(o, t)))
				if depth == 0 {
					// a longer sum includes the next element of the shorter one
					ax = And(ax, Implies(And(Le(I(0), hi), Lt(hi, oh)), rawLe(Add(t, Subst(s.body, s.bv, hi)), o)), Implies(And(Le(I(0), oh), Lt(oh, hi)), rawLe(Add(o, Subst(s.body, s.bv, oh)), t)))
				}
				q.axioms = append(q.axioms, ax)
				q.collect(ax, depth+1)
			}
		}
		s.occ = append(s.occ, t)
		// extensionality with other sums
		var keys []string
		for k := range q.sums {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			o := q.sums[k]
			if o == s || o.set || len(o.outer) > 0 {
				continue
			}
			for _, oc := range o.occ {
				q.sumExt(s, t, o, oc, depth)
			}
		}
	} else {
		if nonneg {
			q.axioms = append(q.axioms, rawLe(I(0), t))
		}
		if nonneg && depth <= 1 {
			for _, oc := range s.occ {
				if oc == t {
					continue
				}
				for _, d := range [][2]*Term{{t, oc}, {oc, t}} {
					a, b := d[0], d[1]
					kx := Var(fmt.Sprintf("sk_sub_%d_%d", a.id, b.id), s.bv.sort)
					notSub := And(Select(a.args[1], kx), Not(Select(b.args[1], kx)))
					ax := Or(notSub, rawLe(a, b))
					for _, rk := range q.rk {
						if rk.sort == s.bv.sort {
							ax = And(ax, Or(notSub, Select(a.args[1], rk), Not(Select(b.args[1], rk)), rawLe(Add(a, Subst(s.body, s.bv, rk)), b)))
						}
					}
					q.axioms = append(q.axioms, ax)
					q.collect(ax, depth+1)
				}
			}
		}
		s.occ = append(s.occ, t)
		var keys []string
		for k := range q.sums {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			o := q.sums[k]
			if !o.set || len(o.outer) > 0 || o.bv.sort != s.bv.sort {
				continue
			}
			for _, oc := range o.occ {
				if oc == t {
					continue
				}
				// equal sets and equal bodies on the set => equal sums; otherwise a witness exists
				kx := Var(fmt.Sprintf("sk_set_%d_%d", t.id, oc.id), s.bv.sort)
				d := Or(Not(Eq(Select(t.args[1], kx), Select(oc.args[1], kx))), And(Select(t.args[1], kx), Not(Eq(Subst(s.body, s.bv, kx), Subst(o.body, o.bv, kx)))))
				ax := Or(Eq(t, oc), d)
				q.axioms = append(q.axioms, ax)
				q.collect(ax, depth+1)
			}
		}
		// empty set
		kx := Var(fmt.Sprintf("sk_empty_%d", t.id), s.bv.sort)
		ax := Or(Eq(t, I(0)), Select(t.args[1], kx))
		q.axioms = append(q.axioms, ax)
		q.collect(ax, depth+1)
	}
}

func (q *Query) sumExt(s *sumSym, t *Term, o *sumSym, oc *Term, depth int) {
	if depth > maxSumDepth {
		return
	}
	k := Var(fmt.Sprintf("sk_sum_%d_%d", t.id, oc.id), SInt)
	b1, b2 := Subst(s.body, s.bv, k), Subst(o.body, o.bv, k)
	// sums with pointwise <= are <= as well
	hi, oh := t.args[1], oc.args[1]
	ax := Implies(Eq(hi, oh), Or(Eq(t, oc), And(Le(I(0), k), Lt(k, hi), Not(Eq(b1, b2)))))
	q.axioms = append(q.axioms, ax)
	q.collect(ax, depth+1)
}

func (q *Query) sumAxiomQuant(s *sumSym, t *Term) {
	// handled on emission: forall hi, outer. S(hi,outer) = ite(hi<=0, 0, S(hi-1,outer)+body)
	s.occ = append(s.occ, t)
}

func (q *Query) ref(t *Term) string {
	if n, ok := q.names[t]; ok {
		return n
	}
	return ""
}

// emit returns the SMT text of t; shared closed subterms are named through define-fun.
func (q *Query) emit(t *Term) string {
	if n, ok := q.names[t]; ok {
		return n
	}
	s := q.emitRaw(t)
	if len(t.args) > 0 && len(t.bound) == 0 && len(s) > 24 {
		n := fmt.Sprintf("d%d", t.id)
		fmt.Fprintf(&q.defs, "(define-fun %s () %s %s)\n", n, t.sort, s)
		q.names[t] = n
		return n
	}
	if len(s) < 200 || len(t.bound) > 0 {
		q.names[t] = s
	}
	return s
}

func (q *Query) declare(name, sig string) {
	if q.declSet[name] {
		return
	}
	q.declSet[name] = true
	fmt.Fprintf(&q.defs, "(declare-fun %s %s)\n", name, sig)
}

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (q *Query) list(head string, as []*Term) string {
	var sb strings.Builder
	sb.WriteString("(" + head)
	for _, a := range as {
		sb.WriteString(" " + q.emit(a))
	}
	sb.WriteString(")")
	return sb.String()
}

func (q *Query) emitRaw(t *Term) string {
	switch t.op {
	case OVar:
		n := sym(t.name)
		q.declare(n, "() "+t.sort.String())
		return n
	case OBound:
		return sym(t.name)
	case OInt:
		return smtInt(t.ival)
	case OBool:
		return t.name
	case OStr:
		n := fmt.Sprintf("str%d", t.id)
		if !q.declSet[n] {
			q.declare(n, "() Str")
			q.strs = append(q.strs, t)
		}
		return n
	case OLin:
		var ps []string
		for i, a := range t.args {
			e := q.emit(a)
			if t.coefs[i].Cmp(bigOne) != 0 {
				e = "(* " + smtInt(t.coefs[i]) + " " + e + ")"
			}
			ps = append(ps, e)
		}
		if t.ival.Sign() != 0 {
			ps = append(ps, smtInt(t.ival))
		}
		if len(ps) == 1 {
			return ps[0]
		}
		return "(+ " + strings.Join(ps, " ") + ")"
	case OMul:
		q.nonlin = true
		if q.abs {
			n := fmt.Sprintf("$mul%d", len(t.args))
			q.declare(n, "("+strings.Repeat("Int ", len(t.args))+") Int")
			e := q.list(n, t.args)
			if len(t.bound) == 0 {
				var nn, zero []string
				for _, a := range t.args {
					nn = append(nn, "(>= "+q.emit(a)+" 0)")
					zero = append(zero, "(= "+q.emit(a)+" 0)")
				}
				fmt.Fprintf(&q.late, "(assert (=> (and true %s) (>= %s 0)))\n(assert (=> (or false %s) (= %s 0)))\n", strings.Join(nn, " "), e, strings.Join(zero, " "), e)
				for i := range t.args {
					if len(t.args) == 2 {
						fmt.Fprintf(&q.late, "(assert (=> (= %s 1) (= %s %s)))\n", q.emit(t.args[i]), e, q.emit(t.args[1-i]))
					}
				}
			}
			return e
		}
		return q.list("*", t.args)
	case ODiv, OMod:
		op := "div"
		if t.op == OMod {
			op = "mod"
		}
		if t.args[1].op != OInt {
			q.nonlin = true
			if q.abs {
				q.declare("$"+op, "(Int Int) Int")
				e := q.list("$"+op, t.args)
				if len(t.bound) == 0 {
					a, d := q.emit(t.args[0]), q.emit(t.args[1])
					up := ""
					if t.op == OMod {
						up = fmt.Sprintf("(< %s %s)", e, d)
					} else {
						up = fmt.Sprintf("(= (= %s 0) (< %s %s))", e, a, d)
					}
					fmt.Fprintf(&q.late, "(assert (=> (and (>= %s 0) (> %s 0)) (and (<= 0 %s) (<= %s %s) %s)))\n", a, d, e, e, a, up)
				}
				return e
			}
		}
		return q.list(op, t.args)
	case OIte:
		return q.list("ite", t.args)
	case OEq:
		return q.list("=", t.args)
	case OLe0:
		return "(<= " + q.emit(t.args[0]) + " 0)"
	case OAnd:
		return q.list("and", t.args)
	case OOr:
		return q.list("or", t.args)
	case ONot:
		return q.list("not", t.args)
	case OSelect:
		return q.list("select", t.args)
	case OStore:
		return q.list("store", t.args)
	case OConstArr:
		return "((as const " + t.sort.String() + ") " + q.emit(t.args[0]) + ")"
	case OApp:
		if t.name == "$forallpat" {
			anchor, f := t.args[0], t.args[1]
			var bs []string
			for _, b := range f.bound {
				bs = append(bs, "("+sym(b.name)+" "+b.sort.String()+")")
			}
			body := q.emit(f)
			for _, b := range f.bound {
				body = boundGuard(b, body)
			}
			return "(forall (" + strings.Join(bs, " ") + ") (! " + body + " :pattern (" + q.emit(anchor) + ")))"
		}
		if t.name == "havoc_above" || t.name == "arrcopy" {
			// defined pointwise; selects were pushed through on construction whenever possible
			n := fmt.Sprintf("ha%d", t.id)
			var bq, ba, bs string
			for _, v := range t.bound {
				bq += "(" + sym(v.name) + " " + v.sort.String() + ") "
				ba += " " + sym(v.name)
				bs += v.sort.String() + " "
			}
			nn := n
			if ba != "" {
				nn = "(" + n + ba + ")"
			}
			if !q.declSet[n] {
				b := Bound("r$", SInt)
				var body string
				if t.name == "havoc_above" {
					body = fmt.Sprintf("(ite (<= r$ %s) (select %s r$) (select %s r$))", q.emit(t.args[1]), q.emit(t.args[0]), q.emit(t.args[2]))
				} else {
					lo, cn, o := q.emit(t.args[1]), q.emit(t.args[2]), q.emit(t.args[4])
					body = fmt.Sprintf("(ite (and (<= %s r$) (< r$ (+ %s %s))) (select %s (+ %s (- r$ %s))) (select %s r$))", lo, lo, cn, q.emit(t.args[3]), o, lo, q.emit(t.args[0]))
				}
				q.declare(n, "("+strings.TrimSpace(bs)+") "+t.sort.String())
				fmt.Fprintf(&q.defs, "(assert (forall (%s(%s Int)) (! (= (select %s %s) %s) :pattern ((select %s %s)))))\n", bq, b.name, nn, b.name, body, nn, b.name)
				q.quant = true
			}
			n = nn
			return n
		}
		var ss []string
		for _, a := range t.args {
			ss = append(ss, a.sort.String())
		}
		n := sym(t.name)
		q.declare(n, "("+strings.Join(ss, " ")+") "+t.sort.String())
		if len(t.args) == 0 {
			return n
		}
		return q.list(n, t.args)
	case OForall:
		return "(forall ((" + sym(t.bvar.name) + " " + t.bvar.sort.String() + ")) " + boundGuard(t.bvar, q.emit(t.args[0])) + ")"
	case OSum, OSetSum:
		key := fmt.Sprintf("%d_%d_%d", t.op, t.args[0].id, t.bvar.id)
		s := q.sums[key]
		if s == nil {
			q.collect(t, maxSumDepth)
			s = q.sums[key]
		}
		hs := "Int"
		if s.set {
			hs = t.args[1].sort.String()
		}
		sig := "(" + hs
		call := s.name + " " + q.emit(t.args[1])
		for _, o := range s.outer {
			sig += " " + o.sort.String()
			call += " " + sym(o.name)
		}
		if !q.declSet[s.name] {
			q.declare(s.name, sig+") Int")
			if !s.set && (len(s.outer) > 0) {
				bs := "(h$ Int)"
				oc := ""
				for _, o := range s.outer {
					bs += " (" + sym(o.name) + " " + o.sort.String() + ")"
					oc += " " + sym(o.name)
				}
				hb := Bound("h$", SInt)
				el := q.emit(Subst(s.body, s.bv, Sub(hb, I(1))))
				fmt.Fprintf(&q.defs, "(assert (forall (%s) (! (= (%s h$%s) (ite (<= h$ 0) 0 (+ (%s (- h$ 1)%s) %s))) :pattern ((%s h$%s)))))\n", bs, s.name, oc, s.name, oc, el, s.name, oc)
				q.quant = true
			}
		}
		return "(" + call + ")"
	}
	panic("emit")
}

func (q *Query) text() string {
	for _, a := range q.asserts {
		q.collect(a, 0)
	}
	var body bytes.Buffer
	seen := map[*Term]bool{}
	for i := 0; i < len(q.axioms); i++ {
		a := q.axioms[i]
		if seen[a] {
			continue
		}
		seen[a] = true
		e := q.emit(a)
		fmt.Fprintf(&body, "(assert %s)\n", e)
	}
	for _, a := range q.asserts {
		e := q.emit(a)
		fmt.Fprintf(&body, "(assert %s)\n", e)
	}
	// axioms may have grown while emitting
	for i := 0; i < len(q.axioms); i++ {
		a := q.axioms[i]
		if !seen[a] {
			seen[a] = true
			e := q.emit(a)
			fmt.Fprintf(&body, "(assert %s)\n", e)
		}
	}
	return q.finish(body.Bytes())
}

func (q *Query) finish(body []byte) string {
	var out bytes.Buffer
	out.WriteString("(set-option :produce-models true)\n(declare-sort Str 0)\n")
	out.Write(q.defs.Bytes())
	if len(q.strs) > 1 {
		out.WriteString("(assert (distinct")
		for _, s := range q.strs {
			out.WriteString(" " + q.names[s])
		}
		out.WriteString("))\n")
	}
	out.Write(q.late.Bytes())
	out.Write(body)
	return out.String()
}

// ---------------------------------------------------------------- running solvers

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

var solverSem = make(chan struct{}, 8)

func runSolver(name string, args []string, text string, timeout time.Duration) (Result, string) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(text)
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	t0 := time.Now()
	_ = cmd.Run()
	atomic.AddInt64(&stats.nanos, int64(time.Since(t0)))
	atomic.AddInt64(&stats.queries, 1)
	out := ob.String()
	sc := bufio.NewScanner(strings.NewReader(out))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		switch l {
		case "sat":
			return Sat, out
		case "unsat":
			return Unsat, out
		case "unknown", "timeout":
			return Unknown, out
		}
		if strings.HasPrefix(l, "(error") {
			if os.Getenv("GVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR:", l)
			}
			return Unknown, out
		}
	}
	return Unknown, out
}

type cacheKey struct{ h string }

var qcache sync.Map

func z3args(ms int) []string { return []string{"-in", fmt.Sprintf("-t:%d", ms)} }

var dumpDir = os.Getenv("GVC_DUMP")
var dumpN int64

// solve decides the conjunction of asserts.
func solve(asserts []*Term, ms int) (Result, string) { return solveX(asserts, ms, true) }

func solveX(asserts []*Term, ms int, fallback bool) (res Result, how string) {
	locked := true
	defer func() {
		if r := recover(); r != nil {
			u, is := r.(unsupported)
			if !is {
				panic(r)
			}
			if locked {
				termMu.Unlock()
			}
			res, how = Unknown, "unsupported: "+string(u)
		}
	}()
	termMu.Lock()
	c := And(asserts...)
	if c == False {
		termMu.Unlock()
		atomic.AddInt64(&stats.trivial, 1)
		return Unsat, "simplified"
	}
	q := newQuery([]*Term{c})
	text := q.text()
	atext := ""
	if q.nonlin {
		qa := newQuery([]*Term{c})
		qa.abs = true
		atext = qa.text() + "(check-sat)\n"
	}
	var gtexts []string
	if q.quant {
		if g := groundText([]*Term{c}, true); g != "" {
			gtexts = append(gtexts, g)
			if g2 := groundText([]*Term{c}, false); g2 != g {
				gtexts = append(gtexts, g2)
			}
		}
	}
	termMu.Unlock()
	locked = false
	text += "(check-sat)\n"
	if v, ok := qcache.Load(text); ok {
		return v.(Result), "cached"
	}
	if atext != "" {
		// first with products abstracted: unsatisfiability carries over
		ams := ms / 2
		if ams > 6000 {
			ams = 6000
		}
		if dumpDir != "" {
			n := atomic.AddInt64(&dumpN, 1)
			os.WriteFile(fmt.Sprintf("%s/q%05da.smt2", dumpDir, n), []byte(atext), 0o644)
		}
		if r, _ := runSolver("z3-new", z3args(ams), atext, time.Duration(ams)*time.Millisecond); r == Unsat {
			qcache.Store(text, r)
			atomic.AddInt64(&stats.z3, 1)
			return Unsat, "z3-new"
		}
	}
	for _, g := range gtexts {
		g += "(check-sat)\n"
		// with the quantifiers instantiated: unsatisfiability carries over
		if dumpDir != "" {
			n := atomic.AddInt64(&dumpN, 1)
			os.WriteFile(fmt.Sprintf("%s/q%05dg.smt2", dumpDir, n), []byte(g), 0o644)
		}
		if r, _ := runSolver("z3-new", z3args(ms), g, time.Duration(ms)*time.Millisecond); r == Unsat {
			qcache.Store(text, r)
			atomic.AddInt64(&stats.z3, 1)
			return Unsat, "z3-new"
		}
	}
	if len(gtexts) > 0 && !fallback {
		return Unknown, ""
	}
	if dumpDir != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(fmt.Sprintf("%s/q%05d.smt2", dumpDir, n), []byte(text), 0o644)
	}
	r, out := runSolver("z3-new", z3args(ms), text, time.Duration(ms)*time.Millisecond)
	who := "z3-new"
	if r == Unknown && fallback {
		r2, out2 := runSolver("cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-"}, "(set-logic ALL)\n"+text, time.Duration(ms)*time.Millisecond)
		if r2 != Unknown {
			r, out, who = r2, out2, "cvc5"
		} else {
			r3, out3 := runSolver("z3", z3args(ms), text, time.Duration(ms)*time.Millisecond)
			if r3 == Unsat {
				r, out, who = r3, out3, "z3-4.8"
			}
		}
	}
	if r == Unknown {
		atomic.AddInt64(&stats.timeouts, 1)
	} else {
		qcache.Store(text, r)
		if who == "cvc5" {
			atomic.AddInt64(&stats.cvc5, 1)
		} else {
			atomic.AddInt64(&stats.z3, 1)
		}
	}
	_ = out
	return r, who
}

var termMu sync.Mutex

// model evaluates the given terms in a model of the asserts (nil if none found).
func model(asserts []*Term, want []*Term, ms int) map[*Term]string {
	termMu.Lock()
	c := And(asserts...)
	q := newQuery([]*Term{c})
	text := q.text()
	// only terms that are expressible
	var names []string
	var keep []*Term
	for _, w := range want {
		if len(w.bound) > 0 {
			continue
		}
		names = append(names, q.emit(w))
		keep = append(keep, w)
	}
	q2 := q.defs.String()
	termMu.Unlock()
	// definitions may have been added by emitting `want`; rebuild text with the full definition list
	idx := strings.Index(text, "(declare-sort Str 0)\n") + len("(declare-sort Str 0)\n")
	// the earlier text contained a prefix of defs
	rest := text[idx:]
	common := 0
	for common < len(rest) && common < len(q2) && rest[common] == q2[common] {
		common++
	}
	// cut at a line border
	if common < len(q2) {
		nl := strings.LastIndexByte(q2[:common], '\n') + 1
		common = nl
	}
	full := text[:idx] + q2 + rest[common:] + "(check-sat)\n"
	if len(names) == 0 {
		return nil
	}
	full += "(get-value (" + strings.Join(names, " ") + "))\n"
	r, out := runSolver("z3-new", z3args(ms), full, time.Duration(ms)*time.Millisecond)
	if r == Unsat || !strings.Contains(out, "((") {
		return nil
	}
	i := strings.Index(out, "((")
	vals := parsePairs(out[i:])
	if len(vals) != len(keep) {
		return nil
	}
	m := map[*Term]string{}
	for i, k := range keep {
		m[k] = vals[i]
	}
	return m
}

// parsePairs parses ((t v) (t v) ...) and returns the v texts.
func parsePairs(s string) []string {
	toks := tokenize(s)
	pos := 0
	var parse func() string
	parse = func() string {
		if pos >= len(toks) {
			return ""
		}
		t := toks[pos]
		pos++
		if t != "(" {
			return t
		}
		var parts []string
		for pos < len(toks) && toks[pos] != ")" {
			parts = append(parts, parse())
		}
		pos++
		return "(" + strings.Join(parts, " ") + ")"
	}
	var res []string
	if len(toks) == 0 || toks[0] != "(" {
		return nil
	}
	pos = 1
	for pos < len(toks) && toks[pos] == "(" {
		pos++
		parse()
		v := parse()
		res = append(res, v)
		if pos < len(toks) && toks[pos] == ")" {
			pos++
		}
	}
	return res
}

func tokenize(s string) []string {
	var toks []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			toks = append(toks, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return toks
			}
			toks = append(toks, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			toks = append(toks, s[i:j])
			i = j
		}
	}
	return toks
}

func parseSMTInt(s string) (*big.Int, bool) {
	neg := false
	if strings.HasPrefix(s, "(- ") {
		neg = true
		s = strings.TrimSuffix(strings.TrimPrefix(s, "(- "), ")")
	}
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, false
	}
	if neg {
		n.Neg(n)
	}
	return n, true
}
