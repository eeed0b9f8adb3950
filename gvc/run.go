package main

import (
	"fmt"
	"go/token"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ObRes is the outcome of one obligation.
type ObRes struct {
	Contract string `json:"contract"`
	Label    string `json:"label"`
	Kind     string `json:"kind"`
	Pos      string `json:"pos,omitempty"`
	Split    string `json:"split,omitempty"`
	Res      string `json:"res"` // proved, failed, unknown, unsupported
	Who      string `json:"by,omitempty"`
	Ms       int64  `json:"ms"`
}

// ContractRes is the outcome of verifying one contract.
type ContractRes struct {
	Name    string            `json:"name"`
	Obligs  []ObRes           `json:"obligations"`
	Cover   string            `json:"cover"`
	Ms      int64             `json:"ms"`
	Solver  map[string]int64  `json:"solver"`
	Touched []string          `json:"functions"`
	Trusted []string          `json:"trusted"`
	Assumed []string          `json:"assumed"`
	Used    []string          `json:"used_contracts"`
	Notes   []string          `json:"notes"`
	Models  map[string]string `json:"models,omitempty"`
	Inputs  []map[string]any  `json:"inputs,omitempty"`
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (c *Contract) splits() []string {
	if c.split == "" {
		return []string{""}
	}
	p, r, _ := strings.Cut(c.split, ":")
	lo, hi, _ := strings.Cut(r, "..")
	l, _ := strconv.Atoi(lo)
	h, _ := strconv.Atoi(hi)
	// the cases are exhaustive: below, each value, above
	out := []string{fmt.Sprintf("%s<%d", p, l), fmt.Sprintf("%s>%d", p, h)}
	for i := l; i <= h; i++ {
		out = append(out, fmt.Sprintf("%s=%d", p, i))
	}
	return out
}

// verify generates and discharges the obligations of one contract.
func verify(w *World, c *Contract, par int, timeoutScale float64, verbose bool) *ContractRes {
	t0 := time.Now()
	w.notes, w.trusted, w.assumed, w.usedC, w.touched = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	res := &ContractRes{Name: c.name, Cover: "ok", Models: map[string]string{}}
	var all []*Oblig
	covered := 0
	for _, sp := range c.splits() {
		obs, pc, err, np := generate(w, c, sp, 0)
		for k := 1; k < np && err == ""; k++ {
			o2, pc2, e2, _ := generate(w, c, sp, k)
			err = e2
			all = append(all, o2...)
			if pc == nil {
				pc = pc2
			} else if pc2 != nil {
				pc = []*Term{Or(And(pc...), And(pc2...))}
			}
		}
		if err != "" {
			res.Obligs = append(res.Obligs, ObRes{Contract: c.name, Label: err, Kind: "unsupported", Split: sp, Res: "unsupported"})
		}
		all = append(all, obs...)
		if err == "" {
			switch {
			case pc == nil:
				// every path of this case ends in a panic or is infeasible
			default:
				covered++
				r, _ := solveX(pc, 2000, false)
				if r == Unsat {
					covered--
				}
			}
		}
	}
	n := 0
	for _, o := range all {
		if o.kind == "ensures" || o.kind == "assert" || o.kind == "nopanic" || o.kind == "requires" {
			n++
		}
	}
	if n == 0 && len(res.Obligs) == 0 && !c.nopanic {
		res.Obligs = append(res.Obligs, ObRes{Contract: c.name, Label: "no obligation generated", Kind: "cover", Res: "failed"})
	}
	out := make([]ObRes, len(all))
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i, o := range all {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, o *Oblig) {
			defer func() { <-sem; wg.Done() }()
			out[i] = discharge(o, int(float64(c.timeout)*timeoutScale))
		}(i, o)
	}
	wg.Wait()
	for i, o := range out {
		if o.Res != "proved" && len(res.Inputs) < 3 {
			if in := modelInputs(w, c, all[i]); in != nil {
				res.Inputs = append(res.Inputs, in)
			}
		}
		if o.Res != "proved" && verbose {
			fmt.Printf("    pc(%d):\n", len(all[i].pc))
			for _, p := range all[i].pc {
				fmt.Printf("      %s\n", p)
			}
			fmt.Printf("    goal: %s\n", all[i].goal.str(14))
		}
	}
	allOK := len(res.Obligs) == 0
	for _, o := range out {
		if o.Res != "proved" {
			allOK = false
		}
	}
	if covered == 0 && allOK {
		res.Cover = "vacuous"
		res.Obligs = append(res.Obligs, ObRes{Contract: c.name, Label: "reachability of the end of the contract (vacuity guard)", Kind: "cover", Res: "failed"})
	}
	res.Obligs = append(res.Obligs, out...)
	res.Ms = time.Since(t0).Milliseconds()
	res.Touched, res.Trusted, res.Assumed, res.Used, res.Notes = keys(w.touched), keys(w.trusted), keys(w.assumed), keys(w.usedC), keys(w.notes)
	return res
}

func discharge(o *Oblig, ms int) (r ObRes) {
	t0 := time.Now()
	r = ObRes{Contract: o.contract.name, Label: o.label, Kind: o.kind, Pos: o.pos, Split: o.split, Res: "unknown"}
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				r.Res, r.Who = "unsupported", string(u)
				return
			}
			r.Res, r.Who = "unsupported", fmt.Sprint(e)
			if os.Getenv("GVC_DEBUG") != "" {
				debug.PrintStack()
			}
			termMu.TryLock()
			termMu.Unlock()
		}
	}()
	if o.goal == True {
		r.Res, r.Who = "proved", "simplifier"
		return
	}
	termMu.Lock()
	ng := negGoal(o.goal)
	as := append(append([]*Term{}, o.pc...), ng)
	termMu.Unlock()
	s, who := solve(as, ms)
	r.Ms = time.Since(t0).Milliseconds()
	r.Who = who
	switch s {
	case Unsat:
		r.Res = "proved"
	case Sat:
		r.Res = "failed"
	}
	return
}

// generate runs the contract symbolically. It returns the obligations and the path condition at the end of the contract.
func generate(w *World, c *Contract, split string, pick int) (obs []*Oblig, pc []*Term, errs string, paths int) {
	x := newExec(w, c)
	x.pathPick = pick
	defer func() {
		paths = x.nPaths
		if pick > 0 && x.pathObl <= len(obs) {
			obs = obs[x.pathObl:]
		}
	}()
	x.split = split
	x.nopanic = c.nopanic
	defer func() {
		if r := recover(); r != nil {
			obs = x.obl
			if u, ok := r.(unsupported); ok {
				errs = string(u)
				var st []string
				for f := x.fr; f != nil; f = f.parent {
					st = append(st, f.fn.Name())
				}
				if len(st) > 0 {
					errs += " [in " + strings.Join(st, " < ") + "]"
				}
			} else {
				errs = fmt.Sprint("internal: ", r)
				if os.Getenv("GVC_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}
	}()
	if c.targetName != "" && c.target == nil {
		return nil, nil, "target function not found: " + c.targetName, 0
	}
	st := newState()
	var args []Val
	for _, p := range c.fn.Params {
		v := x.freshVal(p.Name(), p.Type())
		if split != "" {
			i := strings.IndexAny(split, "<>=")
			n, op := split[:i], split[i]
			if n == p.Name() {
				k, _ := strconv.ParseInt(split[i+1:], 10, 64)
				switch op {
				case '=':
					v = scalar(p.Type(), I(k))
				case '<':
					st.assume(Lt(v.L[0], I(k)))
				case '>':
					st.assume(Lt(I(k), v.L[0]))
				}
			}
		}
		args = append(args, v)
		x.params = append(x.params, paramVal{name: p.Name(), v: v})
	}
	s, _ := x.runContract(c, args, st, false, token.NoPos)
	if s == nil {
		return x.obl, nil, "", 0
	}
	return x.obl, append([]*Term{True}, s.pc...), "", 0
}

var _ = big.NewInt
