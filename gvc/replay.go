package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// ---------------------------------------------------------------- inputs from a solver model

type mitem struct {
	v     Val
	set   func(any)
	depth int
}

// modelInputs reconstructs the parameters of the contract from a model of the failed obligation (nil when there is none).
func modelInputs(w *World, c *Contract, o *Oblig) (res map[string]any) {
	defer func() {
		if r := recover(); r != nil {
			termMu.TryLock()
			termMu.Unlock()
			debugf("model: %v", r)
			res = nil
		}
	}()
	termMu.Lock()
	ng := negGoal(o.goal)
	termMu.Unlock()
	asserts := append(append([]*Term{}, o.pc...), ng)
	x := newExec(w, c)
	st := newState()
	res = map[string]any{}
	var queue []mitem
	for _, p := range o.params {
		n := p.name
		queue = append(queue, mitem{v: p.v, set: func(a any) { res[n] = a }})
	}
	seen := 0
	for level := 0; len(queue) > 0 && level < 8; level++ {
		var want []*Term
		wset := map[*Term]bool{}
		add := func(t *Term) {
			if t.sort != SInt && t.sort != SBool {
				return
			}
			if t.op != OInt && !wset[t] {
				wset[t] = true
				want = append(want, t)
			}
		}
		termMu.Lock()
		for _, it := range queue {
			for _, l := range it.v.L {
				if l.sort == SStr {
					add(x.strLen(l))
					for j := int64(0); j < 24; j++ {
						add(x.strAt(l, I(j)))
					}
				} else {
					add(l)
				}
			}
		}
		termMu.Unlock()
		vals := map[*Term]string{}
		if len(want) > 0 {
			vals = model(asserts, want, 8000)
			if vals == nil {
				return nil
			}
		}
		termMu.Lock()
		get := func(t *Term) string {
			switch t {
			case True:
				return "true"
			case False:
				return "false"
			}
			if t.op == OInt {
				return t.ival.String()
			}
			if n, ok := parseSMTInt(vals[t]); ok {
				return n.String()
			}
			return vals[t]
		}
		for _, t := range want {
			if t.sort == SBool {
				if vals[t] == "true" {
					asserts = append(asserts, t)
				} else {
					asserts = append(asserts, Not(t))
				}
			} else if n, ok := parseSMTInt(vals[t]); ok {
				asserts = append(asserts, Eq(t, IntC(n)))
			}
		}
		var next []mitem
		for _, it := range queue {
			seen++
			if seen > 3000 {
				termMu.Unlock()
				return nil
			}
			mprocess(w, x, st, it, get, &next)
		}
		termMu.Unlock()
		queue = next
	}
	return res
}

func mprocess(w *World, x *Exec, st *State, it mitem, get func(*Term) string, next *[]mitem) {
	t := it.v.T
	atoi := func(s string) int64 {
		n, ok := parseSMTInt(s)
		if !ok || !n.IsInt64() {
			return -1
		}
		return n.Int64()
	}
	switch namedPath(t) {
	case "time.Time", "math/big.Int", gvcPkg + ".Int":
		it.set(get(it.v.L[0]))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		l := it.v.L[0]
		if l.sort == SStr {
			n := atoi(get(x.strLen(l)))
			if n > 4096 {
				n = 4096
			}
			b := make([]byte, 0, n)
			for j := int64(0); j < n; j++ {
				if j < 24 {
					b = append(b, byte(atoi(get(x.strAt(l, I(j))))))
				} else {
					b = append(b, 'a')
				}
			}
			it.set(base64.StdEncoding.EncodeToString(b))
			return
		}
		it.set(get(l))
	case *types.Struct:
		m := map[string]any{}
		for i := 0; i < u.NumFields(); i++ {
			lo, hi := fieldRange(u, i)
			n := u.Field(i).Name()
			mprocess(w, x, st, mitem{v: Val{T: u.Field(i).Type(), L: it.v.L[lo:hi]}, set: func(a any) { m[n] = a }, depth: it.depth}, get, next)
		}
		it.set(m)
	case *types.Array:
		n := u.Len()
		if n > 64 {
			n = 64
		}
		l := make([]any, n)
		for i := int64(0); i < n; i++ {
			v := Val{T: u.Elem()}
			for _, a := range it.v.L {
				v.L = append(v.L, Select(a, I(i)))
			}
			i := i
			*next = append(*next, mitem{v: v, set: func(a any) { l[i] = a }, depth: it.depth + 1})
		}
		it.set(l)
	case *types.Slice:
		ref, n := get(it.v.L[0]), atoi(get(it.v.L[2]))
		if ref == "0" || n < 0 {
			it.set(nil)
			return
		}
		if n > 64 {
			n = 64
		}
		l := make([]any, n)
		at := arrOf(u.Elem())
		for i := int64(0); i < n; i++ {
			v := Val{T: u.Elem()}
			for _, lf := range leaves(at) {
				key, s := regionKey(at, lf)
				v.L = append(v.L, Select(Select(x.region(st, key, s), it.v.L[0]), Add(it.v.L[1], I(i))))
			}
			i := i
			*next = append(*next, mitem{v: v, set: func(a any) { l[i] = a }, depth: it.depth + 1})
		}
		it.set(l)
	case *types.Pointer:
		ref := get(it.v.L[0])
		if ref == "0" {
			it.set(nil)
			return
		}
		m := map[string]any{"id": ref + ":" + tstr(u.Elem())}
		v := Val{T: u.Elem()}
		for _, lf := range leaves(u.Elem()) {
			key, s := regionKey(u.Elem(), lf)
			v.L = append(v.L, Select(x.region(st, key, s), it.v.L[0]))
		}
		*next = append(*next, mitem{v: v, set: func(a any) { m["p"] = a }, depth: it.depth + 1})
		it.set(m)
	case *types.Interface:
		id := atoi(get(it.v.L[0]))
		dt := w.typeByID[id]
		if id == 0 || dt == nil {
			it.set(nil)
			return
		}
		m := map[string]any{"t": tstr(dt)}
		*next = append(*next, mitem{v: x.unbox(it.v.L[1], dt), set: func(a any) { m["v"] = a }, depth: it.depth + 1})
		it.set(m)
	default:
		it.set(nil)
	}
}

// ---------------------------------------------------------------- running contracts natively

type natFail struct {
	Contract string
	Label    string
	Panic    string
	From     string // model, search
	Seed     int64
	Iter     int
	Input    string
}

type natStat struct {
	Contract                 string
	Runs, Rejected, Executed int
}

// nativeRun compiles the contracts of the package with the real code (go test -overlay) and runs them on the given inputs
// and on generated ones.
func nativeRun(w *World, verif, pkgPath string, names []string, inputs map[string][]map[string]any, seed int, perContract time.Duration, deadline time.Time) (fails []natFail, stats []natStat, out string) {
	dir, err := os.MkdirTemp("", "gvc-native-")
	if err != nil {
		return nil, nil, err.Error()
	}
	defer os.RemoveAll(dir)
	repl := map[string]string{}
	i := 0
	for dst, b := range w.overlay {
		i++
		p := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		os.WriteFile(p, b, 0o644)
		repl[dst] = p
	}
	pkgDir := strings.TrimPrefix(strings.TrimPrefix(pkgPath, modPath), "/")
	var self *types.Package
	for _, p := range w.pkgs {
		if p.PkgPath == pkgPath {
			self = p.Types
		}
	}
	if self == nil {
		return nil, nil, "package not found"
	}
	imp := map[string]string{}
	avail := map[string]bool{pkgPath: true}
	for _, p := range self.Imports() {
		if strings.HasPrefix(p.Path(), modPath) {
			avail[p.Path()] = true
		}
	}
	qual := func(p *types.Package) string {
		if p.Path() == pkgPath {
			return ""
		}
		imp[p.Path()] = p.Name()
		return p.Name()
	}
	var sb, body strings.Builder
	for _, t := range w.concrete {
		base := t
		ptr := ""
		if p, ok := t.(*types.Pointer); ok {
			base = p.Elem()
			ptr = "*"
		}
		n, ok := types.Unalias(base).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || n.TypeArgs().Len() > 0 || !avail[n.Obj().Pkg().Path()] || n.Obj().Pkg().Path() == gvcPkg {
			continue
		}
		if n.Obj().Pkg().Path() != pkgPath && !n.Obj().Exported() || n.Obj().Parent() != n.Obj().Pkg().Scope() {
			continue
		}
		fmt.Fprintf(&body, "\tzzgvc.RegisterImpl[%s%s](%q)\n", ptr, types.TypeString(base, qual), tstr(t))
	}
	for _, gname := range w.gens[pkgPath] {
		fmt.Fprintf(&body, "\tzzgvc.RegisterGen(%s)\n", gname)
	}
	// generators of the imported packages
	var imps []string
	for p := range avail {
		imps = append(imps, p)
	}
	sort.Strings(imps)
	for _, ip := range imps {
		if ip == pkgPath || len(w.gens[ip]) == 0 {
			continue
		}
		var pn string
		for _, p := range w.pkgs {
			if p.PkgPath == ip {
				pn = p.Types.Name()
			}
		}
		var gb strings.Builder
		fmt.Fprintf(&gb, "package %s\n\nimport \"%s\"\n\nfunc ZZGVCGenerators() {\n", pn, gvcPkg)
		for _, gname := range w.gens[ip] {
			fmt.Fprintf(&gb, "\tzzgvc.RegisterGen(%s)\n", gname)
		}
		gb.WriteString("}\n")
		gf := filepath.Join(dir, fmt.Sprintf("gens%d.go", len(repl)))
		os.WriteFile(gf, []byte(gb.String()), 0o644)
		repl[filepath.Join(w.repo, strings.TrimPrefix(strings.TrimPrefix(ip, modPath), "/"), "zz_gvc_generators.go")] = gf
		imp[ip] = pn
		fmt.Fprintf(&body, "\t%s.ZZGVCGenerators()\n", pn)
	}
	fmt.Fprintf(&body, "\tzzgvc.Begin(%d)\n", seed)
	for _, n := range names {
		c := w.byName[n]
		if c == nil || c.pkg != pkgPath {
			continue
		}
		if w.nudges[n] != "" {
			fmt.Fprintf(&body, "\tzzgvc.RegisterNudge(%q, %s)\n", n, w.nudges[n])
		}
		in, _ := json.Marshal(inputs[n])
		if inputs[n] == nil {
			in = []byte("[]")
		}
		var ps []string
		for _, p := range c.fn.Params {
			ps = append(ps, p.Name())
		}
		fmt.Fprintf(&body, "\tzzgvc.RunContract(%q, %s, %v, %q, %q, %q, %d)\n", n, n, c.nopanic, strings.Join(ps, ","), c.split, string(in), perContract.Milliseconds())
	}
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\t\"%s\"\n", self.Name(), gvcPkg)
	for p, n := range imp {
		fmt.Fprintf(&sb, "\t%s %q\n", n, p)
	}
	sb.WriteString(")\n\nfunc TestGVCReplay(t *testing.T) {\n")
	sb.WriteString(body.String())
	sb.WriteString("}\n")
	tf := filepath.Join(dir, "replay_test.go")
	os.WriteFile(tf, []byte(sb.String()), 0o644)
	repl[filepath.Join(w.repo, pkgDir, "zz_gvc_replay_test.go")] = tf
	// the existing tests of the package are left out
	ents, _ := os.ReadDir(filepath.Join(w.repo, pkgDir))
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			repl[filepath.Join(w.repo, pkgDir, e.Name())] = ""
		}
	}
	ob, _ := json.Marshal(map[string]any{"Replace": repl})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, ob, 0o644)
	ctx, cancel := context.WithDeadline(context.Background(), deadline)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-overlay", of, "-vet=off", "-count=1", "-run", "^TestGVCReplay$", "-v", "-timeout", "1200s", "./"+pkgDir)
	cmd.Dir = w.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.WaitDelay = 2 * time.Second
	_ = cmd.Run()
	out = buf.String()
	for _, l := range strings.Split(out, "\n") {
		if s, ok := strings.CutPrefix(l, "GVCFAIL "); ok {
			var f natFail
			if json.Unmarshal([]byte(s), &f) == nil {
				fails = append(fails, f)
			}
		}
		if s, ok := strings.CutPrefix(l, "GVCSTAT "); ok {
			var f natStat
			if json.Unmarshal([]byte(s), &f) == nil {
				stats = append(stats, f)
			}
		}
	}
	return
}

var unsafeName = regexp.MustCompile(`[^A-Za-z0-9_.-]`)

// replay looks for a failing input of the real code: the models of the failed obligations first, then a search over
// generated inputs of the contracts involved. It writes the replay file.
func replay(repo, verif, prop string, viol []ObRes, p *pool, seed int, deadline time.Time, per0 time.Duration) map[string]any {
	res := map[string]any{"confirmed": false}
	path := filepath.Join(verif, "replay", prop+".txt")
	os.MkdirAll(filepath.Dir(path), 0o755)
	res["path"] = path
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: obligations not discharged\n\n", prop)
	failing := map[string]bool{}
	for _, o := range viol {
		fmt.Fprintf(&sb, "%s: contract %s, %s obligation %q at %s %s [%s]\n", o.Res, o.Contract, o.Kind, o.Label, o.Pos, o.Split, o.Who)
		failing[o.Contract] = true
	}
	defer func() { os.WriteFile(path, []byte(sb.String()), 0o644) }()
	w, err := loadWorld(repo, verif+"/contracts", []string{"./..."})
	if err != nil {
		fmt.Fprintf(&sb, "\nno replay: %v\n", err)
		return res
	}
	known := map[string]bool{}
	for _, f := range knownFindings(verif + "/known-findings.txt") {
		known[f.contract+"|"+f.label] = true
	}
	inputs := map[string][]map[string]any{}
	byPkg := map[string][]string{}
	// failing contracts first, then the other contracts of the property
	var order []string
	for n := range failing {
		order = append(order, n)
	}
	sort.Strings(order)
	var rest []string
	for n := range p.results {
		if !failing[n] {
			rest = append(rest, n)
		}
	}
	sort.Strings(rest)
	for _, set := range [][]string{order, rest} {
		byPkg = map[string][]string{}
		var pk []string
		for _, n := range set {
			c := w.byName[n]
			if c == nil {
				continue
			}
			if byPkg[c.pkg] == nil {
				pk = append(pk, c.pkg)
			}
			byPkg[c.pkg] = append(byPkg[c.pkg], n)
			if r := p.results[n]; r != nil {
				inputs[n] = r.Inputs
			}
		}
		for _, pkg := range pk {
			left := time.Until(deadline)
			if left < 20*time.Second {
				break
			}
			per := per0
			if d := (left - 15*time.Second) / time.Duration(len(byPkg[pkg])+1) / 2; d < per {
				per = d
			}
			fails, stats, out := nativeRun(w, verif, pkg, byPkg[pkg], inputs, seed, per, deadline)
			for _, s := range stats {
				fmt.Fprintf(&sb, "\nexecuted natively: %s: %d runs, %d rejected by the precondition", s.Contract, s.Runs, s.Rejected)
			}
			n := 0
			for _, f := range fails {
				if known[f.Contract+"|"+f.Label] {
					continue
				}
				n++
				fmt.Fprintf(&sb, "\n\nFAILING INPUT on the real code: contract %s violates %q %s (%s, seed %d, case %d)\n%s\n", f.Contract, f.Label, f.Panic, f.From, f.Seed, f.Iter, f.Input)
				fmt.Printf("failing input on the real code: %s violates %q %s\n", f.Contract, f.Label, f.Panic)
			}
			if n > 0 {
				res["confirmed"] = true
				fmt.Fprintf(&sb, "\nrerun: build/gvc native -seed %d %s\n", seed, fails[0].Contract)
				return res
			}
			if len(stats) == 0 {
				if len(out) > 3000 {
					out = out[:3000]
				}
				fmt.Fprintf(&sb, "\nnative run of %s gave no result:\n%s\n", pkg, out)
			}
		}
	}
	sb.WriteString("\n\nno failing input found; the verifier's output is listed above\n")
	return res
}
