package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/iotaledger/iota.go/v4"

type Contract struct {
	name        string
	file        string
	line        int
	fn          *ssa.Function
	target      *ssa.Function
	targetName  string
	props       []string
	modular     bool
	pure        bool
	unroll      int
	timeout     int
	invTimeout  int
	nopanic     bool
	paths       bool   // the return paths of the target are verified one by one
	split       string // param:lo..hi
	thorough    bool
	bounded     string
	opaque      []string
	opaqueFn    map[*ssa.Function]bool
	freshWrites string
	stable      bool
	opaqueM     map[string]bool
	opaqueArgs  map[*ssa.Function][]int
	invs        []*invTemplate
	pkg         string
	doc         string
	gen         string
}

type invTemplate struct {
	fn      *ssa.Function
	src     *invSource
	needMap bool
}

type World struct {
	repo      string
	prog      *ssa.Program
	pkgs      []*packages.Package
	loops     map[*ssa.Function]*loopInfo
	typeIDs   map[string]int64
	typeByID  map[int64]types.Type
	cands     map[string][]types.Type
	concrete  []types.Type
	contracts []*Contract
	byName    map[string]*Contract
	modular   map[*ssa.Function][]*Contract
	specFn    map[*ssa.Function]bool
	notes     map[string]bool
	trusted   map[string]bool
	assumed   map[string]bool
	usedC     map[string]bool
	dropped   []string
	touched   map[string]bool
	errIDs    map[string]*Term
	storedG   map[*ssa.Global]bool
	initStore map[*ssa.Global]ssa.Value
	initDone  map[*ssa.Package]bool
	overlay   map[string][]byte
	gens      map[string][]string
	nudges    map[string]string
	ghosts    map[*ssa.Function]bool
}

func (w *World) note(s string)       { w.notes[s] = true }
func (w *World) trust(s string)      { w.trusted[s] = true }
func (w *World) assumption(s string) { w.assumed[s] = true }
func (w *World) used(c *Contract)    { w.usedC[c.name] = true }
func (w *World) mapPtrNonNil(t types.Type) bool {
	return false
}

// overlayFor collects the contract files: /verif/contracts/<pkg dir>/*.go -> <repo>/<pkg dir>/zz_gvc_*.go.
func overlayFor(repo, cdir string) (map[string][]byte, map[string]string) {
	ov := map[string][]byte{}
	paths := map[string]string{}
	filepath.Walk(cdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(cdir, p)
		dir, base := filepath.Split(rel)
		if dir == "root/" {
			dir = ""
		} else if strings.HasPrefix(dir, "root/") {
			dir = strings.TrimPrefix(dir, "root/")
		}
		dst := filepath.Join(repo, dir, "zz_gvc_"+base)
		if strings.HasPrefix(rel, "zzgvc/") {
			dst = filepath.Join(repo, "zzgvc", base)
		}
		b, err := os.ReadFile(p)
		if err == nil {
			ov[dst] = b
			paths[dst] = p
		}
		return nil
	})
	return ov, paths
}

// loadWorld type-checks /repo with the contracts. Contract functions that do not type-check against the current tree are
// removed (function by function) and reported.
func loadWorld(repo, cdir string, pkgPatterns []string) (*World, error) {
	ov, _ := overlayFor(repo, cdir)
	var dropped []string
	var pkgs []*packages.Package
	for round := 0; ; round++ {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off")}
		var err error
		pkgs, err = packages.Load(cfg, pkgPatterns...)
		if err != nil {
			return nil, err
		}
		bad := map[string]map[int]string{}
		other := []string{}
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				f, l := splitPos(e.Pos)
				if _, ok := ov[f]; ok && !strings.Contains(f, "/zzgvc/") {
					if bad[f] == nil {
						bad[f] = map[int]string{}
					}
					bad[f][l] = e.Msg
				} else {
					other = append(other, e.Error())
				}
			}
		})
		if len(bad) == 0 {
			if len(other) > 0 {
				return nil, fmt.Errorf("repository does not type-check: %s", strings.Join(other, "; "))
			}
			break
		}
		if round > 12 {
			return nil, fmt.Errorf("contracts do not type-check: %v", bad)
		}
		for f, ls := range bad {
			nb, names := dropFuncs(f, ov[f], ls)
			ov[f] = nb
			for _, n := range names {
				dropped = append(dropped, n)
			}
		}
	}
	w := &World{repo: repo, pkgs: pkgs, loops: map[*ssa.Function]*loopInfo{}, typeIDs: map[string]int64{}, typeByID: map[int64]types.Type{}, cands: map[string][]types.Type{}, byName: map[string]*Contract{}, modular: map[*ssa.Function][]*Contract{}, specFn: map[*ssa.Function]bool{}, notes: map[string]bool{}, trusted: map[string]bool{}, assumed: map[string]bool{}, usedC: map[string]bool{}, touched: map[string]bool{}, errIDs: map[string]*Term{}, storedG: map[*ssa.Global]bool{}, initStore: map[*ssa.Global]ssa.Value{}, initDone: map[*ssa.Package]bool{}, dropped: dropped, overlay: ov, gens: map[string][]string{}, nudges: map[string]string{}, ghosts: map[*ssa.Function]bool{}}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	w.prog = prog
	for _, p := range prog.AllPackages() {
		if w.wantBuild(p.Pkg.Path()) {
			p.Build()
		}
	}
	w.scan()
	w.findContracts(pkgs)
	return w, nil
}

func splitPos(pos string) (string, int) {
	p := strings.Split(pos, ":")
	if len(p) < 2 {
		return pos, 0
	}
	l, _ := strconv.Atoi(p[1])
	return p[0], l
}

var stdInline = map[string]bool{"slices": true, "cmp": true, "sort": true, "encoding/binary": true, "maps": true, "internal/byteorder": true, "iter": true}

func (w *World) wantBuild(path string) bool {
	return strings.HasPrefix(path, modPath) || strings.HasPrefix(path, "github.com/iotaledger/hive.go/lo") || strings.HasPrefix(path, "github.com/iotaledger/hive.go/core/safemath") || strings.HasPrefix(path, "github.com/iotaledger/hive.go/runtime/options") || strings.HasPrefix(path, "github.com/iotaledger/hive.go/serializer") || stdInline[path]
}

func (w *World) inlinable(fn *ssa.Function) bool {
	o := originOf(fn)
	if fn.Blocks == nil {
		return false
	}
	p := o.Pkg
	if p == nil {
		// wrappers, bound methods, instances
		if o.Object() != nil && o.Object().Pkg() != nil {
			return w.wantBuild(o.Object().Pkg().Path())
		}
		if fn.Parent() != nil {
			return w.inlinable(fn.Parent())
		}
		return true
	}
	path := p.Pkg.Path()
	return w.wantBuild(path)
}

func (w *World) opaquePkg(fn *ssa.Function) bool { return false }

// scan collects the concrete types that are converted to interfaces anywhere in the module and global initialisers.
func (w *World) scan() {
	seen := map[string]bool{}
	add := func(t types.Type) {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return
		}
		k := tstr(t)
		if seen[k] {
			return
		}
		seen[k] = true
		w.concrete = append(w.concrete, t)
	}
	fns := ssautil.AllFunctions(w.prog)
	var list []*ssa.Function
	for f := range fns {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool {
		if list[i].String() != list[j].String() {
			return list[i].String() < list[j].String()
		}
		return list[i].Pos() < list[j].Pos()
	})
	for _, f := range list {
		pk := ""
		if o := originOf(f); o.Pkg != nil {
			pk = o.Pkg.Pkg.Path()
		} else if f.Parent() != nil && f.Parent().Pkg != nil {
			pk = f.Parent().Pkg.Pkg.Path()
		}
		isMod := strings.HasPrefix(pk, modPath)
		isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeInterface:
					if isMod {
						add(in.X.Type())
					}
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok {
						if isInit && f.Name() == "init" {
							if _, dup := w.initStore[g]; dup {
								w.storedG[g] = true
							}
							w.initStore[g] = in.Val
						} else {
							w.storedG[g] = true
						}
					}
				}
			}
		}
	}
	sort.Slice(w.concrete, func(i, j int) bool { return tstr(w.concrete[i]) < tstr(w.concrete[j]) })
	for _, t := range w.concrete {
		w.typeID(t)
	}
}

func (w *World) typeID(t types.Type) int64 {
	k := tstr(t)
	if id, ok := w.typeIDs[k]; ok {
		return id
	}
	id := int64(len(w.typeIDs) + 1)
	w.typeIDs[k] = id
	w.typeByID[id] = t
	return id
}

func (w *World) errTag() int64 {
	if id, ok := w.typeIDs["$error"]; ok {
		return id
	}
	id := int64(len(w.typeIDs) + 1)
	w.typeIDs["$error"] = id
	return id
}

func (w *World) errConst(name string) *Term {
	if t, ok := w.errIDs[name]; ok {
		return t
	}
	t := I(int64(1000000 + len(w.errIDs)))
	w.errIDs[name] = t
	return t
}

// candidates: dynamic types an interface value can have (closed world: types converted to interfaces in the module).
func (w *World) candidates(it types.Type) []types.Type {
	k := tstr(it)
	if c, ok := w.cands[k]; ok {
		return c
	}
	i := it.Underlying().(*types.Interface)
	var r []types.Type
	for _, t := range w.concrete {
		if !types.Implements(t, i) {
			continue
		}
		base := t
		if p, ok := t.(*types.Pointer); ok {
			base = p.Elem()
		}
		n, ok := types.Unalias(base).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			if i.NumMethods() > 0 {
				continue
			}
		} else {
			pp := n.Obj().Pkg().Path()
			if strings.HasSuffix(pp, "/tpkg") || strings.HasSuffix(pp, "/nodeclient") || strings.HasSuffix(pp, "/api") || n.Obj().Name() == "nilT" {
				continue
			}
		}
		r = append(r, t)
	}
	// value receivers: prefer T over *T when both appear
	var out []types.Type
	for _, t := range r {
		if p, ok := t.(*types.Pointer); ok {
			dup := false
			for _, u := range r {
				if tstr(u) == tstr(p.Elem()) {
					dup = true
				}
			}
			if dup {
				continue
			}
		}
		out = append(out, t)
	}
	w.cands[k] = out
	return out
}

func (w *World) method(t types.Type, m *types.Func) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

func (w *World) globalIsErr(g *ssa.Global) bool {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	return types.Identical(t, types.Universe.Lookup("error").Type()) && !w.storedG[g]
}

// globalInitVal evaluates the initialiser of a package variable when it is assigned exactly once, in init.
func (w *World) globalInitVal(x *Exec, st *State, g *ssa.Global) (v Val, ok bool) {
	if w.storedG[g] {
		return Val{}, false
	}
	if w.globalIsErr(g) {
		return Val{}, false
	}
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "github.com/ethereum/go-ethereum/common" && strings.HasPrefix(g.Name(), "Big") {
		if n, err := strconv.Atoi(g.Name()[3:]); err == nil {
			t := g.Type().Underlying().(*types.Pointer).Elem()
			w.notes["common.Big0, Big1, … of go-ethereum are never modified"] = true
			return models["math/big.NewInt"](x, st, []Val{scalar(types.Typ[types.Int64], I(int64(n)))}, t, 0), true
		}
	}
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "github.com/ethereum/go-ethereum/accounts/abi" && g.Name() == "MaxUint256" {
		w.notes["abi.MaxUint256 of go-ethereum is 2^256-1 and is never modified"] = true
		v := models["math/big.NewInt"](x, st, []Val{scalar(types.Typ[types.Int64], I(0))}, g.Type().Underlying().(*types.Pointer).Elem(), 0)
		x.bigSet(st, v, Sub(IntC(pow2(256)), I(1)), 0)
		return v, true
	}
	iv, has := w.initStore[g]
	elem := g.Type().Underlying().(*types.Pointer).Elem()
	if !has {
		if g.Pkg != nil && w.wantBuild(g.Pkg.Pkg.Path()) && !w.partlyInit(g) {
			return zeroVal(elem), true
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(unsupported); is {
				debugf("global %s: %s", g, string(u))
				v, ok = Val{}, false
				return
			}
			panic(r)
		}
	}()
	if g.Pkg == nil || g.Pkg.Func("init") == nil {
		return Val{}, false
	}
	ini := g.Pkg.Func("init")
	// slice of the init function: evaluate the defining instructions of iv (and stores into its allocations)
	env := &initEval{x: x, st: st, fn: ini, memo: map[ssa.Value]Val{}}
	fr := x.fr
	sq, np, rec, env0 := x.quiet, x.nopanic, x.rec, st.env
	x.quiet++
	x.nopanic = false
	x.rec = nil
	x.fr = &Frame{fn: ini, parent: fr}
	st.env = map[ssa.Value]Val{}
	defer func() { x.fr = fr; x.quiet = sq; x.nopanic = np; x.rec = rec; st.env = env0 }()
	if has {
		r := env.eval(iv)
		r = x.plain(st, r)
		r.T = elem
		return r, true
	}
	// composite literal stored field by field
	return env.evalGlobal(g)
}

// partlyInit: init stores into parts of the global.
func (w *World) partlyInit(g *ssa.Global) bool {
	refs := 0
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						refs++
					}
				}
			}
		}
	}
	return refs > 0
}

type initEval struct {
	x    *Exec
	st   *State
	fn   *ssa.Function
	memo map[ssa.Value]Val
}

func (e *initEval) eval(v ssa.Value) Val {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global:
		return e.x.val(e.st, v)
	}
	if r, ok := e.memo[v]; ok {
		return r
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		panic(unsupported("init value"))
	}
	if _, isPhi := in.(*ssa.Phi); isPhi {
		panic(unsupported("phi in init"))
	}
	for _, op := range in.Operands(nil) {
		if *op == nil {
			continue
		}
		switch (*op).(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			continue
		}
		ov := e.eval(*op)
		e.st.env[*op] = ov
	}
	ns := e.x.instr(e.x.fr, e.st, in)
	if ns == nil {
		panic(unsupported("init path"))
	}
	if ns != e.st {
		panic(unsupported("init state"))
	}
	r := e.st.env[v]
	e.memo[v] = r
	// stores into a fresh allocation / map updates, in program order
	switch in.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		e.stores(v)
		r = e.st.env[v]
	}
	return r
}

func (e *initEval) evalGlobal(g *ssa.Global) (Val, bool) {
	panic(unsupported("composite global"))
}

func (e *initEval) stores(v ssa.Value) {
	refs := v.Referrers()
	if refs == nil {
		return
	}
	var l []ssa.Instruction
	l = append(l, *refs...)
	sort.SliceStable(l, func(i, j int) bool { return instrIdx(l[i]) < instrIdx(l[j]) })
	for _, in := range l {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Addr == v {
				e.exec(in)
			}
		case *ssa.MapUpdate:
			if in.Map == v {
				e.exec(in)
			}
		case *ssa.IndexAddr:
			if in.X == v {
				e.eval(in)
				e.stores(in)
			}
		case *ssa.FieldAddr:
			if in.X == v {
				e.eval(in)
				e.stores(in)
			}
		}
	}
}

func instrIdx(in ssa.Instruction) int {
	n := in.Block().Index * 1000000
	for i, x := range in.Block().Instrs {
		if x == in {
			return n + i
		}
	}
	return n
}

func (e *initEval) exec(in ssa.Instruction) {
	for _, op := range in.Operands(nil) {
		if *op == nil {
			continue
		}
		switch (*op).(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			continue
		}
		ov := e.eval(*op)
		e.st.env[*op] = ov
	}
	e.x.instr(e.x.fr, e.st, in)
}

// ---------------------------------------------------------------- contracts

func (w *World) findContracts(pkgs []*packages.Package) {
	type invDecl struct {
		fn   *ssa.Function
		for_ []string
	}
	var invs []invDecl
	for _, p := range pkgs {
		sp := w.prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for _, f := range p.Syntax {
			fname := w.prog.Fset.Position(f.Pos()).Filename
			if !strings.Contains(filepath.Base(fname), "zz_gvc_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					switch {
					case strings.HasPrefix(t, "gvc:contract"):
						ct := &Contract{name: fd.Name.Name, file: fname, line: w.prog.Fset.Position(fd.Pos()).Line, pkg: p.PkgPath, fn: sp.Func(fd.Name.Name), timeout: 20000}
						for _, kv := range strings.Fields(t)[1:] {
							k, v, _ := strings.Cut(kv, "=")
							switch k {
							case "target":
								ct.targetName = v
							case "props":
								ct.props = strings.Split(v, ",")
							case "modular":
								ct.modular = true
							case "pure":
								ct.pure = true
							case "nopanic":
								ct.nopanic = true
							case "thorough":
								ct.thorough = true
							case "unroll":
								ct.unroll, _ = strconv.Atoi(v)
							case "timeout":
								ct.timeout, _ = strconv.Atoi(v)
							case "invtimeout":
								ct.invTimeout, _ = strconv.Atoi(v)
							case "stable":
								ct.stable = true
								w.notes["the functions treated as uninterpreted within "+ct.name+" do not read what the function under contract writes"] = true
							case "paths":
								ct.paths = true
							case "split":
								ct.split = v
							case "bounded":
								ct.bounded = v
							case "opaque":
								ct.opaque = strings.Split(v, ",")
							case "freshwrites":
								ct.freshWrites = v
							case "gen":
								ct.gen = v
							}
						}
						ct.doc = fd.Doc.Text()
						w.contracts = append(w.contracts, ct)
						w.byName[ct.name] = ct
					case strings.HasPrefix(t, "gvc:ghost"):
						w.ghosts[sp.Func(fd.Name.Name)] = true
					case strings.HasPrefix(t, "gvc:nudge"):
						w.nudges["c_"+strings.TrimPrefix(fd.Name.Name, "nudge_")] = fd.Name.Name
					case strings.HasPrefix(t, "gvc:gen"):
						w.gens[p.PkgPath] = append(w.gens[p.PkgPath], fd.Name.Name)
					case strings.HasPrefix(t, "gvc:invariant"):
						iv := invDecl{fn: sp.Func(fd.Name.Name)}
						for _, kv := range strings.Fields(t)[1:] {
							k, v, _ := strings.Cut(kv, "=")
							if k == "for" {
								iv.for_ = strings.Split(v, ",")
							}
						}
						invs = append(invs, iv)
					}
				}
			}
		}
		_ = sp
	}
	for _, iv := range invs {
		needMap := callsIntrinsic(iv.fn, "VisitedSum") || callsIntrinsic(iv.fn, "VisitedForall")
		for _, n := range iv.for_ {
			for _, c := range w.contracts {
				if c.name == n || n == "*" && c.pkg == iv.fn.Pkg.Pkg.Path() {
					c.invs = append(c.invs, &invTemplate{fn: iv.fn, src: &invSource{name: iv.fn.Name()}, needMap: needMap})
				}
			}
		}
	}
	// resolve targets
	byStr := map[string]*ssa.Function{}
	for f := range ssautil.AllFunctions(w.prog) {
		if o := f.Origin(); o != nil && o.Synthetic == "" {
			byStr[o.String()] = o
		}
		if f.Origin() != nil || f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "package init") {
			continue
		}
		byStr[f.String()] = f
	}
	byShort := map[string]*ssa.Function{}
	for _, f := range byStr {
		byShort[shortName(f)] = f
	}
	for _, c := range w.contracts {
		for _, n := range c.opaque {
			if strings.HasPrefix(n, "iface:") {
				if c.opaqueM == nil {
					c.opaqueM = map[string]bool{}
				}
				c.opaqueM[n[len("iface:"):]] = true
			}
			n, sel, some := strings.Cut(n, "@")
			if f := byShort[n]; f != nil {
				if some {
					// the outcome of a call is identified by some of the arguments (which differ from call to call)
					if c.opaqueArgs == nil {
						c.opaqueArgs = map[*ssa.Function][]int{}
					}
					for _, a := range strings.Split(sel, "+") {
						i, _ := strconv.Atoi(a)
						c.opaqueArgs[f] = append(c.opaqueArgs[f], i)
					}
				}
				if c.opaqueFn == nil {
					c.opaqueFn = map[*ssa.Function]bool{}
				}
				c.opaqueFn[f] = true
			}
		}
		if c.targetName == "" {
			continue
		}
		if f := w.lookupTarget(byStr, c); f != nil {
			c.target = f
			if c.modular {
				w.modular[f] = append(w.modular[f], c)
			}
		}
	}
	sort.Slice(w.contracts, func(i, j int) bool { return w.contracts[i].name < w.contracts[j].name })
}

// modularFor returns the contract used at calls of fn. Contracts of generic functions are written for one instance each.
func (w *World) modularFor(fn *ssa.Function) *Contract {
	o := originOf(fn)
	for _, c := range w.modular[o] {
		if o == fn {
			return c
		}
		if len(c.fn.Params) == len(fn.Params) {
			same := true
			for i := range fn.Params {
				if !types.Identical(c.fn.Params[i].Type(), fn.Params[i].Type()) {
					same = false
				}
			}
			if same {
				return c
			}
		}
	}
	return nil
}

// isTarget: fn is (the right instance of) the target of the contract.
func (c *Contract) isTarget(fn *ssa.Function) bool {
	o := originOf(fn)
	if c.target == nil || c.target != o {
		return false
	}
	if o == fn || !c.modular || len(c.fn.Params) != len(fn.Params) {
		return true
	}
	for i := range fn.Params {
		if !types.Identical(c.fn.Params[i].Type(), fn.Params[i].Type()) {
			return false
		}
	}
	return true
}

// lookupTarget resolves names like (*T).M, T.M or F relative to the package of the contract, or with a package path
// relative to the module (vm.F).
func (w *World) lookupTarget(m map[string]*ssa.Function, c *Contract) *ssa.Function {
	n := c.targetName
	var try []string
	switch {
	case strings.HasPrefix(n, "(*"):
		try = append(try, "(*"+c.pkg+"."+n[2:], "("+c.pkg+"."+n[2:])
	case strings.HasPrefix(n, "("):
		try = append(try, "("+c.pkg+"."+n[1:], "(*"+c.pkg+"."+n[1:])
	case strings.Contains(n, "."):
		t, mm, _ := strings.Cut(n, ".")
		try = append(try, "("+c.pkg+"."+t+")."+mm, "(*"+c.pkg+"."+t+")."+mm)
	default:
		try = append(try, c.pkg+"."+n)
	}
	for _, t := range try {
		if f := m[t]; f != nil {
			return f
		}
	}
	return nil
}

func callsIntrinsic(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && originOf(f).Name() == name && originOf(f).Pkg != nil && originOf(f).Pkg.Pkg.Path() == gvcPkg {
					return true
				}
			}
		}
	}
	return false
}

var _ = fmt.Sprint
