package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// contractDecl is what can be learned about a contract from its text alone.
type contractDecl struct {
	name, file, target, pkgdir string
	props                      []string
	thorough, modular, nopanic bool
	bounded                    string
}

var declRe = regexp.MustCompile(`(?m)^func\s+([A-Za-z0-9_]+)`)

func declaredContracts(cdir string) []contractDecl {
	var out []contractDecl
	filepath.Walk(cdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(cdir, filepath.Dir(p))
		if rel == "zzgvc" {
			return nil
		}
		if rel == "root" {
			rel = "."
		}
		rel = strings.TrimPrefix(rel, "root/")
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.ParseComments)
		if err != nil {
			fmt.Println("contract file does not parse:", err)
			return nil
		}
		for _, d := range f.Decls {
			fd, ok := isFunc(d)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
				if !strings.HasPrefix(t, "gvc:contract") {
					continue
				}
				cd := contractDecl{name: fd.Name.Name, file: p, pkgdir: rel}
				for _, kv := range strings.Fields(t)[1:] {
					k, v, _ := strings.Cut(kv, "=")
					switch k {
					case "props":
						cd.props = strings.Split(v, ",")
					case "thorough":
						cd.thorough = true
					case "modular":
						cd.modular = true
					case "nopanic":
						cd.nopanic = true
					case "target":
						cd.target = v
					case "bounded":
						cd.bounded = v
					}
				}
				out = append(out, cd)
			}
		}
		return nil
	})
	return out
}

func worker(repo, verif string, scale float64) {
	out := bufio.NewWriter(os.Stdout)
	emit := func(v any) {
		b, _ := json.Marshal(v)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	w, err := loadWorld(repo, verif+"/contracts", []string{"./..."})
	if err != nil {
		emit(map[string]any{"fatal": err.Error()})
		return
	}
	emit(map[string]any{"ready": true, "dropped": w.dropped})
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		n := strings.TrimSpace(sc.Text())
		c := w.byName[n]
		if c == nil {
			emit(&ContractRes{Name: n, Obligs: []ObRes{{Contract: n, Label: "contract does not type-check against the current tree", Kind: "unsupported", Res: "unsupported"}}})
			continue
		}
		s0 := stats
		r := verify(w, c, 3, scale, false)
		r.Solver = map[string]int64{"z3": stats.z3 - s0.z3, "cvc5": stats.cvc5 - s0.cvc5, "simplified": stats.trivial - s0.trivial, "timeouts": stats.timeouts - s0.timeouts, "queries": stats.queries - s0.queries, "ms": (stats.nanos - s0.nanos) / 1e6}
		emit(r)
	}
}

type pool struct {
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []string
	seen    map[string]bool
	busy    int
	results map[string]*ContractRes
	fatal   string
	dropped []string
	decls   map[string]contractDecl
	end     time.Time
}

func (p *pool) next() (string, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.fatal != "" {
			return "", false
		}
		if len(p.queue) > 0 {
			n := p.queue[0]
			p.queue = p.queue[1:]
			p.busy++
			return n, true
		}
		if p.busy == 0 {
			return "", false
		}
		p.cond.Wait()
	}
}

func (p *pool) done(n string, r *ContractRes) {
	p.mu.Lock()
	p.results[n] = r
	p.busy--
	for _, u := range r.Used {
		if !p.seen[u] {
			p.seen[u] = true
			p.queue = append(p.queue, u)
		}
	}
	p.mu.Unlock()
	p.cond.Broadcast()
}

func (p *pool) runWorker(self, repo, verif string, scale float64) {
	n, ok := p.next()
	if !ok {
		return
	}
	for retry := 0; retry < 3 && ok; retry++ {
		cmd := exec.Command(self, "worker", "-repo", repo, "-verif", verif, "-scale", fmt.Sprint(scale))
		in, _ := cmd.StdinPipe()
		outp, _ := cmd.StdoutPipe()
		cmd.Stderr = io.Discard
		if os.Getenv("GVC_DEBUG") != "" {
			cmd.Stderr = os.Stderr
		}
		if err := cmd.Start(); err != nil {
			p.done(n, &ContractRes{Name: n, Obligs: []ObRes{{Contract: n, Label: "worker: " + err.Error(), Kind: "unsupported", Res: "unsupported"}}})
			return
		}
		lines := make(chan []byte)
		go func() {
			rd := bufio.NewReaderSize(outp, 1<<20)
			for {
				l, err := rd.ReadBytes('\n')
				if err != nil {
					close(lines)
					return
				}
				lines <- l
			}
		}()
		read := func() ([]byte, bool) {
			select {
			case l, ok := <-lines:
				return l, ok
			case <-time.After(time.Until(p.end)):
				return nil, false
			}
		}
		hello, okh := read()
		var h struct {
			Fatal   string
			Ready   bool
			Dropped []string
		}
		if okh {
			json.Unmarshal(hello, &h)
		}
		if h.Fatal != "" {
			p.mu.Lock()
			p.fatal = h.Fatal
			p.mu.Unlock()
			p.cond.Broadcast()
			cmd.Process.Kill()
			cmd.Wait()
			return
		}
		p.mu.Lock()
		p.dropped = h.Dropped
		p.mu.Unlock()
		for ok {
			fmt.Fprintln(in, n)
			l, okr := read()
			if !okr {
				break
			}
			var r ContractRes
			if err := json.Unmarshal(l, &r); err != nil {
				break
			}
			p.done(n, &r)
			retry = 0
			n, ok = p.next()
		}
		in.Close()
		cmd.Process.Kill()
		cmd.Wait()
		if !ok {
			return
		}
		if time.Now().After(p.end) {
			for ok {
				p.done(n, &ContractRes{Name: n, Obligs: []ObRes{{Contract: n, Label: "time budget of the check exhausted", Kind: "unsupported", Res: "unknown"}}})
				n, ok = p.next()
			}
			return
		}
	}
	if ok {
		p.done(n, &ContractRes{Name: n, Obligs: []ObRes{{Contract: n, Label: "the verifier did not finish this contract", Kind: "unsupported", Res: "unknown"}}})
		p.runWorker(self, repo, verif, scale)
	}
}

type finding struct {
	prop, contract, label, what string
}

// known findings: lines "finding: property=<id> contract=<name> label=<...> what=<...>" (fields separated by " | ").
func knownFindings(path string) []finding {
	b, _ := os.ReadFile(path)
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var f finding
		for _, p := range strings.Split(strings.TrimPrefix(l, "finding:"), " | ") {
			k, v, _ := strings.Cut(strings.TrimSpace(p), "=")
			switch k {
			case "property":
				f.prop = v
			case "contract":
				f.contract = v
			case "label":
				f.label = v
			case "what":
				f.what = v
			}
		}
		out = append(out, f)
	}
	return out
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func check(repo, verif, prop, tier string) int {
	t0 := time.Now()
	if t := os.Getenv("VERIF_TIER"); t != "" && tier == "" {
		tier = t
	}
	if tier == "" {
		tier = "quick"
	}
	seed := envInt("VERIF_SEED", 1)
	budget := 420 * time.Second
	scale := 1.0
	if tier == "thorough" {
		budget = 3600 * time.Second
		scale = 6
	}
	decls := declaredContracts(verif + "/contracts")
	p := &pool{seen: map[string]bool{}, results: map[string]*ContractRes{}, decls: map[string]contractDecl{}, end: t0.Add(budget)}
	p.cond = sync.NewCond(&p.mu)
	for _, d := range decls {
		p.decls[d.name] = d
	}
	for _, d := range decls {
		if has(d.props, prop) && (tier == "thorough" || !d.thorough) {
			p.seen[d.name] = true
			p.queue = append(p.queue, d.name)
		}
	}
	if len(p.queue) == 0 {
		fmt.Println("no contract for", prop)
		fmt.Printf("VIOLATION property=%s replay=none no-failing-input-found\n", prop)
		return 1
	}
	nw := len(p.queue)/2 + 1
	if nw > 6 {
		nw = 6
	}
	self, _ := os.Executable()
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); p.runWorker(self, repo, verif, scale) }()
	}
	wg.Wait()

	known := knownFindings(verif + "/known-findings.txt")
	isKnown := func(o ObRes) bool {
		for _, f := range known {
			if f.prop == prop && f.contract == o.Contract && f.label == o.Label {
				return true
			}
		}
		return false
	}
	open := func() (viol []ObRes) {
		for n := range p.results {
			for _, o := range p.results[n].Obligs {
				if o.Res != "proved" && !isKnown(o) {
					viol = append(viol, o)
				}
			}
		}
		return
	}
	// a short search for a failing input on the real code comes first; without one, obligations on which the solvers gave
	// up are tried once more with more time
	var replayInfo map[string]any
	if v := open(); len(v) > 0 && p.fatal == "" {
		replayInfo = replay(repo, verif, prop, v, p, seed, time.Now().Add(100*time.Second), 6*time.Second)
	}
	if replayInfo["confirmed"] != true {
		retryOpen(p, self, repo, verif, nw, t0.Add(budget+180*time.Second), scale)
	}

	var names []string
	for n := range p.results {
		names = append(names, n)
	}
	sort.Strings(names)
	total, disch := 0, 0
	by := map[string]int64{}
	var solverMs int64
	touched, trust, assumed, notes := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	targets := map[string]bool{}
	var bad []ObRes
	perContract := []map[string]any{}
	var bounded []string
	for _, n := range names {
		r := p.results[n]
		ok := 0
		for _, o := range r.Obligs {
			total++
			if o.Res == "proved" {
				disch++
				ok++
				by[o.Who]++
			} else {
				bad = append(bad, o)
			}
		}
		for k, v := range r.Solver {
			if k == "ms" {
				solverMs += v
			}
		}
		for _, f := range r.Touched {
			touched[f] = true
		}
		for _, f := range r.Trusted {
			trust[f] = true
		}
		for _, f := range r.Assumed {
			assumed[f] = true
		}
		for _, f := range r.Notes {
			notes[f] = true
		}
		if t := p.decls[n].target; t != "" {
			targets[t] = true
		}
		if b := p.decls[n].bounded; b != "" {
			bounded = append(bounded, n+": "+b)
		}
		perContract = append(perContract, map[string]any{"contract": n, "target": p.decls[n].target, "obligations": len(r.Obligs), "discharged": ok, "ms": r.Ms})
	}
	if p.fatal != "" {
		bad = append(bad, ObRes{Contract: "(load)", Label: p.fatal, Kind: "unsupported", Res: "unsupported"})
	}
	// known findings
	var viol []ObRes
	knownHit := 0
	for _, o := range bad {
		hit := false
		for _, f := range known {
			if f.prop == prop && f.contract == o.Contract && f.label == o.Label {
				hit = true
				knownHit++
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s: %s)\n", prop, f.what, f.contract, f.label)
				break
			}
		}
		if !hit {
			viol = append(viol, o)
		}
	}
	tb := []string{
		"gvc (/verif/gvc): symbolic execution of the go/ssa form of /repo's current source and its verification-condition generator",
		"go/types, go/ssa (golang.org/x/tools v0.52.0)",
		"solvers z3 5.x, cvc5 1.1.2, z3 4.8.12 (an obligation is discharged when one answers unsat)",
	}
	for _, t := range keys(trust) {
		tb = append(tb, "model of external function "+t)
	}
	as := []string{
		"partial correctness: termination of loops and recursion is not proved",
		"64-bit platform; slices and maps shorter than 2^40 elements; memory exhaustion ignored",
		"append is modelled as copying into fresh memory (writes of one slice are not seen through the spare capacity of another)",
		"interface values have one of the dynamic types converted to an interface somewhere in the module (closed world)",
		"single-threaded execution of each function",
	}
	as = append(as, keys(assumed)...)
	as = append(as, keys(notes)...)
	for _, d := range p.dropped {
		as = append(as, "contract dropped (does not type-check): "+d)
	}

	code := 0
	if len(viol) > 0 {
		code = 1
		fmt.Printf("%d of %d obligations are not discharged:\n", len(viol), total)
		for _, o := range viol {
			fmt.Printf("  %s %s [%s] %s %s %s\n", o.Res, o.Contract, o.Kind, o.Label, o.Pos, o.Split)
		}
		deadline := t0.Add(560 * time.Second)
		if tier == "thorough" {
			deadline = time.Now().Add(900 * time.Second)
		}
		if replayInfo["confirmed"] != true {
			replayInfo = replay(repo, verif, prop, viol, p, seed, deadline, 10*time.Second)
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
		"assumptions": as,
		"coverage": map[string]any{
			"obligations": total, "discharged": disch, "checker_cmd": "bash /verif/check.sh " + prop + " " + tier,
			"trusted_base": tb, "contracts": len(names), "functions_under_contract": keys(targets), "functions_executed": keys(touched),
			"discharged_by": by, "solver_seconds": float64(solverMs) / 1000, "per_contract": perContract, "bounded": bounded, "known_findings": knownHit,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(verif+"/evidence", 0o755)
	os.WriteFile(verif+"/evidence/"+prop+".json", b, 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d contracts, %d functions, solver %.1fs, wall %.1fs\n", prop, total, disch, len(names), len(touched), float64(solverMs)/1000, time.Since(t0).Seconds())
	if code == 1 {
		suffix := " no-failing-input-found"
		if replayInfo["confirmed"] == true {
			suffix = ""
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replayInfo["path"], suffix)
	}
	return code
}

func retryOpen(p *pool, self, repo, verif string, nw int, end time.Time, scale float64) {
	// obligations on which the solvers gave up are tried once more with more time
	var again []string
	for n, r := range p.results {
		for _, o := range r.Obligs {
			if o.Res == "unknown" && o.Kind != "unsupported" {
				again = append(again, n)
				break
			}
		}
	}
	if len(again) > 0 && p.fatal == "" && time.Now().Before(end) {
		var wg sync.WaitGroup
		sort.Strings(again)
		p2 := &pool{seen: p.seen, results: map[string]*ContractRes{}, decls: p.decls, end: end, queue: again}
		p2.cond = sync.NewCond(&p2.mu)
		for i := 0; i < nw && i < len(again); i++ {
			wg.Add(1)
			go func() { defer wg.Done(); p2.runWorker(self, repo, verif, scale*3) }()
		}
		wg.Wait()
		for n, r := range p2.results {
			open := 0
			for _, o := range r.Obligs {
				if o.Res != "proved" {
					open++
				}
			}
			was := 0
			for _, o := range p.results[n].Obligs {
				if o.Res != "proved" {
					was++
				}
			}
			if open < was {
				p.results[n] = r
			}
		}
	}
}
