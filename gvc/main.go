package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gvc run|list|check|worker ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "", "")
	verbose := fs.Bool("v", false, "")
	scale := fs.Float64("scale", 1, "")
	seed := fs.Int("seed", 1, "")
	secs := fs.Float64("secs", 2, "")
	fs.Parse(os.Args[2:])
	pats := fs.Args()
	if len(pats) == 0 {
		pats = []string{".*"}
	}
	switch cmd {
	case "list":
		w, err := loadWorld(*repo, *verif+"/contracts", []string{"./..."})
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, c := range w.contracts {
			fmt.Println(c.name, c.targetName, c.target, c.props)
		}
	case "run":
		t0 := time.Now()
		w, err := loadWorld(*repo, *verif+"/contracts", []string{"./..."})
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		fmt.Fprintf(os.Stderr, "loaded in %v\n", time.Since(t0).Round(time.Millisecond))
		for _, d := range w.dropped {
			fmt.Println("DROPPED", d)
		}
		for _, pat := range pats {
			re := regexp.MustCompile("^(" + pat + ")$")
			for _, c := range w.contracts {
				if !re.MatchString(c.name) || *prop != "" && !has(c.props, *prop) {
					continue
				}
				r := verify(w, c, 8, *scale, *verbose)
				printRes(r, *verbose)
			}
		}
	case "native":
		w, err := loadWorld(*repo, *verif+"/contracts", []string{"./..."})
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		by := map[string][]string{}
		for _, pat := range pats {
			re := regexp.MustCompile("^(" + pat + ")$")
			for _, c := range w.contracts {
				if re.MatchString(c.name) && (*prop == "" || has(c.props, *prop)) {
					by[c.pkg] = append(by[c.pkg], c.name)
				}
			}
		}
		for pkg, names := range by {
			fails, stats, out := nativeRun(w, *verif, pkg, names, nil, *seed, time.Duration(*secs*float64(time.Second)), time.Now().Add(1000*time.Second))
			for _, s := range stats {
				fmt.Printf("%s: runs %d rejected %d\n", s.Contract, s.Runs, s.Rejected)
			}
			for _, f := range fails {
				fmt.Printf("FAIL %s %q %s (iter %d)\n%s\n", f.Contract, f.Label, f.Panic, f.Iter, f.Input)
			}
			if len(stats) == 0 || *verbose {
				fmt.Println(out)
			}
		}
	case "check":
		os.Exit(check(*repo, *verif, *prop, *tier))
	case "worker":
		worker(*repo, *verif, *scale)
	}
}

func has(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

func printRes(r *ContractRes, verbose bool) {
	ok := 0
	for _, o := range r.Obligs {
		if o.Res == "proved" {
			ok++
		}
	}
	st := "OK  "
	if ok != len(r.Obligs) || r.Cover != "ok" {
		st = "FAIL"
	}
	fmt.Printf("%s %-40s %d/%d  %dms cover=%s\n", st, r.Name, ok, len(r.Obligs), r.Ms, r.Cover)
	for _, o := range r.Obligs {
		if o.Res != "proved" || verbose {
			fmt.Printf("     %-11s %-8s %s  %s %s (%s %dms)\n", o.Res, o.Kind, o.Label, o.Pos, o.Split, o.Who, o.Ms)
		}
	}
	if verbose {
		fmt.Println("     functions:", strings.Join(r.Touched, " "))
		fmt.Println("     trusted:", strings.Join(r.Trusted, " "))
		fmt.Println("     assumed:", strings.Join(r.Assumed, " "))
		fmt.Println("     used:", strings.Join(r.Used, " "))
		fmt.Println("     notes:", strings.Join(r.Notes, " "))
	}
}
