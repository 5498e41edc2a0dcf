package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gover fn|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "fn":
		cmdFn(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func setup(repo, spec string) *Global {
	g, err := Load(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	g.spec, err = LoadSpecs(spec)
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(3)
	}
	n := runtime.NumCPU()
	g.pool = NewPool(n)
	g.noAux = map[string]bool{}
	g.budgetCand = 700
	g.budgetOb = 10000
	g.fnBudget = 300
	g.prepare()
	return g
}

func cmdFn(args []string) {
	fs := flag.NewFlagSet("fn", flag.ExitOnError)
	repo := fs.String("repo", "/repo/v2", "")
	spec := fs.String("spec", rootDir()+"/contracts", "")
	prop := fs.String("prop", "", "")
	conc := fs.Bool("conc", false, "")
	verb := fs.Bool("v", false, "")
	fs.Parse(args)
	g := setup(*repo, *spec)
	for _, n := range fs.Args() {
		var names []string
		if g.spec.contracts[n] != nil {
			names = []string{n}
		} else {
			for _, o := range g.spec.order {
				if strings.Contains(o, n) {
					names = append(names, o)
				}
			}
		}
		for _, n := range names {
			r := g.verify(*prop, g.spec.contracts[n], *conc)
			show(r, *verb)
		}
	}
	for k, v := range g.pool.n {
		fmt.Printf("  solver %s: %d calls %.1fs\n", k, v, g.pool.time[k].Seconds())
	}
}

func show(r *FnRes, verb bool) {
	ok := 0
	for _, o := range r.obs {
		if o.done {
			ok++
		}
	}
	fmt.Printf("%s [%s]: %d/%d obligations, %d loops, %d invariants, returns %d reachable %d, pre %s, %.1fs\n", r.name, r.mode, ok, len(r.obs), r.loops, r.invKept, r.returns, r.reach, r.preSat, r.dur.Seconds())
	if r.abort != "" {
		fmt.Println("   ABORT", r.abort)
	}
	if r.missing {
		fmt.Println("   MISSING")
	}
	cnt := map[string]int{}
	for _, o := range r.obs {
		if !o.done {
			k := fmt.Sprintf("%s %s %s (%s)", o.kind, o.name, o.pos, o.res.res)
			cnt[k]++
			if d := os.Getenv("GOVER_DUMP"); d != "" && cnt[k] == 1 {
				f := fmt.Sprintf("%s/%s-%d.smt2", d, strings.Map(func(r rune) rune {
					if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
						return r
					}
					return '_'
				}, o.name), len(cnt))
				os.WriteFile(f, []byte("; "+k+"\n"+strings.ReplaceAll("; "+o.traceText(), "\n", "\n; ")+"\n"+o.query), 0644)
			}
			if verb {
				fmt.Println(o.traceText())
			}
		}
	}
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("   FAIL x%d %s\n", cnt[k], k)
	}
}

// rootDir: where contracts and harness are.
func rootDir() string {
	if d := os.Getenv("GOVER_ROOT"); d != "" {
		return d
	}
	return "/verif"
}
