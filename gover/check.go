package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// check decides one property: every contract tagged with it is verified against the current source, the
// executable oracle of the property is run on the compiled package, evidence and the verdict are written.

type harnessOut struct {
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Failure     string   `json:"failure"`
	Bound       string   `json:"bound"`
	ran         bool
	err         string
	log         string
	wall        float64
}

type checker struct {
	g       *Global
	prop    string
	tier    string
	seed    int
	root    string // /verif
	repo    string
	scratch string
	t0      time.Time
	res     map[string]*FnRes // key: mode + name
	mu      sync.Mutex
}

func key(name string, conc bool) string {
	if conc {
		return "conc " + name
	}
	return "seq " + name
}

func (r *FnRes) failed() []*Oblig {
	var out []*Oblig
	for _, o := range r.obs {
		if !o.done && (r.abort == "" || o.res.res != "") {
			out = append(out, o)
		}
	}
	return out
}

// vacuous names a reason why a clean result would be worthless.
func (r *FnRes) vacuous() string {
	switch {
	case r.abort != "" || r.missing:
		return ""
	case r.preSat == "unsat":
		return "the precondition is unsatisfiable"
	case len(r.obs) == 0:
		return "no obligation was generated"
	case r.returns == 0:
		return "no path returns"
	case r.reach == 0:
		return "no return is reachable under the precondition"
	case r.contra != "":
		return "the contract used at " + r.contra + " contradicts what is known there"
	}
	return ""
}
func (r *FnRes) ok() bool {
	return r.abort == "" && !r.missing && len(r.failed()) == 0 && r.vacuous() == ""
}

type vjob struct {
	name string
	conc bool
}

func (ck *checker) verifyAll(jobs []vjob) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 4)
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			r := ck.g.verify(ck.prop, ck.g.spec.contracts[j.name], j.conc)
			ck.mu.Lock()
			ck.res[key(j.name, j.conc)] = r
			ck.mu.Unlock()
		}()
	}
	wg.Wait()
}

// prove verifies the tagged contracts and every contract they lean on.
func (ck *checker) prove(rerun map[string]bool) {
	g := ck.g
	var jobs []vjob
	queued := map[vjob]bool{}
	add := func(n string, conc bool) {
		if j := (vjob{n, conc}); !queued[j] {
			queued[j] = true
			jobs = append(jobs, j)
		}
	}
	for _, n := range g.spec.order {
		ct := g.spec.contracts[n]
		if inList(ct.tags, ck.prop) && (rerun == nil || rerun[key(n, false)]) {
			add(n, false)
		}
		if ct.opts["conc:"+ck.prop] != "" && (rerun == nil || rerun[key(n, true)]) {
			add(n, true)
		}
	}
	for round := 0; len(jobs) > 0 && round < 8; round++ {
		ck.verifyAll(jobs)
		jobs, queued = nil, map[vjob]bool{}
		// contracts used at call sites: they state sequential behaviour, also when used under a lock
		for _, r := range ck.sorted() {
			for _, u := range keys(r.used) {
				if ct := g.spec.contracts[u]; ct != nil && !ct.trusted && ck.res[key(u, false)] == nil {
					add(u, false)
				}
			}
		}
		if len(jobs) > 0 {
			continue
		}
		// a helper that does not meet its contract is replaced by its body in the callers
		drop := false
		for _, r := range ck.sorted() {
			if r.mode == "seq" && !r.ok() && g.spec.contracts[r.name].aux && !g.noAux[r.name] {
				g.noAux[r.name] = true
				drop = true
			}
		}
		if drop {
			for _, r := range ck.sorted() {
				for u := range r.used {
					if g.noAux[u] && r.name != u {
						add(r.name, r.mode == "conc")
					}
				}
			}
		}
	}
	// helpers no longer used do not count
	for k, r := range ck.res {
		if g.noAux[r.name] {
			delete(ck.res, k)
		}
	}
}

func (ck *checker) copyRes() map[string]*FnRes {
	out := map[string]*FnRes{}
	for k, r := range ck.res {
		out[k] = r
	}
	return out
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func inList(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (ck *checker) sorted() []*FnRes {
	var ks []string
	for k := range ck.res {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*FnRes
	for _, k := range ks {
		out = append(out, ck.res[k])
	}
	return out
}

// bad lists the results with failed obligations (not the ones out of reach).
func (ck *checker) bad() []*FnRes {
	var out []*FnRes
	for _, r := range ck.sorted() {
		if len(r.failed()) > 0 || r.vacuous() != "" {
			out = append(out, r)
		}
	}
	return out
}
func (ck *checker) unreached() []*FnRes {
	var out []*FnRes
	for _, r := range ck.sorted() {
		if len(r.failed()) == 0 && (r.abort != "" || r.missing) {
			out = append(out, r)
		}
	}
	return out
}

// harness runs the executable oracle of the property on the package as it is in the repository.
func (ck *checker) harness(ms int, seed int) *harnessOut {
	t0 := time.Now()
	h := &harnessOut{}
	defer func() { h.wall = time.Since(t0).Seconds() }()
	dir := filepath.Join(ck.root, "harness")
	files, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	repl := map[string]string{}
	found := false
	for _, f := range files {
		repl[filepath.Join(ck.repo, "zz_verif_"+filepath.Base(f))] = f
		b, _ := os.ReadFile(f)
		if strings.Contains(string(b), "func TestVerif"+ck.prop+"(") {
			found = true
		}
	}
	if !found {
		h.err = "no executable oracle for this property"
		return h
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovf := filepath.Join(ck.scratch, "overlay.json")
	os.WriteFile(ovf, ov, 0644)
	out := filepath.Join(ck.scratch, "harness.json")
	os.Remove(out)
	args := []string{"test", "-overlay", ovf, "-vet=off", "-count=1", "-timeout", fmt.Sprintf("%ds", ms/1000+150), "-run", "^TestVerif" + ck.prop + "$"}
	if raceProps[ck.prop] {
		args = append(args, "-race")
	}
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = ck.repo
	cmd.Env = append(os.Environ(), "VERIF_OUT="+out, "VERIF_SEED="+strconv.Itoa(seed), "VERIF_MS="+strconv.Itoa(ms), "VERIF_SCRATCH="+ck.scratch, "GORACE=halt_on_error=1", "VERIF_HARNESS="+dir)
	b, err := cmd.CombinedOutput()
	h.log = tail(string(b), 12000)
	h.ran = true
	if j, e := os.ReadFile(out); e == nil {
		json.Unmarshal(j, h)
	} else if err == nil {
		h.err = "the harness wrote no result"
	}
	if err != nil && h.Failure == "" {
		switch {
		case strings.Contains(h.log, "WARNING: DATA RACE"):
			h.Failure = "data race reported by the race detector:\n" + h.log
		case strings.Contains(h.log, "[build failed]") || strings.Contains(h.log, "[setup failed]"):
			h.err = "the harness does not build: " + h.log
			h.ran = false
		case strings.Contains(h.log, "panic:") || strings.Contains(h.log, "fatal error:"):
			h.Failure = "the run of the package ended abnormally:\n" + h.log
		default:
			h.Failure = "the run failed:\n" + h.log
		}
	}
	return h
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

var raceProps = map[string]bool{"C05": true, "C11": true, "C14": true, "C18": true}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	root := fs.String("root", rootDir(), "")
	repo := fs.String("repo", "/repo/v2", "")
	scratch := fs.String("scratch", "", "")
	noHarness := fs.Bool("noharness", false, "")
	fs.Parse(args)
	prop := fs.Arg(0)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ck := &checker{prop: prop, tier: tier, seed: seed, root: *root, repo: *repo, scratch: *scratch, t0: time.Now(), res: map[string]*FnRes{}}
	if ck.scratch == "" {
		d, err := os.MkdirTemp("", "gover")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		ck.scratch = d
		defer os.RemoveAll(d)
	}
	ck.g = setup(*repo, filepath.Join(*root, "contracts"))
	hms, retryMs := 6000, 20000
	if tier == "thorough" {
		hms, retryMs = 60000, 60000
	}
	var h *harnessOut
	if *noHarness {
		h = &harnessOut{err: "not run"}
	} else {
		h = ck.harness(hms, seed)
	}
	ck.g.deadline = time.Now().Add(400 * time.Second)
	ck.g.pool.hard = time.Now().Add(650 * time.Second)
	if h.Failure != "" {
		// the proof only has to name the obligation that fails
		ck.g.deadline = time.Now().Add(60 * time.Second)
		ck.g.pool.hard = time.Now().Add(90 * time.Second)
	}
	ck.prove(nil)
	if h.Failure == "" && len(ck.bad()) > 0 {
		// a second look with larger budgets and without helper contracts
		rerun := map[string]bool{}
		for _, r := range ck.bad() {
			rerun[key(r.name, r.mode == "conc")] = true
		}
		ck.g.budgetCand, ck.g.budgetOb = 3000, 25000
		first := ck.copyRes()
		ck.prove(rerun)
		for k := range rerun {
			// running out of time is no answer: the one it had stays
			if r := ck.res[k]; r == nil || len(r.failed()) == 0 && r.abort != "" {
				ck.res[k] = first[k]
			}
		}
		if len(ck.bad()) > 0 {
			saved := ck.copyRes()
			for _, n := range ck.g.spec.order {
				if ck.g.spec.contracts[n].aux {
					ck.g.noAux[n] = true
				}
			}
			rerun = map[string]bool{}
			for _, r := range ck.bad() {
				rerun[key(r.name, r.mode == "conc")] = true
			}
			if time.Since(ck.t0) < 240*time.Second {
				ck.prove(rerun)
			}
			for k := range rerun {
				if r := ck.res[k]; r != nil && !r.ok() {
					ck.res = saved
					break
				}
			}
			if len(ck.bad()) > 0 {
				ck.res = saved
			}
		}
		if len(ck.bad()) > 0 && !*noHarness {
			h2 := ck.harness(retryMs, seed+1000003)
			h2.Evaluations += h.Evaluations
			h2.Distinct += h.Distinct
			h2.wall += h.wall
			h = h2
		}
	}
	if h.Failure == "" && len(ck.bad()) == 0 && len(ck.unreached()) > 0 && !*noHarness && tier == "quick" {
		// something is only covered by the bounded check: give it more
		h2 := ck.harness(retryMs, seed+1000003)
		h2.Evaluations += h.Evaluations
		h2.Distinct += h.Distinct
		h2.wall += h.wall
		h = h2
	}
	os.Exit(ck.report(h))
}

func (ck *checker) report(h *harnessOut) int {
	g := ck.g
	ev := filepath.Join(ck.root, "evidence")
	os.MkdirAll(ev, 0755)
	obl, dis := 0, 0
	byBack := map[string]int{}
	var fns []map[string]interface{}
	notes := map[string]bool{}
	inl := map[string]bool{}
	var outOfReach []string
	for _, r := range ck.sorted() {
		n := 0
		for _, o := range r.obs {
			obl++
			if o.done {
				dis++
				n++
				b := o.res.solver
				if b == "" {
					b = "simplifier of the condition generator"
				}
				byBack[b]++
			}
		}
		if r.abort == "" {
			obl += r.invKept
			dis += r.invKept
			if r.invKept > 0 {
				byBack["z3-5.3 (E-matching), loop invariants established and preserved"] += r.invKept
			}
		}
		f := map[string]interface{}{"function": r.name, "mode": r.mode, "obligations": len(r.obs), "discharged": n, "loops": r.loops, "loop_invariants": r.invKept, "returns": r.returns, "returns_reachable": r.reach, "precondition": r.preSat, "contract_uses_guarded": r.guards, "wall_s": round(r.dur.Seconds())}
		if ct := g.spec.contracts[r.name]; ct != nil && ct.aux {
			f["helper"] = true
		}
		if r.abort != "" || r.missing {
			why := r.abort
			if r.missing {
				why = "not in the source"
			}
			f["out_of_reach"] = why
			outOfReach = append(outOfReach, r.name+": "+why)
		}
		fns = append(fns, f)
		for n := range r.notes {
			notes[n] = true
		}
		for n := range r.inlined {
			inl[n] = true
		}
	}
	trusted := []string{
		"gover (the condition generator in /verif/gover) and its model of Go: golang.org/x/tools/go/ssa as the semantics of the source",
		"z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
		"the Go compiler, runtime and memory model",
		"contracts of called standard library functions built into gover (extern.go)",
	}
	assume := []string{
		"machine integers are treated as mathematical integers (no overflow)",
		"termination is not verified: the contracts say what holds if a call returns",
		"time never goes backwards while a call runs; time values are nanosecond integers",
	}
	for _, n := range sortedKeys(notes) {
		assume = append(assume, n)
	}
	for _, a := range g.spec.axioms {
		for _, t := range a.tags {
			if t == ck.prop {
				assume = append(assume, "axiom "+strings.Join(strings.Fields(a.src), " "))
			}
		}
	}
	for _, s := range outOfReach {
		assume = append(assume, "NOT PROVED, bounded check only: "+s)
	}
	st := map[string]float64{}
	total := 0.0
	for k, v := range g.pool.time {
		st[k] = round(v.Seconds())
		total += v.Seconds()
	}
	cov := map[string]interface{}{
		"obligations": obl, "discharged": dis,
		"checker_cmd":              fmt.Sprintf("bash /verif/check.sh %s  (gover check %s on %s)", ck.prop, ck.prop, ck.repo),
		"trusted_base":             trusted,
		"functions_under_contract": fns,
		"discharged_by":            byBack,
		"solver_seconds":           st,
		"solver_seconds_total":     round(total),
		"inlined_bodies":           sortedKeys(inl),
		"bounded_cross_check":      map[string]interface{}{"evaluations": h.Evaluations, "distinct_nontrivial": h.Distinct, "rule": h.Rule, "bound": h.Bound, "samples": h.Samples, "wall_s": round(h.wall), "note": h.err},
	}
	if len(outOfReach) > 0 {
		cov["bounded_only"] = outOfReach
	}
	bad := ck.bad()
	viol := 0
	if len(bad) > 0 || h.Failure != "" {
		viol = 1
	}
	level := "proof"
	ck.known()
	e := map[string]interface{}{"property": ck.prop, "tier": ck.tier, "seed": ck.seed, "level": level, "coverage": cov, "assumptions": assume, "wall_s": round(time.Since(ck.t0).Seconds()), "violations": viol}
	b, _ := json.MarshalIndent(e, "", " ")
	os.WriteFile(filepath.Join(ev, ck.prop+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s: %d functions, %d obligations, %d discharged, solver %.1fs, bounded cross-check %d cases, wall %.1fs\n", ck.prop, len(fns), obl, dis, total, h.Evaluations, time.Since(ck.t0).Seconds())
	for _, s := range outOfReach {
		fmt.Println("  bounded only:", s)
	}
	if h.err != "" {
		fmt.Println("  harness:", tail(h.err, 2000))
	}
	if viol == 0 {
		if len(fns) == 0 || obl == 0 {
			if h.ran {
				fmt.Println("  no obligation generated")
			}
			if !h.ran {
				fmt.Fprintln(os.Stderr, "nothing was checked")
				return 2
			}
		}
		return 0
	}
	var rp strings.Builder
	fmt.Fprintf(&rp, "property %s\n\n", ck.prop)
	if h.Failure != "" {
		fmt.Fprintf(&rp, "FAILING INPUT (run on the compiled package; reproduce with VERIF_SEED=%d bash /verif/check.sh %s):\n%s\n\n", ck.seed, ck.prop, h.Failure)
	}
	for _, r := range bad {
		if v := r.vacuous(); v != "" {
			fmt.Fprintf(&rp, "FAILED OBLIGATION %s [%s]: %s\n", r.name, r.mode, v)
			fmt.Printf("  failed: %s [%s] %s\n", r.name, r.mode, v)
		}
		seen := map[string]bool{}
		for _, o := range r.failed() {
			l := fmt.Sprintf("%s [%s] %s: %s %s (%s answers %s)", r.name, r.mode, o.kind, o.name, o.pos, o.res.solver, o.res.res)
			if !seen[l] {
				seen[l] = true
				fmt.Fprintf(&rp, "FAILED OBLIGATION %s\n  path:\n%s\n", l, indent(o.traceText()))
				if o.res.model != "" {
					fmt.Fprintf(&rp, "  verifier output:\n%s\n", indent(tail(o.res.model, 4000)))
				}
				if len(seen) < 12 {
					fmt.Println("  failed:", l)
				}
			}
		}
	}
	path := filepath.Join(ev, ck.prop+".replay.txt")
	os.WriteFile(path, []byte(rp.String()), 0644)
	line := fmt.Sprintf("VIOLATION property=%s replay=%s", ck.prop, path)
	if h.Failure == "" {
		line += " no-failing-input-found"
	} else {
		fmt.Println(indent(tail(h.Failure, 1500)))
	}
	fmt.Println(line)
	return 1
}

func (ck *checker) known() {
	b, err := os.ReadFile(filepath.Join(ck.root, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+ck.prop+" ") {
			fmt.Println("KNOWN-FINDING: " + strings.TrimPrefix(l, "finding: "))
		}
	}
}

func indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }

func sortedKeys[V any](m map[string]V) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
