package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type Answer struct {
	res    string // unsat, sat, unknown
	solver string
	dur    time.Duration
	model  string
	ms     int
}

type SolverPool struct {
	hard  time.Time // no solver is started after this
	sem   chan struct{}
	mu    sync.Mutex
	cache map[string]Answer
	n     map[string]int
	time  map[string]time.Duration
	total int
}

func NewPool(n int) *SolverPool {
	return &SolverPool{sem: make(chan struct{}, n), cache: map[string]Answer{}, n: map[string]int{}, time: map[string]time.Duration{}}
}

type solverCfg struct {
	name string
	args []string
	pre  string
}

var (
	cfgZ3   = solverCfg{"z3-5.3 (E-matching)", []string{"z3-new", "-in", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"}
	cfgZ3m  = solverCfg{"z3-5.3 (mbqi)", []string{"z3-new", "-in", "-smt2"}, ""}
	cfgZ3o  = solverCfg{"z3-4.8", []string{"z3", "-in", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"}
	cfgCVC5 = solverCfg{"cvc5-1.1", []string{"cvc5", "--lang=smt2", "--incremental"}, ""}
	cfgCVCe = solverCfg{"cvc5-1.1 (enum)", []string{"cvc5", "--lang=smt2", "--enum-inst"}, ""}
)

func (p *SolverPool) run(ctx context.Context, cfg solverCfg, query string, ms int) Answer {
	p.sem <- struct{}{}
	defer func() { <-p.sem }()
	if ctx.Err() != nil {
		return Answer{res: "unknown", solver: cfg.name}
	}
	args := append([]string{}, cfg.args...)
	if strings.HasPrefix(args[0], "z3") {
		args = append(args, fmt.Sprintf("-t:%d", ms), fmt.Sprintf("-T:%d", ms/1000+2))
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", ms))
	}
	cctx, cancel := context.WithTimeout(ctx, time.Duration(ms+3000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(cctx, args[0], args[1:]...)
	text := cfg.pre + query
	if !strings.HasPrefix(args[0], "z3") {
		text = plainSymbols(text)
	}
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	res := "unknown"
	o := out.String()
	first := strings.TrimSpace(o)
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = first[:i]
	}
	switch first {
	case "unsat", "sat":
		res = first
	}
	if strings.Contains(o, "(error") && res != "unsat" {
		if os.Getenv("GOVER_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver error:", cfg.name, firstLines(o, 3))
			os.WriteFile("/tmp/gover-bad.smt2", []byte(cfg.pre+query), 0644)
		}
	}
	if strings.Contains(o, "(error") && res == "unsat" && !strings.Contains(o, "model is not available") {
		res = "unknown"
	}
	p.mu.Lock()
	p.n[cfg.name]++
	p.time[cfg.name] += d
	p.total++
	p.mu.Unlock()
	return Answer{res: res, solver: cfg.name, dur: d, model: o}
}

var quotedSym = regexp.MustCompile(`\|[^|]*\|`)

// plainSymbols renames quoted symbols (cvc5 refuses them in constructor tests).
func plainSymbols(text string) string {
	names := map[string]string{}
	return quotedSym.ReplaceAllStringFunc(text, func(q string) string {
		n, ok := names[q]
		if !ok {
			n = fmt.Sprintf("qs!%d", len(names))
			names[q] = n
		}
		return n
	})
}

func firstLines(s string, n int) string {
	ls := strings.SplitN(s, "\n", n+1)
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// Solve decides one query.  quick: only the first stage.
func (p *SolverPool) Solve(query string, ms int, quick bool) Answer {
	return p.solve(query, ms, quick, quick)
}

// seeded: the first solver with another random seed.
func seeded(i int) solverCfg {
	cf := cfgZ3
	if i > 0 {
		cf.pre += fmt.Sprintf("(set-option :smt.random_seed %d)\n", i)
	}
	return cf
}

// Once asks one solver only.
func (p *SolverPool) Once(query string, ms int) Answer { return p.solve(query, ms, true, false) }

func (p *SolverPool) solve(query string, ms int, quick, second bool) Answer {
	key := query
	p.mu.Lock()
	if a, ok := p.cache[key]; ok && (a.res != "unknown" || quick && a.ms >= ms) {
		p.mu.Unlock()
		return a
	}
	p.mu.Unlock()
	if !p.hard.IsZero() && time.Now().After(p.hard) {
		return Answer{res: "unknown"}
	}
	ctx := context.Background()
	ms1 := ms
	if !quick && ms1 > 4000 {
		ms1 = 4000
	}
	var a Answer
	t0 := time.Now()
	if quick && ms >= 4000 {
		// the order of instantiation is a matter of luck: several short tries before a long one
		for i := 0; i < 3 && a.res != "unsat"; i++ {
			a = p.run(ctx, seeded(i), query, 1500)
		}
		if a.res != "unsat" && second {
			a = p.run(ctx, seeded(3), query, ms)
		}
	} else {
		a = p.run(ctx, cfgZ3, query, ms1)
		for i := 3; i < 6 && quick && a.res == "unknown" && a.dur.Milliseconds() >= int64(ms1)*3/4; i++ {
			if b := p.run(ctx, seeded(i), query, 700); b.res == "unsat" {
				a = b
			}
		}
	}
	if d := int(time.Since(t0).Milliseconds()); second && a.res == "unknown" && d < ms*3/4 {
		// gave up early: a second opinion
		if b := p.run(ctx, cfgZ3o, query, min(ms*2, 4000)); b.res == "unsat" {
			a = b
		}
	}
	if a.res == "unknown" && !quick {
		cctx, cancel := context.WithCancel(ctx)
		cfgs := []solverCfg{cfgCVC5, cfgZ3m, cfgZ3o, cfgCVCe, cfgZ3, seeded(1), seeded(2)}
		ch := make(chan Answer, len(cfgs))
		for _, cf := range cfgs {
			go func() { ch <- p.run(cctx, cf, query, ms) }()
		}
		for range cfgs {
			b := <-ch
			if b.res == "unsat" {
				a = b
				break
			}
			if b.res == "sat" && a.res == "unknown" {
				a = b
				break
			}
		}
		cancel()
	}
	a.ms = ms
	p.mu.Lock()
	p.cache[key] = a
	p.mu.Unlock()
	return a
}

// Query text ---------------------------------------------------------------------

// BuildQuery renders hyps ∧ ¬goal with the axioms its symbols need.
func (c *Ctx) BuildQuery(hyps []*Term, goal *Term, extra []*Term) string {
	var asserts []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t != c.T && !seen[t] {
			seen[t] = true
			asserts = append(asserts, t)
		}
	}
	for _, h := range hyps {
		if h.op == OAnd {
			for _, x := range h.args {
				add(x)
			}
		} else {
			add(h)
		}
	}
	ng := c.Not(goal)
	if ng.op == OAnd {
		for _, x := range ng.args {
			add(x)
		}
	} else {
		add(ng)
	}
	var flat []*Term
	for _, t := range asserts {
		flat = append(flat, c.parts(c.skolem(t, true))...)
	}
	asserts = flat
	// ground unfolding of recursive specification functions
	asserts = c.G.unfoldDefs(c, asserts)
	// quantified hypotheses that read arrays at j+d are restated for i = j+d
	var as2 []*Term
	for _, t := range asserts {
		as2 = append(as2, c.shifts(c.shiftIn(t, true))...)
	}
	asserts = append(as2, c.mulFacts(as2)...)
	if fs := c.wfOf(asserts); len(fs) > 0 {
		asserts = append(asserts, fs...)
	}
	p := NewPrinter(c)
	for _, t := range asserts {
		p.count(t)
	}
	// specification axioms that mention a function used here
	var axs []*Term
	used := map[int]bool{}
	for {
		n := 0
		for i, ax := range extra {
			if !used[i] && p.mentions(ax) {
				used[i] = true
				p.count(ax)
				axs = append(axs, ax)
				n++
			}
		}
		if n == 0 {
			break
		}
	}
	texts, more := c.G.builtinAxioms(p)
	for _, s := range more {
		p.funs[s] = true
	}
	var body strings.Builder
	for _, t := range axs {
		s := p.str(t)
		p.flush(&body)
		fmt.Fprintf(&body, "(assert %s)\n", s)
	}
	for _, t := range asserts {
		s := p.str(t)
		p.flush(&body)
		fmt.Fprintf(&body, "(assert %s)\n", s)
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n(declare-fun mul (Int Int) Int)\n")
	p.header(&sb)
	for _, t := range texts {
		sb.WriteString(t)
		sb.WriteByte('\n')
	}
	sb.WriteString(body.String())
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// skolem replaces the variables of existential quantifiers by constants, so that the terms below are ground.
func (c *Ctx) skolem(t *Term, pos bool) *Term {
	if len(t.fv) > 0 {
		return t
	}
	switch t.op {
	case ONot:
		if a := c.skolem(t.args[0], !pos); a != t.args[0] {
			return c.Not(a)
		}
	case OAnd, OOr:
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = c.skolem(a, pos)
			ch = ch || as[i] != a
		}
		if ch {
			return c.nary(t.op, as)
		}
	case OForall, OExists:
		if (t.op == OExists) == pos {
			m := map[*Term]*Term{}
			for i, v := range t.bound {
				m[v] = c.Var(fmt.Sprintf("sk!%d.%d", t.id, i), v.sort)
			}
			return c.skolem(c.Subst(t.args[0], m), pos)
		}
	}
	return t
}

func (p *Printer) flush(sb *strings.Builder) {
	for _, d := range p.defs {
		sb.WriteString(d)
		sb.WriteByte('\n')
	}
	p.defs = p.defs[:0]
}

func (p *Printer) mentions(t *Term) bool {
	seen := map[*Term]bool{}
	found := false
	var rec func(t *Term)
	rec = func(t *Term) {
		if found || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && p.funs[t.name] && !p.c.G.commonFun[t.name] {
			found = true
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return found
}

func (p *Printer) header(sb *strings.Builder) {
	c := p.c
	// sorts used by functions and constructors
	var fnames []string
	for f := range p.funs {
		fnames = append(fnames, f)
	}
	sort.Strings(fnames)
	for _, f := range fnames {
		d := c.funDecl(f)
		for _, a := range d.args {
			p.noteSort(a)
		}
		p.noteSort(d.res)
	}
	if p.sorts["Stk"] || p.ctors["vnil"] {
		p.sorts["Val"] = true
	}
	var cn []string
	if p.sorts["Val"] || len(p.ctors) > 0 {
		p.sorts["Val"] = true
		p.ctors["vnil"] = true
		p.ctors["vother"] = true
		c.declCtor("vnil", nil)
		c.declCtor("vother", []*Sort{IntS, IntS})
		for k := range p.ctors {
			cn = append(cn, k)
		}
		sort.Strings(cn)
		for _, k := range cn {
			for _, f := range c.ctors[k].fields {
				p.noteSort(f)
			}
		}
	}
	if len(p.lits) > 0 {
		p.sorts["Str"] = true
	}
	for _, s := range []string{"Str", "Flt", "Opq", "World", "Bag"} {
		if p.sorts[s] {
			fmt.Fprintf(sb, "(declare-sort %s 0)\n", s)
		}
	}
	if p.sorts["Val"] {
		sb.WriteString("(declare-datatypes ((Val 0)) ((")
		for _, k := range cn {
			d := c.ctors[k]
			if len(d.fields) == 0 {
				fmt.Fprintf(sb, "(%s) ", smtName(k))
				continue
			}
			fmt.Fprintf(sb, "(%s", smtName(k))
			for i, f := range d.fields {
				fmt.Fprintf(sb, " (%s %s)", smtName(fmt.Sprintf("%s.%d", k, i)), f.name)
			}
			sb.WriteString(") ")
		}
		sb.WriteString(")))\n")
	}
	if p.sorts["Stk"] {
		sb.WriteString("(declare-datatypes ((Stk 0)) (((sempty) (spush (stop Val) (srest Stk)))))\n")
	}
	for _, v := range p.vord {
		if v.name == "sempty" {
			continue
		}
		fmt.Fprintf(sb, "(declare-fun %s () %s)\n", smtName(v.name), v.sort.name)
	}
	for _, f := range fnames {
		if f == "spush" || f == "stop" || f == "srest" {
			continue
		}
		d := c.funDecl(f)
		if d.args == nil {
			continue
		}
		var as []string
		for _, a := range d.args {
			as = append(as, a.name)
		}
		fmt.Fprintf(sb, "(declare-fun %s (%s) %s)\n", smtName(f), strings.Join(as, " "), d.res.name)
	}
	var ln []string
	for _, l := range p.lits {
		fmt.Fprintf(sb, "(declare-fun %s () Str)\n", litName(l.name))
		ln = append(ln, litName(l.name))
	}
	if len(ln) > 1 {
		fmt.Fprintf(sb, "(assert (distinct %s))\n", strings.Join(ln, " "))
	}
}

func (c *Ctx) funDecl(f string) *FunDecl {
	if d := c.funs[f]; d != nil {
		return d
	}
	if d := c.G.builtinFuns[f]; d != nil {
		return d
	}
	panic(bug("no declaration for function %s", f))
}

// wfOf collects the well-formedness facts of the heap components occurring in the assertions, provided
// references are compared with newly allocated ones at all.
func (c *Ctx) wfOf(asserts []*Term) []*Term {
	seen := map[*Term]bool{}
	var vars []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			if _, ok := c.comps[t]; ok {
				vars = append(vars, t)
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range asserts {
		rec(t)
	}
	var out []*Term
	for _, v := range vars {
		out = append(out, c.wfFacts(v, c.comps[v])...)
	}
	return out
}

// shifts: a universally quantified hypothesis that reads arrays at j+d is restated for i = j+d, so that
// plain reads A[i] can trigger it.
// shiftIn does the same for the quantifiers inside t.
func (c *Ctx) shiftIn(t *Term, pos bool) *Term {
	switch t.op {
	case ONot:
		if a := c.shiftIn(t.args[0], !pos); a != t.args[0] {
			return c.Not(a)
		}
	case OAnd, OOr:
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = a
			if a.op == OForall && pos && len(a.fv) == 0 {
				as[i] = c.And(c.shifts(a)...)
			} else {
				as[i] = c.shiftIn(a, pos)
			}
			ch = ch || as[i] != a
		}
		if ch {
			return c.nary(t.op, as)
		}
	}
	return t
}

// parts splits a conjunction, also one written as a negated disjunction.
func (c *Ctx) parts(t *Term) []*Term {
	var out []*Term
	switch {
	case t == c.T:
	case t.op == OAnd:
		for _, a := range t.args {
			out = append(out, c.parts(a)...)
		}
	case t.op == ONot && t.args[0].op == OOr:
		for _, a := range t.args[0].args {
			out = append(out, c.parts(c.Not(a))...)
		}
	default:
		out = append(out, t)
	}
	return out
}

func (c *Ctx) shifts(t *Term) []*Term {
	if t.op != OForall || t.args[0].op == OTrig || strings.HasPrefix(t.bound[0].name, "qd") {
		return []*Term{t}
	}
	offs := map[*Term][]*Term{}
	zero := c.Int(0)
	seen := map[*Term]bool{}
	note := func(b, d *Term) {
		for _, o := range offs[b] {
			if o == d {
				return
			}
		}
		offs[b] = append(offs[b], d)
	}
	var rec func(u *Term)
	rec = func(u *Term) {
		if seen[u] || len(u.fv) == 0 {
			return
		}
		seen[u] = true
		for _, a := range u.args {
			rec(a)
		}
		if u.op == OSelect {
			ix := u.args[1]
			for _, b := range t.bound {
				if ix == b {
					note(b, zero)
				}
			}
			if ix.op == OLin {
				var bv *Term
				n := 0
				for i, a := range ix.args {
					if len(a.fv) == 0 {
						continue
					}
					n++
					for _, b := range t.bound {
						if a == b && ix.coef[i] == 1 {
							bv = b
						}
					}
				}
				if n == 1 && bv != nil {
					note(bv, c.Sub(ix, bv))
				}
			}
		}
	}
	rec(t.args[0])
	inst := func(ch map[*Term]*Term) *Term {
		m := map[*Term]*Term{}
		var bs []*Term
		for _, b := range t.bound {
			d := ch[b]
			if d == nil || d == zero {
				bs = append(bs, b)
				continue
			}
			nb := c.BVar(b.name+"~", IntS)
			bs = append(bs, nb)
			m[b] = c.Sub(nb, d)
		}
		if len(m) == 0 {
			return t
		}
		return c.Forall(bs, c.Subst(t.args[0], m))
	}
	main := map[*Term]*Term{}
	for b, os := range offs {
		main[b] = os[0]
		for _, o := range os {
			if o == zero {
				main[b] = zero
			}
		}
	}
	out := []*Term{inst(main)}
	for _, b := range t.bound {
		for _, o := range offs[b] {
			if o != main[b] && len(out) < 5 {
				ch := map[*Term]*Term{}
				for k, v := range main {
					ch[k] = v
				}
				ch[b] = o
				out = append(out, inst(ch))
			}
		}
	}
	return out
}

// mulFacts: products of two unknowns are left uninterpreted; these are the facts about them that the solver
// gets (sign, and the bound that makes a percentage a percentage).
func (c *Ctx) mulFacts(asserts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	divs := map[int64]bool{100: true}
	var muls []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OMul && len(t.fv) == 0 {
			muls = append(muls, t)
		}
		if (t.op == ODiv || t.op == OMod) && t.args[1].op == OInt {
			divs[t.args[1].k] = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range asserts {
		rec(t)
	}
	var ds []int64
	for d := range divs {
		ds = append(ds, d)
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
	z := c.Int(0)
	for _, m := range muls {
		if len(m.args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := m.args[i], m.args[1-i]
			out = append(out, c.Imp(c.Eq(a, z), c.Eq(m, z)))
			for _, d := range ds {
				out = append(out, c.Imp(c.Eq(a, c.Int(d)), c.Eq(m, c.Mul(c.Int(d), b))))
				out = append(out, c.Imp(c.And(c.Ge(b, z), c.Le(a, c.Int(d))), c.Le(m, c.Mul(c.Int(d), b))))
				out = append(out, c.Imp(c.And(c.Gt(b, z), c.Lt(a, c.Int(d))), c.Lt(m, c.Mul(c.Int(d), b))))
			}
		}
		out = append(out, c.Imp(c.And(c.Ge(m.args[0], z), c.Ge(m.args[1], z)), c.Ge(m, z)))
	}
	return out
}
