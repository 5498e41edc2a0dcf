package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FnRes is the outcome of verifying one function against its contract for one property.
type FnRes struct {
	name    string
	mode    string
	obs     []*Oblig
	abort   string
	missing bool
	notes   map[string]bool
	inlined map[string]bool
	used    map[string]bool
	loops   int
	invKept int
	invOb   int
	returns int
	reach   int
	preSat  string
	contra  string // contract use that contradicts its context
	guards  int
	dur     time.Duration
	solve   time.Duration
}

func (g *Global) newExec(prop string, ct *Contract, fn *ssa.Function, conc bool) *Exec {
	c := NewCtx(g)
	x := &Exec{g: g, c: c, root: ct, fn: fn, conc: conc, prop: prop, record: true,
		compSort: map[string]*Sort{}, ctorsUsed: map[string]bool{}, boxTy: map[string]types.Type{}, ifaces: g.noIfaces(), notes: map[string]bool{}, unsupported: map[string]bool{},
		inlined: map[string]bool{}, used: map[string]bool{}, noAux: map[string]bool{}, owner: map[*Term]ownerInfo{}, localComps: map[*Term]map[string]bool{}, noMerge: g.noMerge, cloTab: map[*Term]*Closure{},
		recSame: map[string]bool{}, famPub: map[string]bool{}, pubSeen: map[types.Type]bool{}, letVals: map[string]Value{}}
	for n := range g.noAux {
		x.noAux[n] = true
	}
	c.unfoldRec2 = x.unfoldRec
	c.unfoldRec = func(t *Term) []*Term { return []*Term{c.Eq(t, x.unfoldRec(t))} }
	c.unfoldMax = map[string]int{}
	c.bagBody = map[string]func(*Term) *Term{}
	for _, f := range strings.Fields(ct.opts["unfold"]) {
		if n, k, ok := strings.Cut(f, "="); ok {
			c.unfoldMax[n], _ = strconv.Atoi(k)
		}
	}
	c.ptrCtors = x.ptrCtors
	return x
}

func (g *Global) verify(prop string, ct *Contract, conc bool) (res *FnRes) {
	t0 := time.Now()
	res = &FnRes{name: ct.name, mode: "seq", notes: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{}}
	if conc {
		res.mode = "conc"
	}
	fn := g.funcs[ct.name]
	if fn == nil || fn.Blocks == nil {
		res.missing = true
		return
	}
	if len(fn.Params) != len(ct.params) || fn.Signature.Results().Len() != len(ct.results) {
		res.abort = fmt.Sprintf("signature of %s does not fit its contract", ct.name)
		return
	}
	x := g.newExec(prop, ct, fn, conc)
	end := t0.Add(time.Duration(g.fnBudget) * time.Second)
	if !g.deadline.IsZero() && g.deadline.Before(end) {
		end = g.deadline
	}
	x.deadline = func() bool { return time.Now().After(end) }
	defer func() {
		res.dur = time.Since(t0)
		res.notes, res.inlined, res.used = x.notes, x.inlined, x.used
		res.loops, res.invKept, res.invOb = x.loopsDone, x.invKept, x.invChecked
		if r := recover(); r != nil {
			switch e := r.(type) {
			case abort:
				res.abort = e.msg
			case specErr:
				res.abort = "specification: " + e.msg
			default:
				res.abort = fmt.Sprintf("internal: %v", r)
				if os.Getenv("GOVER_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}
		}
	}()
	x.run(res)
	if os.Getenv("GOVER_NOSOLVE") == "" {
		x.discharge(res)
	}
	return
}

func (x *Exec) run(res *FnRes) {
	c := x.c
	g := x.g
	ct, fn := x.root, x.fn
	base := c.Var("alloc0", IntS)
	base.base = true
	st := &State{x: x, heap: map[string]*Term{}, alloc: base, alloc0: base, locks: map[string]lockSt{}, pub: map[*Term]bool{}}
	st.assume(c.Ge(base, c.Int(1)))
	for i, p := range fn.Params {
		v := Value{t: p.Type()}
		for j, s := range x.leafSorts(p.Type()) {
			t := c.Var(fmt.Sprintf("%s.%d", ct.params[i], j), s)
			t.old = true
			v.l = append(v.l, t)
		}
		x.params = append(x.params, v)
	}
	for _, v := range x.params {
		x.assumeTypeFacts(st, v)
	}
	if o := ct.opts["allocs"]; o != "" {
		if t, _, err := g.specType(o); err == nil && t != nil {
			st.setComp("X:#"+g.objKey(t), c.Int(0), nil)
		}
	}
	x.pre = st
	e := &SEnv{x: x, st: st, old: st, vars: x.rootVars()}
	for _, l := range ct.lets {
		x.letVals[l.label] = e.eval(l.e)
		e.vars = x.rootVars()
	}
	for i, b := range ct.bagdefs {
		b, p := b, ct.bagvars[i]
		c.bagBody[b.label] = func(k *Term) *Term {
			t, s, err := g.specType(p.typ)
			if err != nil {
				panic(specErr{err.Error()})
			}
			vars := x.rootVars()
			if t == nil {
				vars[p.name] = sv(s, k)
			} else {
				vars[p.name] = Value{t: t, l: []*Term{k}}
			}
			return (&SEnv{x: x, st: x.pre, old: x.pre, vars: vars}).term(b.e)
		}
	}
	for _, r := range ct.requires {
		if x.active(r) {
			st.assume(e.boolT(r.e))
		}
	}
	if x.conc {
		x.concStart(st)
	}
	run := st.clone()
	x.pre = st
	// touch every component the contract mentions so that callee contracts and frames see them
	res.preSat = g.pool.Solve(x.query(st.pcs(), c.F), 3000, true).res
	x.stack = nil
	rets := 0
	reach := 0
	top := &Frame{fn: fn, id: 0, env: map[ssa.Value]Value{}}
	top.onPanic = func(s *State) {
		x.concEnd(s, true)
	}
	x.top = top
	var ends []*State
	x.callFn(nil, fn, x.params, nil, run, fn.Pos(), func(s *State, vals []Value) {
		if s.dead {
			return
		}
		rets++
		ends = append(ends, s)
		x.paths++
		if x.conc {
			x.concEnd(s, false)
		}
		x.finish(s, vals)
	})
	if ct.opts["locked"] != "" && !x.conc {
		run.dead = false
		x.ob(st, "lock", "takes no lock and calls no user function itself", nil, c.Bool(x.seqEvents == 0), "")
	}
	res.obs = x.obs
	res.returns = rets
	// reachability of the returns (vacuity guard)
	var mu sync.Mutex
	var wg sync.WaitGroup
	max := len(ends)
	if max > 24 {
		max = 24
	}
	for _, s := range ends[:max] {
		q := x.query(s.pcs(), c.F)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if g.pool.Solve(q, 1500, true).res != "unsat" {
				mu.Lock()
				reach++
				mu.Unlock()
			}
		}()
	}
	for _, gd := range x.guards {
		qa, qb := x.query(gd.after, c.F), x.query(gd.before, c.F)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if g.pool.Solve(qa, 300, true).res == "unsat" && g.pool.Solve(qb, 1500, true).res != "unsat" {
				mu.Lock()
				res.contra = gd.key
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	res.reach = reach
	res.guards = len(x.guards)
}

// finish: postconditions and frame at a return.
func (x *Exec) finish(s *State, vals []Value) {
	ct := x.root
	c := x.c
	e := &SEnv{x: x, st: s, old: x.pre, ent: x.pre, acq: s.acq, vars: x.rootVars()}
	for i, n := range ct.results {
		v := vals[i]
		if v.addr != nil && len(v.l) == 0 {
			v = Value{t: v.t, l: []*Term{x.addrRef(v)}}
		}
		e.vars[n] = v
	}
	for _, cl := range ct.ensures {
		if !x.active(cl) {
			continue
		}
		if x.conc && len(cl.tags) == 0 {
			continue // a statement about the sequential behaviour
		}
		n := cl.label
		if n == "" {
			n = cl.src
		}
		g := e.boolT(cl.e)
		gs := []*Term{g}
		if g.op == OAnd {
			gs = g.args
		}
		for i, t := range gs {
			nm := "ensures " + n
			if len(gs) > 1 {
				nm = fmt.Sprintf("ensures %s (%d/%d)", n, i+1, len(gs))
			}
			x.ob(s, "post", nm, cl.tags, t, "")
		}
	}
	if x.conc || ct.opts["modifies"] == "" {
		return
	}
	act := ct.pure
	for _, m := range ct.modifies {
		if x.active(m) {
			act = true
		}
	}
	if !act {
		return
	}
	eo := &SEnv{x: x, st: x.pre, old: x.pre, vars: x.rootVars()}
	mods := x.modSet(eo, ct.modifies)
	var names []string
	for n := range s.heap {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if strings.HasPrefix(n, "I:") || strings.HasPrefix(n, "X:") || n == "now" || n == "W" {
			continue // (W: see W!m)
		}
		fin := s.heap[n]
		ini := x.pre.comp(n, fin.sort)
		if fin == ini {
			continue
		}
		whole := false
		var refs []*Term
		for _, m := range mods {
			if m.covers(n) {
				if m.ref == nil {
					whole = true
				} else {
					refs = append(refs, m.ref)
				}
			}
		}
		if whole {
			continue
		}
		if fin.sort.dom != IntS {
			if fin.sort.dom != nil {
				q := c.BVar("q6", fin.sort.dom)
				hyp := []*Term{}
				for _, r := range refs {
					hyp = append(hyp, c.Not(c.Eq(q, r)))
				}
				x.ob(s, "frame", "frame "+n, nil, c.Forall([]*Term{q}, c.Imp(c.And(hyp...), c.Eq(c.Select(fin, q), c.Select(ini, q)))), "")
				continue
			}
			x.ob(s, "frame", "frame "+n, nil, c.Eq(fin, ini), "")
			continue
		}
		// stores at allowed or fresh references
		t := fin
		for t.op == OStore {
			ok := freshRef(t.args[1]) != nil
			for _, r := range refs {
				if r == t.args[1] {
					ok = true
				}
			}
			if !ok {
				break
			}
			t = t.args[0]
		}
		if t == ini {
			x.ob(s, "frame", "frame "+n, nil, c.T, "")
			continue
		}
		q := c.BVar("q6", IntS)
		hyp := []*Term{c.Lt(q, x.pre.alloc), c.Ge(q, c.Int(0))}
		for _, r := range refs {
			hyp = append(hyp, c.Not(c.Eq(q, r)))
		}
		x.ob(s, "frame", "frame "+n, nil, c.Forall([]*Term{q}, c.Imp(c.And(hyp...), c.Eq(c.Select(t, q), c.Select(ini, q)))), "")
	}
}

// discharge sends the open obligations to the solvers.
func (x *Exec) discharge(res *FnRes) {
	g := x.g
	t0 := time.Now()
	groups := map[*PC][]*Oblig{}
	var order []*PC
	for _, o := range res.obs {
		if o.done {
			continue
		}
		if _, ok := groups[o.pcp]; !ok {
			order = append(order, o.pcp)
		}
		groups[o.pcp] = append(groups[o.pcp], o)
	}
	type job struct {
		obs  []*Oblig
		q    string
		sing []string
		part [][]string // the same with fewer facts
	}
	var jobs []*job
	for _, p := range order {
		os := groups[p]
		for len(os) > 0 {
			n := len(os)
			if n > 12 {
				n = 12
			}
			j := &job{obs: os[:n]}
			os = os[n:]
			if n > 1 {
				var gs []*Term
				for _, o := range j.obs {
					gs = append(gs, o.goal)
				}
				j.q = x.query(j.obs[0].hyps, x.c.And(gs...))
			}
			for _, o := range j.obs {
				j.sing = append(j.sing, x.query(o.hyps, o.goal))
				var ps []string
				if len(x.groups) > 0 {
					ps = append(ps, x.query(x.usable(o.hyps, ""), o.goal))
					for _, gr := range sortedKeys(x.groups) {
						ps = append(ps, x.query(x.usable(o.hyps, gr), o.goal))
					}
				}
				j.part = append(j.part, ps)
			}
			jobs = append(jobs, j)
		}
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if j.q != "" && len(x.groups) == 0 {
				a := g.pool.Solve(j.q, 2500, true)
				if a.res == "unsat" {
					for _, o := range j.obs {
						o.res = a
						o.done = true
					}
					return
				}
			}
			var w2 sync.WaitGroup
			for i, o := range j.obs {
				w2.Add(1)
				go func() {
					defer w2.Done()
					for _, q := range j.part[i] {
						if a := g.pool.Solve(q, 2500, true); a.res == "unsat" {
							o.res, o.done = a, true
							return
						}
					}
					o.res = g.pool.Solve(j.sing[i], g.budgetOb, false)
					o.query = j.sing[i]
					o.done = o.res.res == "unsat"
				}()
			}
			w2.Wait()
		}()
	}
	wg.Wait()
	// what is left: once more, with what was shown in the same place
	for _, p := range order {
		for again := true; again; {
			again = false
			var known []*Term
			var left []*Oblig
			for _, o := range groups[p] {
				if o.done {
					known = append(known, o.goal)
				} else if o.kind == "post" && o.res.res == "unknown" {
					left = append(left, o)
				}
			}
			if len(known) == 0 || len(left) > 6 {
				break
			}
			qs := make([]string, len(left))
			for i, o := range left {
				qs[i] = x.query(append(append([]*Term{}, o.hyps...), known...), o.goal)
			}
			var w2 sync.WaitGroup
			for i, o := range left {
				w2.Add(1)
				go func() {
					defer w2.Done()
					if a := g.pool.Solve(qs[i], g.budgetOb, false); a.res == "unsat" {
						o.res, o.done = a, true
					}
				}()
			}
			w2.Wait()
			for _, o := range left {
				again = again || o.done
			}
		}
	}
	res.solve = time.Since(t0)
}

func (o *Oblig) traceText() string {
	var ls []string
	for t := o.trace; t != nil; t = t.prev {
		ls = append(ls, t.s)
	}
	for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
		ls[i], ls[j] = ls[j], ls[i]
	}
	return strings.Join(ls, "\n")
}

// ptrCtors: boxed reference types met so far.
func (x *Exec) ptrCtors() []string {
	var out []string
	for _, ct := range x.g.concTys {
		switch ct.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice:
			if x.usesCtor(ct) {
				out = append(out, x.g.ctorName(ct))
			}
		}
	}
	return out
}
