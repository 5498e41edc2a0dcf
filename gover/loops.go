package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// cand is a candidate invariant: it can be stated for any values of the loop's phis and any state.
type cand struct {
	name string
	at   func(phis map[*ssa.Phi]Value, st *State) *Term
	auto bool
	grp  string
}

// addGroup notes what the members of a group of candidates may rest on.
func (x *Exec) addGroup(g string, deps []string) {
	if g == "" {
		return
	}
	if x.groups == nil {
		x.groups = map[string]map[string]bool{}
		x.inGroup = map[*Term]map[string]bool{}
	}
	if x.groups[g] == nil {
		x.groups[g] = map[string]bool{g: true}
	}
	for _, d := range deps {
		x.groups[g][d] = true
	}
}

func (x *Exec) assumeCand(s *State, cd *cand, t *Term) {
	if cd.grp != "" {
		var tag func(t *Term)
		tag = func(t *Term) {
			if t.op == OAnd {
				for _, a := range t.args {
					tag(a)
				}
				return
			}
			m := x.inGroup[t]
			if m == nil {
				if s.knows(t) {
					return
				}
				m = map[string]bool{}
				x.inGroup[t] = m
			}
			m[cd.grp] = true
		}
		tag(t)
	}
	s.assume(t)
}

// usable leaves out the facts of groups the members of g do not rest on.  Leaving out facts is always sound.
func (x *Exec) usable(hyps []*Term, g string) []*Term {
	if len(x.groups) == 0 {
		return hyps
	}
	var out []*Term
	for _, h := range hyps {
		m := x.inGroup[h]
		ok := m == nil
		for k := range m {
			ok = ok || x.groups[g][k]
		}
		if ok {
			out = append(out, h)
		}
	}
	return out
}

type loopWrites struct {
	inv   map[string][]*Term // written at loop-invariant references only
	fresh map[string]bool    // ... and possibly at objects allocated inside the loop
	full  map[string]bool    // anything else
	glob  map[string]bool    // components without reference (globals, ghosts)
	acq   map[string]bool    // replaced by a lock acquisition: local objects keep their contents
	pub   map[*Term]bool     // references published

	zphi  map[*ssa.Phi]bool         // slices that start at the first element of their array throughout
	zcell map[string]map[*Term]bool // ... kept in memory
}

// zeroOffs: slices at hand whose offset is 0 on entry; the loop is expected to keep it so.
func (x *Exec) zeroOffs(fr *Frame, L *Loop, phis []*ssa.Phi, entry map[*ssa.Phi]Value, st *State, w *loopWrites) {
	zero := x.c.Int(0)
	w.zphi, w.zcell = map[*ssa.Phi]bool{}, map[string]map[*Term]bool{}
	for _, p := range phis {
		if _, ok := p.Type().Underlying().(*types.Slice); ok && len(entry[p].l) == 4 && entry[p].l[1] == zero {
			w.zphi[p] = true
		}
	}
	for v, val := range fr.env {
		a, ok := v.(*ssa.Alloc)
		if !ok || val.addr != nil || len(val.l) != 1 || freshRef(val.l[0]) == nil || L.blocks[a.Block()] || !a.Block().Dominates(L.head) {
			continue
		}
		if _, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice); !ok {
			continue
		}
		ad := x.addrOf(val)
		n := ad.key + ":1"
		for _, r := range w.inv[n] {
			if r == ad.ref && x.loadAddr(st, ad).l[1] == zero {
				if w.zcell[n] == nil {
					w.zcell[n] = map[*Term]bool{}
				}
				w.zcell[n][r] = true
			}
		}
	}
}

// keptZero drops the slices an iteration may have moved.
func (x *Exec) keptZero(w *loopWrites, backs []inst) bool {
	ok := true
	zero := x.c.Int(0)
	for _, b := range backs {
		for p := range w.zphi {
			if b.phis[p].l[1] != zero {
				delete(w.zphi, p)
				ok = false
			}
		}
		for n, rs := range w.zcell {
			for r := range rs {
				if x.c.Select(b.st.comp(n, x.compSort[n]), r) != zero {
					delete(rs, r)
					ok = false
				}
			}
		}
	}
	return ok
}

func (x *Exec) varsBefore(t *Term, n int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.id <= n || seen[t] {
			return true
		}
		seen[t] = true
		if t.op == OVar && !t.isB && !t.init && !strings.HasPrefix(t.name, "flt:") && !strings.HasPrefix(t.name, "zero:") && !strings.HasPrefix(t.name, "fn!") {
			return false
		}
		for _, a := range t.args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

// trialWrites executes the body without solver help until the set of written components is stable.
// cells: the variables of the running function that live in memory, by component family.
func (x *Exec) cells(fr *Frame, L *Loop) map[string][]*Term {
	out := map[string][]*Term{}
	for v, val := range fr.env {
		a, ok := v.(*ssa.Alloc)
		if !ok || val.addr != nil || len(val.l) != 1 || freshRef(val.l[0]) == nil || L.blocks[a.Block()] || !a.Block().Dominates(L.head) {
			continue
		}
		et := a.Type().Underlying().(*types.Pointer).Elem()
		if _, arr := et.Underlying().(*types.Array); arr {
			continue
		}
		k := x.g.objKey(et)
		out[k] = append(out[k], val.l[0])
	}
	for _, rs := range out {
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
	}
	return out
}

// keepCells: the cells of component n are as in cur.
func (x *Exec) keepCells(t, cur *Term, n string, cells map[string][]*Term, hit func(*Term) bool) *Term {
	if x.conc || !strings.HasPrefix(n, "O:") {
		return t
	}
	for _, r := range cells[n[:strings.LastIndex(n, ":")]] {
		if !hit(r) {
			t = x.c.Store(t, r, x.c.Select(cur, r))
		}
	}
	return t
}

// mayBe: a write at reference w may hit the cell r.
func mayBe(w, r *Term) bool { return w == r || freshRef(w) == nil && !oldRef(w) }

func (x *Exec) trialWrites(fr *Frame, L *Loop, phis []*ssa.Phi, st *State) *loopWrites {
	n0 := x.c.n
	all := map[string]map[*Term]bool{}
	pub := map[*Term]bool{}
	x.trial++
	rec := x.record
	x.record = false
	cells := x.cells(fr, L)
	hits := map[string]map[*Term]bool{}
	wild := map[string]bool{}
	for round := 0; round < 8; round++ {
		s := st.clone()
		var base *Term
		for n := range all {
			if n == "alloc" {
				continue
			}
			if srt := x.compSort[n]; srt != nil {
				f := x.c.Fresh("T!"+n, srt)
				if !wild[n] {
					f = x.keepCells(f, st.comp(n, srt), n, cells, func(r *Term) bool {
						for w := range hits[n] {
							if mayBe(w, r) {
								return true
							}
						}
						return false
					})
				}
				s.heap[n] = f
			}
		}
		base = x.c.Fresh("alloc", IntS)
		base.base = true
		s.alloc = base
		pv := map[*ssa.Phi]Value{}
		for _, p := range phis {
			pv[p] = x.freshPhi(fr, p, L, s)
		}
		wr := &writeRec{comps: map[string]map[*Term]bool{}}
		x.recs = append(x.recs, wr)
		x.runBody(fr, L, pv, s, func(*ssa.BasicBlock, *State) {})
		x.recs = x.recs[:len(x.recs)-1]
		for r := range wr.pub {
			pub[r] = true
		}
		grew := false
		res := map[string]map[*Term]bool{}
		for n, refs := range wr.comps {
			if _, ok := all[n]; !ok {
				grew = true
			}
			m := map[*Term]bool{}
			if hits[n] == nil {
				hits[n] = map[*Term]bool{}
			}
			if len(refs) == 0 && !wild[n] {
				wild[n] = true
				grew = true
			}
			for r := range refs {
				m[r] = true
				if !hits[n][r] && x.varsBefore(r, n0) {
					hits[n][r] = true
					grew = true
				} else if fb := freshRef(r); !wild[n] && !x.varsBefore(r, n0) && (fb == nil || fb != base && fb.id <= n0) {
					wild[n] = true
					grew = true
				}
			}
			res[n] = m
		}
		// classification uses the last round, where everything that changes is arbitrary
		if !grew {
			x.trial--
			x.record = rec
			w := &loopWrites{inv: map[string][]*Term{}, fresh: map[string]bool{}, full: map[string]bool{}, glob: map[string]bool{}, acq: map[string]bool{}, pub: wr.pub}
			for n, refs := range res {
				if n == "alloc" {
					continue
				}
				if len(refs) == 0 {
					w.glob[n] = true
					continue
				}
				ok := true
				fresh := false
				acq := false
				var inv []*Term
				for r := range refs {
					switch {
					case r.op == OVar && strings.HasPrefix(r.name, "acqref"):
						acq = true
					case freshRef(r) == base:
						fresh = true
					case freshRef(r) != nil && freshRef(r).id > n0:
						fresh = true // allocated in a nested loop
					case x.varsBefore(r, n0):
						inv = append(inv, r)
					default:
						ok = false
					}
				}
				if !ok {
					w.full[n] = true
					continue
				}
				if acq {
					w.acq[n] = true
				}
				sort.Slice(inv, func(i, j int) bool { return inv[i].id < inv[j].id })
				w.inv[n] = inv
				if fresh {
					w.fresh[n] = true
				}
			}
			return w
		}
		for n, m := range res {
			all[n] = m
		}
	}
	x.trial--
	x.record = rec
	w := &loopWrites{inv: map[string][]*Term{}, fresh: map[string]bool{}, full: map[string]bool{}, glob: map[string]bool{}, acq: map[string]bool{}, pub: pub}
	for n, refs := range all {
		if n == "alloc" {
			continue
		}
		if len(refs) == 0 {
			w.glob[n] = true
		} else {
			w.full[n] = true
		}
	}
	return w
}

// freshPhi: an arbitrary value for a loop-carried variable.
func (x *Exec) freshPhi(fr *Frame, p *ssa.Phi, L *Loop, s *State) Value {
	// a phi all of whose in-loop edges are itself or loop invariant keeps its entry value; left to candidates
	v := x.freshVal("phi."+p.Comment, p.Type())
	return v
}

func (x *Exec) runBody(fr *Frame, L *Loop, pv map[*ssa.Phi]Value, s *State, back func(from *ssa.BasicBlock, s *State)) {
	savB := fr.backs[L.head]
	savS := fr.stops
	savD := s.defers
	_ = savD
	fr.stops = map[*ssa.BasicBlock]func(*ssa.BasicBlock, *State){}
	fr.backs[L.head] = back
	fr.houd = append(fr.houd, L)
	n := 0
	for p, v := range pv {
		fr.env[p] = v
		n++
	}
	x.instrs(fr, L.head, n, s)
	fr.houd = fr.houd[:len(fr.houd)-1]
	fr.stops = savS
	if savB == nil {
		delete(fr.backs, L.head)
	} else {
		fr.backs[L.head] = savB
	}
}

// headState builds an arbitrary state at the loop head, consistent with the write set.
func (x *Exec) headState(fr *Frame, L *Loop, phis []*ssa.Phi, st *State, w *loopWrites) (*State, map[*ssa.Phi]Value) {
	c := x.c
	s := st.clone()
	base := c.Fresh("alloc", IntS)
	base.base = true
	s.alloc = base
	s.assume(c.Ge(base, st.alloc))
	for r := range w.pub {
		s.pub[r] = true
	}
	cells := x.cells(fr, L)
	var names []string
	for n := range w.inv {
		names = append(names, n)
	}
	for n := range w.full {
		names = append(names, n)
	}
	for n := range w.glob {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		srt := x.compSort[n]
		if srt == nil {
			continue
		}
		cur := st.comp(n, srt)
		switch {
		case w.glob[n] || w.full[n]:
			f := c.Fresh("L!"+n, srt)
			c.comps[f] = compWF{n, base, false}
			s.heap[n] = f
			if n == "now" {
				s.assume(c.Ge(f, cur))
			}
		case w.acq[n]:
			f := c.Fresh("L!"+n, srt)
			c.comps[f] = compWF{n, base, false}
			t := f
			for _, r := range st.locals {
				written := false
				for _, i := range w.inv[n] {
					written = written || i == r
				}
				if x.local(s, r) && !written && x.localComps[r][n] {
					t = c.Store(t, r, c.Select(cur, r))
				}
			}
			s.heap[n] = t
		case w.fresh[n]:
			f := c.Fresh("L!"+n, srt)
			c.comps[f] = compWF{n, base, false}
			q := c.BVar("q5", IntS)
			hyp := []*Term{c.Lt(q, st.alloc)}
			for _, r := range w.inv[n] {
				hyp = append(hyp, c.Not(c.Eq(q, r)))
			}
			s.assume(c.Forall([]*Term{q}, c.Imp(c.And(hyp...), c.Eq(c.Select(f, q), c.Select(cur, q)))))
			s.heap[n] = x.keepCells(f, cur, n, cells, func(r *Term) bool {
				for _, i := range w.inv[n] {
					if mayBe(i, r) {
						return true
					}
				}
				return false
			})
			for _, r := range w.inv[n] {
				if w.zcell[n][r] {
					s.heap[n] = c.Store(s.heap[n], r, c.Int(0))
				}
			}
		default:
			t := cur
			for _, r := range w.inv[n] {
				if w.zcell[n][r] {
					t = c.Store(t, r, c.Int(0))
					continue
				}
				f := c.Fresh("L!"+n, srt.rng)
				c.comps[f] = compWF{n, base, true}
				if strings.HasPrefix(n, "E:") && freshRef(r) == nil {
					// nothing can be written through a nil slice
					s.assume(c.Imp(c.Eq(r, c.Int(0)), c.Eq(f, c.Select(t, r))))
				}
				t = c.Store(t, r, f)
			}
			s.heap[n] = t
		}
	}
	for _, n := range names {
		if strings.HasPrefix(n, "X:@") && s.heap[n] != nil {
			// the list of allocated objects only grows, and names no object twice
			key := n[len("X:@"):]
			k, k0, A := x.allocCount(s, key), x.allocCount(st, key), s.heap[n]
			inv := c.Fresh("inv", c.ArrS(IntS, IntS))
			a := c.BVar("a5", IntS)
			at := c.Select(A, a)
			s.assume(c.Ge(k, k0))
			s.assume(c.Forall([]*Term{a}, c.Imp(c.And(c.Le(c.Int(0), a), c.Lt(a, k)),
				c.And(c.Le(x.pre.alloc, at), c.Lt(at, s.alloc), c.Eq(c.Select(inv, at), a)))))
			if A0 := st.heap[n]; A0 != nil {
				s.assume(c.Forall([]*Term{a}, c.Imp(c.And(c.Le(c.Int(0), a), c.Lt(a, k0)), c.Eq(at, c.Select(A0, a)))))
			}
		}
	}
	pv := map[*ssa.Phi]Value{}
	for _, p := range phis {
		pv[p] = x.freshPhi(fr, p, L, s)
		if w.zphi[p] {
			pv[p].l[1] = c.Int(0)
		}
	}
	for _, p := range phis {
		x.assumeTypeFacts(s, pv[p])
	}
	return s, pv
}

func (x *Exec) loop(fr *Frame, from, head *ssa.BasicBlock, st *State) {
	phis, vals := phiVals(x, fr, head, from)
	x.loopFrom(fr, head, phis, vals, st)
}

func (x *Exec) loopFrom(fr *Frame, head *ssa.BasicBlock, phis []*ssa.Phi, vals []Value, st *State) {
	if n := len(fr.houd); n > 0 && !fr.houd[n-1].blocks[head] {
		return
	}
	L := fr.li.byHead[head]
	entry := map[*ssa.Phi]Value{}
	for i, p := range phis {
		v := vals[i]
		if v.addr != nil && len(v.l) == 0 {
			x.unsup("loop-carried interior pointer at %s", x.pos(p.Pos()))
		}
		entry[p] = v
	}
	w := x.trialWrites(fr, L, phis, st)
	if x.trial > 0 {
		s, pv := x.headState(fr, L, phis, st, w)
		sv := fr.backs[head]
		fr.backs[head] = func(*ssa.BasicBlock, *State) {}
		for p, v := range pv {
			fr.env[p] = v
		}
		x.instrs(fr, head, len(phis), s)
		if sv == nil {
			delete(fr.backs, head)
		} else {
			fr.backs[head] = sv
		}
		return
	}
	x.zeroOffs(fr, L, phis, entry, st, w)
	saveIter := x.curIter
	x.curIter = x.iterOf(fr, L)
	all := x.notDead(L, x.loopCands(fr, L, phis, entry, st, w))
	// 1. keep what holds on entry
	cands := x.filter(all, []inst{{entry, st}})
	// 2. Houdini
	rec := x.record
	for pass := 0; ; pass++ {
		s, pv := x.headState(fr, L, phis, st, w)
		for _, cd := range cands {
			x.assumeCand(s, cd, cd.at(pv, s))
		}
		var backs []inst
		wc := s.heap["WC"]
		x.record = false
		it := x.curIter
		x.runBody(fr, L, pv, s, func(b *ssa.BasicBlock, s2 *State) {
			if wc != nil && s2.heap["WC"] != wc && !w.glob["WC"] {
				x.unsup("loop at %s may change the elements of collections", x.pos(fr.fn.Pos()))
			}
			ps, vs := phiVals(x, fr, head, b)
			m := map[*ssa.Phi]Value{}
			for i, p := range ps {
				m[p] = vs[i]
			}
			backs = append(backs, inst{m, s2})
		})
		x.curIter = it
		x.record = rec
		if !x.keptZero(w, backs) {
			continue
		}
		kept := x.filter(cands, backs)
		if len(kept) == len(cands) {
			if rec {
				x.loopsDone++
				for _, cd := range cands {
					for range backs {
						x.invChecked++
					}
					x.invChecked++
					_ = cd
				}
				x.invKept += len(cands)
			}
			break
		}
		cands = kept
	}
	x.nowDead(L, all, cands)
	if os.Getenv("GOVER_LOOPS") != "" && rec {
		fmt.Fprintf(os.Stderr, "loop in %s (block %d): kept %d invariants\n", fr.fn.Name(), head.Index, len(cands))
		for _, cd := range cands {
			fmt.Fprintf(os.Stderr, "   %s\n", cd.name)
		}
	}
	// 3. the real pass
	s, pv := x.headState(fr, L, phis, st, w)
	for _, cd := range cands {
		x.assumeCand(s, cd, cd.at(pv, s))
	}
	x.curIter = saveIter
	sv := fr.backs[head]
	h0 := s.clone()
	fr.backs[head] = func(_ *ssa.BasicBlock, b *State) { x.lockBalance(h0, b) }
	for p, v := range pv {
		fr.env[p] = v
	}
	x.instrs(fr, head, len(phis), s)
	if sv == nil {
		delete(fr.backs, head)
	} else {
		fr.backs[head] = sv
	}
}

type inst struct {
	phis map[*ssa.Phi]Value
	st   *State
}

// filter keeps the candidates that hold in every given instance.
func (x *Exec) filter(cands []*cand, ins []inst) []*cand {
	type job struct {
		k int
		q string
	}
	alive := make([]bool, len(cands))
	for i := range alive {
		alive[i] = true
	}
	for _, in := range ins {
		if in.st.dead {
			continue
		}
		hyps := in.st.pcs()
		var goals []*Term
		var idx []int
		for k, cd := range cands {
			if !alive[k] {
				continue
			}
			t := cd.at(in.phis, in.st)
			t = in.st.decide(t)
			if t == x.c.T {
				continue
			}
			if t == x.c.F {
				// may still be an unreachable state
				if !x.unreach(in.st, hyps) {
					alive[k] = false
				}
				continue
			}
			goals = append(goals, t)
			idx = append(idx, k)
		}
		if len(goals) == 0 {
			continue
		}
		if len(goals) > 1 && len(x.groups) == 0 {
			q := x.query(hyps, x.c.And(goals...))
			if x.g.pool.Solve(q, x.candBudget(), true).res == "unsat" {
				continue
			}
		}
		res := make([]bool, len(goals))
		var wg sync.WaitGroup
		for i := range goals {
			q := x.query(x.usable(hyps, cands[idx[i]].grp), goals[i])
			wg.Add(1)
			go func() {
				defer wg.Done()
				t0 := time.Now()
				if len(x.groups) > 0 && strings.HasPrefix(cands[idx[i]].name, "auto ") {
					res[i] = x.g.pool.Once(q, x.candBudget()).res == "unsat"
				} else {
					res[i] = x.g.pool.Solve(q, x.candBudget(), true).res == "unsat"
				}
				if d := time.Since(t0); d > time.Second && os.Getenv("GOVER_LOOPS") == "2" {
					fmt.Fprintf(os.Stderr, "      slow %.1fs %v: %s\n", d.Seconds(), res[i], cands[idx[i]].name)
					if p := os.Getenv("GOVER_DUMPS"); p != "" && strings.Contains(cands[idx[i]].name, p) {
						os.WriteFile(fmt.Sprintf("/tmp/d/slow-%.1f-%v-%d.smt2", d.Seconds(), res[i], idx[i]), []byte("; "+cands[idx[i]].name+"\n"+q), 0644)
					}
				}
			}()
		}
		wg.Wait()
		for i := range goals {
			if !res[i] {
				alive[idx[i]] = false
				if p := os.Getenv("GOVER_DUMPC"); p != "" && strings.Contains(cands[idx[i]].name, p) {
					candDumps++
					os.WriteFile(fmt.Sprintf("/tmp/d/cand-%d.smt2", candDumps), []byte("; "+cands[idx[i]].name+"\n"+x.query(x.usable(hyps, cands[idx[i]].grp), goals[i])), 0644)
				}
			}
		}
	}
	var out []*cand
	for k, cd := range cands {
		if alive[k] {
			out = append(out, cd)
		} else if os.Getenv("GOVER_LOOPS") == "2" {
			fmt.Fprintf(os.Stderr, "      dropped (%d instances): %s\n", len(ins), cd.name)
		}
	}
	return out
}

// candBudget: the time for one candidate in ms; a contract can ask for more.
func (x *Exec) candBudget() int {
	if n, err := strconv.Atoi(x.root.opts["budget"]); err == nil && n > x.g.budgetCand {
		return n
	}
	return x.g.budgetCand
}

func (x *Exec) unreach(st *State, hyps []*Term) bool {
	return x.g.pool.Solve(x.query(hyps, x.c.F), x.candBudget(), true).res == "unsat"
}

func (x *Exec) query(hyps []*Term, goal *Term) string {
	return x.c.BuildQuery(hyps, goal, x.axioms())
}

// iterOf finds the map iterator a loop advances.
func (x *Exec) iterOf(fr *Frame, L *Loop) *Iter {
	for _, in := range L.head.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			if v, ok := fr.env[n.Iter]; ok {
				return v.iter
			}
		}
	}
	return nil
}

func (x *Exec) loopCands(fr *Frame, L *Loop, phis []*ssa.Phi, entry map[*ssa.Phi]Value, st *State, w *loopWrites) []*cand {
	c := x.c
	var out []*cand
	seen := map[string]bool{}
	add := func(name string, f func(map[*ssa.Phi]Value, *State) *Term) {
		if seen[name] {
			return
		}
		seen[name] = true
		out = append(out, &cand{name: name, at: f, auto: true})
	}
	// integer phis: bounds against the entry value
	for _, p := range phis {
		p := p
		e := entry[p]
		if len(e.l) == 1 && e.l[0].sort == IntS {
			if _, ok := p.Type().Underlying().(*types.Basic); ok {
				e0 := e.l[0]
				add("auto "+phiName(p)+" >= entry", func(m map[*ssa.Phi]Value, s *State) *Term { return c.Ge(m[p].l[0], e0) })
				add("auto "+phiName(p)+" <= entry", func(m map[*ssa.Phi]Value, s *State) *Term { return c.Le(m[p].l[0], e0) })
				// range index stays below the bound it is compared with
				for _, b := range x.boundsOf(fr, L, p) {
					b := b
					b0 := b(st)
					if b0 == nil {
						continue
					}
					add("auto "+phiName(p)+" < bound "+c.show(b0), func(m map[*ssa.Phi]Value, s *State) *Term { return c.Or(c.Lt(m[p].l[0], b(s)), c.Eq(m[p].l[0], e0)) })
					add("auto "+phiName(p)+" <= bound "+c.show(b0), func(m map[*ssa.Phi]Value, s *State) *Term { return c.Or(c.Le(m[p].l[0], b(s)), c.Eq(m[p].l[0], e0)) })
					add("auto "+phiName(p)+" >= bound "+c.show(b0), func(m map[*ssa.Phi]Value, s *State) *Term { return c.Or(c.Le(b(s), m[p].l[0]), c.Eq(m[p].l[0], e0)) })
				}
				// counting along a map iteration
				if it := x.curIter; it != nil && it.ref != nil {
					cnt := fmt.Sprintf("I:%d:cnt", it.id)
					c0 := st.heap[cnt]
					if c0 != nil {
						add("auto "+phiName(p)+" counts the iteration", func(m map[*ssa.Phi]Value, s *State) *Term {
							return c.Eq(c.Sub(m[p].l[0], e0), c.Sub(s.heap[cnt], c0))
						})
					}
				}
			}
		}
		// unchanged phis
		add("auto "+phiName(p)+" unchanged", func(m map[*ssa.Phi]Value, s *State) *Term {
			var es []*Term
			for i := range e.l {
				es = append(es, c.Eq(m[p].l[i], e.l[i]))
			}
			return c.And(es...)
		})
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			a0 := x.pre.alloc
			a1 := st.alloc
			add("auto "+phiName(p)+" fresh array", func(m map[*ssa.Phi]Value, s *State) *Term {
				return c.Or(c.Eq(m[p].l[3], c.Int(0)), c.Ge(m[p].l[0], a0))
			})
			add("auto "+phiName(p)+" loop-fresh array", func(m map[*ssa.Phi]Value, s *State) *Term {
				return c.Or(c.Eq(m[p].l[3], c.Int(0)), c.Ge(m[p].l[0], a1))
			})
			if e.l[0] == c.Int(0) {
				add("auto "+phiName(p)+" nil or fresh array", func(m map[*ssa.Phi]Value, s *State) *Term {
					return c.Or(c.Eq(m[p].l[0], c.Int(0)), c.Ge(m[p].l[0], a0))
				})
			}
			add("auto "+phiName(p)+" same array", func(m map[*ssa.Phi]Value, s *State) *Term { return c.Eq(m[p].l[0], e.l[0]) })
			add("auto "+phiName(p)+" offset 0", func(m map[*ssa.Phi]Value, s *State) *Term { return c.Eq(m[p].l[1], c.Int(0)) })
		}
	}
	// variables in memory holding a slice
	var cs []*ssa.Alloc
	for v, val := range fr.env {
		a, ok := v.(*ssa.Alloc)
		if !ok || val.addr != nil || len(val.l) != 1 || freshRef(val.l[0]) == nil || L.blocks[a.Block()] || !a.Block().Dominates(L.head) {
			continue
		}
		if _, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice); ok {
			cs = append(cs, a)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].Name() < cs[j].Name() })
	for _, a := range cs {
		ad := x.addrOf(fr.env[a])
		written := w.full[ad.key+":0"]
		for _, r := range w.inv[ad.key+":0"] {
			written = written || r == ad.ref
		}
		if !written {
			continue
		}
		a0, a1 := x.pre.alloc, st.alloc
		add("auto "+a.Comment+" fresh array", func(m map[*ssa.Phi]Value, s *State) *Term {
			v := x.loadAddr(s, ad)
			return c.Or(c.Eq(v.l[3], c.Int(0)), c.Ge(v.l[0], a0))
		})
		add("auto "+a.Comment+" loop-fresh array", func(m map[*ssa.Phi]Value, s *State) *Term {
			v := x.loadAddr(s, ad)
			return c.Or(c.Eq(v.l[3], c.Int(0)), c.Ge(v.l[0], a1))
		})
		add("auto "+a.Comment+" nil or fresh array", func(m map[*ssa.Phi]Value, s *State) *Term {
			v := x.loadAddr(s, ad)
			return c.Or(c.Eq(v.l[0], c.Int(0)), c.Ge(v.l[0], a0))
		})
		add("auto "+a.Comment+" offset 0", func(m map[*ssa.Phi]Value, s *State) *Term { return c.Eq(x.loadAddr(s, ad).l[1], c.Int(0)) })
		add("auto "+a.Comment+" length within capacity", func(m map[*ssa.Phi]Value, s *State) *Term {
			v := x.loadAddr(s, ad)
			return c.And(c.Le(c.Int(0), v.l[2]), c.Le(v.l[2], v.l[3]))
		})
	}
	if w.glob["W"] {
		w0 := st.comp("W", WorldS)
		add("auto W unchanged", func(m map[*ssa.Phi]Value, s *State) *Term { return c.Eq(s.comp("W", WorldS), w0) })
	}
	// frames for arbitrarily written components
	var fulls []string
	for n := range w.full {
		fulls = append(fulls, n)
	}
	sort.Strings(fulls)
	for _, n := range fulls {
		n := n
		srt := x.compSort[n]
		if srt == nil || srt.dom != IntS {
			continue
		}
		cur := st.comp(n, srt)
		for k, lim := range []*Term{x.pre.alloc, st.alloc} {
			lim := lim
			add(fmt.Sprintf("auto frame%d %s", k, n), func(m map[*ssa.Phi]Value, s *State) *Term {
				q := c.BVar("q5", IntS)
				return c.Forall([]*Term{q}, c.Imp(c.Lt(q, lim), c.Eq(c.Select(s.comp(n, srt), q), c.Select(cur, q))))
			})
		}
		// everything but one known array
		for _, r := range x.knownRows(fr, L, st, n) {
			r := r
			add(fmt.Sprintf("auto frame1 %s except %s", n, c.show(r)), func(m map[*ssa.Phi]Value, s *State) *Term {
				q := c.BVar("q5", IntS)
				return c.Forall([]*Term{q}, c.Imp(c.And(c.Lt(q, st.alloc), c.Not(c.Eq(q, r))), c.Eq(c.Select(s.comp(n, srt), q), c.Select(cur, q))))
			})
		}
		// everything but one known object
		for _, r := range x.knownRefs(st, n) {
			r := r
			add(fmt.Sprintf("auto frame %s except %s", n, c.show(r)), func(m map[*ssa.Phi]Value, s *State) *Term {
				q := c.BVar("q5", IntS)
				return c.Forall([]*Term{q}, c.Imp(c.And(c.Lt(q, x.pre.alloc), c.Not(c.Eq(q, r))), c.Eq(c.Select(s.comp(n, srt), q), c.Select(cur, q))))
			})
		}
	}
	// map iterators whose map shrinks inside the loop
	var gens []string
	for n := range st.heap {
		if strings.HasPrefix(n, "I:") && strings.Contains(n, ":gen:") {
			gens = append(gens, n)
		}
	}
	sort.Strings(gens)
	for _, n := range gens {
		n := n
		i := strings.Index(n, ":gen:")
		pre, fam := n[:i], n[i+5:]
		dom0 := st.heap[pre+":dom0"]
		ref := st.heap[pre+":ref"]
		domN := fam + ":D"
		if !w.glob[n] && !w.glob[pre+":vis"] || x.compSort[domN] == nil {
			continue
		}
		q := c.BVar("q0", dom0.sort.dom)
		in := func(s *State) *Term { return c.Select(c.Select(s.comp(domN, x.compSort[domN]), ref), q) }
		add("auto iterator domain shrinks "+n, func(m map[*ssa.Phi]Value, s *State) *Term {
			return c.Forall([]*Term{q}, c.Imp(in(s), c.Select(dom0, q)))
		})
		add("auto iterator generation "+n, func(m map[*ssa.Phi]Value, s *State) *Term {
			return c.Forall([]*Term{q}, c.Eq(c.Select(s.heap[n], q), c.And(c.Select(dom0, q), in(s))))
		})
		add("auto iterator generation lower "+n, func(m map[*ssa.Phi]Value, s *State) *Term {
			return c.Forall([]*Term{q}, c.Imp(c.And(c.Select(dom0, q), in(s)), c.Select(s.heap[n], q)))
		})
		add("auto iterator visited "+n, func(m map[*ssa.Phi]Value, s *State) *Term {
			return c.Forall([]*Term{q}, c.Imp(c.Select(s.heap[pre+":vis"], q), c.Select(dom0, q)))
		})
	}
	out = append(out, x.specCands(fr, L, phis, entry, st)...)
	return out
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// knownRows: arrays of the slices at hand before the loop.
func (x *Exec) knownRows(fr *Frame, L *Loop, st *State, comp string) []*Term {
	if !strings.HasPrefix(comp, "E:") && !strings.HasPrefix(comp, "M:") {
		return nil
	}
	seen := map[*Term]bool{}
	var out []*Term
	for v, val := range fr.env {
		if in, ok := v.(ssa.Instruction); ok && (L.blocks[in.Block()] || !in.Block().Dominates(L.head)) {
			continue
		}
		if val.addr != nil || val.t == nil {
			continue
		}
		if pt, ok := val.t.Underlying().(*types.Pointer); ok && len(val.l) == 1 && freshRef(val.l[0]) != nil {
			if _, ok := pt.Elem().Underlying().(*types.Slice); ok {
				val = x.loadAddr(st, x.addrOf(val))
			}
		}
		if comp[0] == 'M' {
			for _, r := range x.mapFields(st, val, comp) {
				if !seen[r] {
					seen[r] = true
					out = append(out, r)
				}
			}
			continue
		}
		sl, ok := val.t.Underlying().(*types.Slice)
		if !ok || len(val.l) != 4 || !strings.HasPrefix(comp, x.g.elemKey(sl.Elem())+":") || seen[val.l[0]] {
			continue
		}
		seen[val.l[0]] = true
		out = append(out, val.l[0])
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) > 3 {
		out = out[:3]
	}
	return out
}

// knownRefs: references of the component's kind reachable from the contract's receiver by one load.
func (x *Exec) knownRefs(st *State, comp string) []*Term {
	var out []*Term
	add := func(t *Term) {
		for _, o := range out {
			if o == t {
				return
			}
		}
		out = append(out, t)
	}
	for _, p := range x.params {
		if p.t == nil || len(p.l) != 1 {
			continue
		}
		pt, ok := p.t.Underlying().(*types.Pointer)
		if !ok {
			if _, ok := p.t.Underlying().(*types.Map); ok && strings.HasPrefix(comp, x.g.mapKey(p.t)) {
				add(p.l[0])
			}
			continue
		}
		if strings.HasPrefix(comp, x.g.objKey(pt.Elem())+":") {
			add(p.l[0])
		}
		var walk func(a *Addr)
		walk = func(a *Addr) {
			switch u := a.t.Underlying().(type) {
			case *types.Struct:
				if len(x.leafSorts(a.t)) == 1 && u.NumFields() != 1 {
					return
				}
				pk, _ := named(a.t)
				if pk != "" && pk != x.g.modpath {
					return
				}
				for i := 0; i < u.NumFields(); i++ {
					if len(x.leafSorts(u.Field(i).Type())) > 0 {
						walk(x.fieldAddr(a, i))
					}
				}
			case *types.Slice:
				if strings.HasPrefix(comp, x.g.elemKey(u.Elem())+":") {
					add(x.loadAddr(st, a).l[0])
					add(x.loadAddr(x.pre, a).l[0])
				}
			case *types.Map:
				if strings.HasPrefix(comp, x.g.mapKey(a.t)+":") {
					add(x.loadAddr(st, a).l[0])
					add(x.loadAddr(x.pre, a).l[0])
				}
			case *types.Pointer:
				if strings.HasPrefix(comp, x.g.objKey(u.Elem())+":") {
					add(x.loadAddr(st, a).l[0])
				}
			}
		}
		walk(x.addrOf(p))
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return out
}

// peek evaluates a value the loop reads anew each time around (a length, a field), in any state.
func (x *Exec) peek(fr *Frame, L *Loop, v ssa.Value, s *State) (r Value, ok bool) {
	if in, is := v.(ssa.Instruction); !is || !L.blocks[in.Block()] {
		r, ok = fr.env[v]
		return
	}
	switch n := v.(type) {
	case *ssa.FieldAddr:
		if r, ok = x.peek(fr, L, n.X, s); ok {
			r = Value{t: n.Type(), addr: x.fieldAddr(x.addrOf(r), n.Field)}
		}
	case *ssa.UnOp:
		if n.Op == token.MUL {
			if r, ok = x.peek(fr, L, n.X, s); ok {
				r = x.loadAddr(s, x.addrOf(r))
			}
		}
	case *ssa.Call:
		if b, is := n.Call.Value.(*ssa.Builtin); is && b.Name() == "len" {
			if r, ok = x.peek(fr, L, n.Call.Args[0], s); ok {
				if _, sl := r.t.Underlying().(*types.Slice); sl && len(r.l) == 4 {
					return Value{t: n.Type(), l: []*Term{r.l[2]}}, true
				}
				ok = false
			}
		}
	}
	return
}

// boundsOf: values the phi (or its increment) is compared with inside the loop.
func (x *Exec) boundsOf(fr *Frame, L *Loop, p *ssa.Phi) []func(*State) *Term {
	related := func(v ssa.Value) bool {
		if v == p {
			return true
		}
		if b, ok := v.(*ssa.BinOp); ok && (b.X == p || b.Y == p) {
			return true
		}
		return false
	}
	var out []func(*State) *Term
	add := func(t *Term) { out = append(out, func(*State) *Term { return t }) }
	var blocks []*ssa.BasicBlock
	for b := range L.blocks {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				if !related(pr[0]) {
					continue
				}
				o := pr[1]
				if k, ok := o.(*ssa.Const); ok {
					if v := x.constVal(k); len(v.l) == 1 && v.l[0].sort == IntS {
						add(v.l[0])
					}
					continue
				}
				if oi, ok := o.(ssa.Instruction); ok {
					if L.blocks[oi.Block()] {
						out = append(out, func(s *State) *Term {
							if v, ok := x.peek(fr, L, o, s); ok && len(v.l) == 1 && v.l[0].sort == IntS {
								return v.l[0]
							}
							return nil
						})
						continue
					}
				}
				if v, ok := fr.env[o]; ok && len(v.l) == 1 && v.l[0].sort == IntS {
					add(v.l[0])
				}
			}
		}
	}
	return out
}

var candDumps int

// mapFields: the maps of component comp in the fields of the object v points to.
func (x *Exec) mapFields(st *State, v Value, comp string) []*Term {
	pt, ok := v.t.Underlying().(*types.Pointer)
	if !ok || len(v.l) != 1 || v.l[0] == x.c.Int(0) {
		return nil
	}
	u, ok := pt.Elem().Underlying().(*types.Struct)
	pk, _ := named(pt.Elem())
	if !ok || pk != x.g.modpath || len(x.leafSorts(pt.Elem())) == 1 && u.NumFields() != 1 {
		return nil
	}
	var out []*Term
	for i := 0; i < u.NumFields(); i++ {
		if _, ok := u.Field(i).Type().Underlying().(*types.Map); ok && strings.HasPrefix(comp, x.g.mapKey(u.Field(i).Type())) {
			out = append(out, x.loadAddr(st, x.fieldAddr(x.addrOf(v), i)).l[0])
		}
	}
	return out
}

// A candidate of an inner loop that failed once is not tried again when the loop around it is run with fewer
// facts (only for contracts with a budget of their own).
type deadKey struct {
	head *ssa.BasicBlock
	name string
}

var freshNum = regexp.MustCompile(`![0-9]+`)

func (x *Exec) notDead(L *Loop, cands []*cand) []*cand {
	if L.parent == nil || x.root.opts["budget"] == "" {
		return cands
	}
	var out []*cand
	for _, cd := range cands {
		if !x.dead[deadKey{L.head, freshNum.ReplaceAllString(cd.name, "!")}] {
			out = append(out, cd)
		}
	}
	return out
}

func (x *Exec) nowDead(L *Loop, all, kept []*cand) {
	if L.parent == nil || x.root.opts["budget"] == "" {
		return
	}
	if x.dead == nil {
		x.dead = map[deadKey]bool{}
	}
	alive := map[string]bool{}
	for _, cd := range kept {
		alive[freshNum.ReplaceAllString(cd.name, "!")] = true
	}
	for _, cd := range all {
		if n := freshNum.ReplaceAllString(cd.name, "!"); !alive[n] {
			x.dead[deadKey{L.head, n}] = true
		}
	}
}
