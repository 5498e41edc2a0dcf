package main

import (
	"sort"
	"strings"
)

// mrec is a state waiting at a join point, with the values that are live there (phis or results).
type mrec struct {
	st   *State
	vals []Value
}

func commonPC(a, b *PC) *PC {
	for a != b {
		an, bn := 0, 0
		if a != nil {
			an = a.n
		}
		if b != nil {
			bn = b.n
		}
		switch {
		case an > bn:
			a = a.prev
		case bn > an:
			b = b.prev
		default:
			a, b = a.prev, b.prev
		}
	}
	return a
}

func mergeable(a, b *mrec) bool {
	s, t := a.st, b.st
	if s.defers != t.defers || len(s.locks) != len(t.locks) || s.acq != t.acq || len(a.vals) != len(b.vals) {
		return false
	}
	for k, v := range s.locks {
		if w, ok := t.locks[k]; !ok || w.r != v.r || w.w != v.w {
			return false
		}
	}
	for i := range a.vals {
		v, w := a.vals[i], b.vals[i]
		if sameVal(v, w) && len(v.tup) == 0 && v.iter == w.iter {
			continue
		}
		if v.addr != nil || w.addr != nil || v.clo != nil || w.clo != nil || len(v.tup) > 0 || len(w.tup) > 0 || v.iter != nil || w.iter != nil || len(v.l) != len(w.l) {
			return false
		}
		for j := range v.l {
			if v.l[j].sort != w.l[j].sort {
				return false
			}
		}
	}
	return true
}

// mergeAll joins the compatible states: whatever differs becomes a value chosen by a guard that stands
// for "this path was taken"; the facts of each path hold under its guard.
func (x *Exec) mergeAll(recs []mrec) []mrec {
	var live []mrec
	for _, r := range recs {
		if !r.st.dead {
			live = append(live, r)
		}
	}
	if len(live) < 2 || x.noMerge {
		return live
	}
	used := make([]bool, len(live))
	var out []mrec
	for i := range live {
		if used[i] {
			continue
		}
		grp := []mrec{live[i]}
		for k := i + 1; k < len(live); k++ {
			if !used[k] && mergeable(&live[i], &live[k]) {
				used[k] = true
				grp = append(grp, live[k])
			}
		}
		if len(grp) == 1 {
			out = append(out, grp[0])
		} else {
			out = append(out, x.mergeGroup(grp))
		}
	}
	return out
}

func (x *Exec) mergeGroup(grp []mrec) mrec {
	c := x.c
	base := grp[0].st.pc
	for _, r := range grp[1:] {
		base = commonPC(base, r.st.pc)
	}
	deltas := make([][]*Term, len(grp))
	for i, r := range grp {
		var d []*Term
		for p := r.st.pc; p != base; p = p.prev {
			d = append(d, p.t)
		}
		for a, b := 0, len(d)-1; a < b; a, b = a+1, b-1 {
			d[a], d[b] = d[b], d[a]
		}
		deltas[i] = d
	}
	s := grp[0].st.clone()
	s.pc = base
	s.dead = false
	// facts common to all paths
	for _, f := range deltas[0] {
		all := true
		for _, d := range deltas[1:] {
			in := false
			for _, g := range d {
				if f == g {
					in = true
					break
				}
			}
			if !in {
				all = false
				break
			}
		}
		if all {
			s.assume(f)
		}
	}
	guards := make([]*Term, len(grp))
	if len(grp) == 2 && len(deltas[0]) > 0 && len(deltas[1]) > 0 && deltas[0][0] == c.Not(deltas[1][0]) {
		guards[0], guards[1] = deltas[0][0], deltas[1][0]
	} else {
		for i := range grp {
			guards[i] = c.Fresh("path", BoolS)
		}
		s.assume(c.Or(guards...))
	}
	for i, d := range deltas {
		for _, f := range d {
			if f == guards[i] || s.knows(f) {
				continue
			}
			nf := c.Imp(guards[i], f)
			if f.op == OForall {
				nf = c.ForallIf(guards[i], f)
			}
			if gs := s.x.inGroup[f]; gs != nil && s.x.inGroup[nf] == nil && !s.knows(nf) {
				s.x.inGroup[nf] = gs
			}
			s.assume(nf)
		}
	}
	pick := func(ts []*Term, hint string) *Term {
		same := true
		for _, t := range ts[1:] {
			if t != ts[0] {
				same = false
			}
		}
		if same {
			return ts[0]
		}
		if ts[0].sort.dom == nil {
			r := ts[len(ts)-1]
			for i := len(ts) - 2; i >= 0; i-- {
				r = c.Ite(guards[i], ts[i], r)
			}
			return r
		}
		f := c.Fresh("J!"+hint, ts[0].sort)
		for i, t := range ts {
			s.assume(c.Imp(guards[i], c.Eq(f, t)))
		}
		return f
	}
	// allocation counter
	allocs := make([]*Term, len(grp))
	for i, r := range grp {
		allocs[i] = r.st.alloc
	}
	same := true
	for _, a := range allocs {
		if a != allocs[0] {
			same = false
		}
	}
	if !same {
		na := c.Fresh("alloc", IntS)
		na.base = true
		for _, a := range allocs {
			s.assume(c.Ge(na, a))
		}
		s.alloc = na
		x.noteWrite("alloc", nil)
	}
	names := map[string]bool{}
	for _, r := range grp {
		for n := range r.st.heap {
			names[n] = true
		}
	}
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		var ts []*Term
		miss := false
		for _, r := range grp {
			t, ok := r.st.heap[n]
			if !ok {
				if strings.HasPrefix(n, "I:") {
					miss = true
					break
				}
				t = r.st.comp(n, x.compSort[n])
			}
			ts = append(ts, t)
		}
		if miss {
			delete(s.heap, n)
			continue
		}
		eq := true
		for _, t := range ts[1:] {
			if t != ts[0] {
				eq = false
			}
		}
		if eq {
			s.heap[n] = ts[0]
			continue
		}
		if root, refs := storeRoot(ts); root != nil {
			t := root
			for _, r := range refs {
				var vs []*Term
				for _, u := range ts {
					vs = append(vs, c.Select(u, r))
				}
				v := pick(vs, n)
				if v.op == OVar && v.sort.dom != nil {
					c.comps[v] = compWF{n, s.alloc, true}
				}
				t = c.Store(t, r, v)
			}
			s.heap[n] = t
			continue
		}
		v := pick(ts, n)
		if v.op == OVar {
			c.comps[v] = compWF{n, s.alloc, false}
		}
		s.heap[n] = v
	}
	for _, r := range grp[1:] {
		for k := range r.st.pub {
			s.pub[k] = true
		}
		for _, l := range r.st.locals {
			have := false
			for _, m := range s.locals {
				have = have || m == l
			}
			if !have {
				s.locals = append(s.locals[:len(s.locals):len(s.locals)], l)
			}
		}
	}
	s.trace = grp[0].st.trace
	res := mrec{st: s}
	for i, v := range grp[0].vals {
		nv := v
		if len(v.l) > 0 && v.addr == nil {
			nv.l = make([]*Term, len(v.l))
			for j := range v.l {
				var ts []*Term
				for _, r := range grp {
					ts = append(ts, r.vals[i].l[j])
				}
				nv.l[j] = pick(ts, "val")
			}
		}
		res.vals = append(res.vals, nv)
	}
	return res
}

// storeRoot: the array all terms are updates of, and the references they update.
func storeRoot(ts []*Term) (*Term, []*Term) {
	if ts[0].sort.dom == nil {
		return nil, nil
	}
	depth := func(t *Term) (n int) {
		for t.op == OStore {
			t = t.args[0]
			n++
		}
		return
	}
	cur := append([]*Term{}, ts...)
	var refs []*Term
	has := map[*Term]bool{}
	for {
		eq := true
		for _, t := range cur[1:] {
			if t != cur[0] {
				eq = false
			}
		}
		if eq {
			break
		}
		mi, md := -1, 0
		for i, t := range cur {
			if d := depth(t); d > md {
				mi, md = i, d
			}
		}
		if mi < 0 {
			return nil, nil
		}
		r := cur[mi].args[1]
		if !has[r] {
			has[r] = true
			refs = append(refs, r)
		}
		cur[mi] = cur[mi].args[0]
		if len(refs) > 6 {
			return nil, nil
		}
	}
	sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
	return cur[0], refs
}
