package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Concurrent mode.  A function is executed as one of any number of goroutines: whenever it acquires the lock
// of a monitor object everything the lock guards is replaced by arbitrary contents that satisfy the monitor
// invariant, whenever it gives up the exclusive lock the invariant (and the guarantees of the contract) must
// hold again, and every access to guarded data must happen with the lock held (exclusively for writes).

type ownerInfo struct {
	mon *Monitor
	ref *Term
}

// monitorOf: the monitor a type belongs to, if any.
func (x *Exec) monitorOf(t types.Type) *Monitor {
	if t == nil {
		return nil
	}
	p, n := named(t)
	if p != x.g.modpath {
		return nil
	}
	return x.g.spec.monitors[n]
}

// entryMon: objects that live inside a monitor (their mutable fields are guarded by its lock).
func (x *Exec) entryMon(t types.Type) *Monitor {
	if t == nil {
		return nil
	}
	p, n := named(t)
	if p != x.g.modpath || n == "" {
		return nil
	}
	for _, m := range x.g.spec.monitors {
		for _, e := range m.entries {
			if e == n {
				return m
			}
		}
	}
	return nil
}

func (m *Monitor) ownsField(f string) bool {
	for _, o := range m.owns {
		if o.e.s == f {
			return true
		}
	}
	return false
}

func (m *Monitor) immutable(typ, f string) bool {
	for _, i := range m.imm {
		if i == typ+"."+f {
			return true
		}
	}
	return false
}

func (x *Exec) local(st *State, r *Term) bool { return freshRef(r) != nil && !st.pub[r] }

// owners of a reference: looked up through conditional values.
func (x *Exec) owners(st *State, r *Term) []ownerInfo {
	var out []ownerInfo
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if x.local(st, t) {
			return
		}
		if o, ok := x.owner[t]; ok {
			if !x.local(st, o.ref) {
				out = append(out, o)
			}
			return
		}
		if t.op == OIte {
			rec(t.args[1])
			rec(t.args[2])
		}
		if t.op == OCtor {
			for _, a := range t.args {
				rec(a)
			}
		}
	}
	rec(r)
	return out
}

// need states that the lock of the owner is held.
func (x *Exec) need(st *State, o ownerInfo, excl bool, what string, pos token.Pos) {
	if !x.conc || x.trial > 0 || st.dead {
		return
	}
	c := x.c
	var any []*Term
	var ks []string
	for k := range st.locks {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		l := st.locks[k]
		if l.name == o.mon.typ && (l.w > 0 || l.r > 0 && !excl) {
			any = append(any, c.Eq(l.ref, o.ref))
		}
	}
	mode := "with the lock held"
	if excl {
		mode = "with the exclusive lock held"
	}
	x.ob(st, "lock", what+" only "+mode, nil, c.Or(any...), x.pos(pos))
}

func (x *Exec) fieldOf(a *Addr) string {
	f := a.path
	if i := strings.IndexByte(f, '.'); i >= 0 {
		f = f[:i]
	}
	return f
}

func isMutex(t types.Type) bool {
	p, n := named(t)
	return p == "sync" && (n == "Mutex" || n == "RWMutex")
}

func (x *Exec) access(st *State, a *Addr, w bool, pos token.Pos) {
	if !x.conc {
		return
	}
	verb := "read of "
	if w {
		verb = "write of "
	}
	switch a.kind {
	case 'G':
		if w {
			x.ob(st, "lock", "write of package variable "+a.path+" (unsynchronised)", nil, x.c.F, x.pos(pos))
		}
		return
	case 'E', 'A':
		for _, o := range x.owners(st, a.ref) {
			x.need(st, o, w, verb+"guarded data of "+o.mon.typ, pos)
		}
		return
	}
	if x.local(st, a.ref) {
		return
	}
	if m := x.monitorOf(a.own); m != nil {
		f := x.fieldOf(a)
		if f == "" { // the whole structure
			x.need(st, ownerInfo{m, a.ref}, w, verb+"a whole "+m.typ, pos)
			if w {
				x.ob(st, "lock", "overwrite of a shared "+m.typ, nil, x.c.F, x.pos(pos))
			}
			return
		}
		if m.ownsField(f) {
			x.need(st, ownerInfo{m, a.ref}, w, verb+m.typ+"."+f, pos)
		} else if w {
			x.ob(st, "lock", "write of "+m.typ+"."+f+", which is read without lock", nil, x.c.F, x.pos(pos))
		}
		return
	}
	if m := x.entryMon(a.own); m != nil {
		_, n := named(a.own)
		f := x.fieldOf(a)
		if f != "" && m.immutable(n, f) {
			if w {
				x.ob(st, "lock", "write of "+n+"."+f+" of a shared entry, which is read without lock", nil, x.c.F, x.pos(pos))
			}
			return
		}
		os := x.owners(st, a.ref)
		if len(os) == 0 {
			x.ob(st, "lock", verb+n+"."+f+" of an entry of unknown owner", nil, x.c.F, x.pos(pos))
		}
		for _, o := range os {
			x.need(st, o, w, verb+n+"."+f, pos)
		}
		return
	}
	for _, o := range x.owners(st, a.ref) {
		x.need(st, o, w, verb+"guarded data of "+o.mon.typ, pos)
	}
}

func (x *Exec) raceRead(fr *Frame, st *State, a *Addr, pos token.Pos)  { x.access(st, a, false, pos) }
func (x *Exec) raceWrite(fr *Frame, st *State, a *Addr, pos token.Pos) { x.access(st, a, true, pos) }

func (x *Exec) raceMap(fr *Frame, st *State, m Value, w bool, pos token.Pos) {
	x.raceRef(st, m, w, pos)
}
func (x *Exec) raceSlice(fr *Frame, st *State, m Value, w bool, pos token.Pos) {
	x.raceRef(st, m, w, pos)
}
func (x *Exec) raceRef(st *State, m Value, w bool, pos token.Pos) {
	if !x.conc || len(m.l) == 0 {
		return
	}
	verb := "read of "
	if w {
		verb = "write of "
	}
	for _, o := range x.owners(st, m.l[0]) {
		x.need(st, o, w, verb+"guarded data of "+o.mon.typ, pos)
	}
}

// raceIface: calls on a value kept inside a monitor; methods that modify need the exclusive lock.
func (x *Exec) raceIface(fr *Frame, st *State, r Value, ct *Contract, pos token.Pos) {
	if !x.conc {
		return
	}
	for _, o := range x.owners(st, r.l[0]) {
		x.need(st, o, !ct.pure && ct.opts["reads"] == "", "call of "+ct.name+" on the wrapped data", pos)
	}
	if x.record && x.trial == 0 && ct.opts["nopanic"] == "" {
		s2 := st.clone()
		s2.ev("%s panics at %s", ct.name, x.pos(pos))
		x.panicOut(fr, s2, ct.name, x.pos(pos))
	}
}

func (x *Exec) refLeaf(t types.Type, entry bool) bool {
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return true
	case *types.Pointer:
		return !entry || x.entryMon(u.Elem()) != nil
	case *types.Interface:
		return !entry
	}
	return false
}

func (x *Exec) tagLoad(st *State, a *Addr, v Value) {
	if len(v.l) == 0 {
		return
	}
	switch a.kind {
	case 'O':
		if m := x.monitorOf(a.own); m != nil {
			if f := x.fieldOf(a); m.ownsField(f) && f == a.path && x.refLeaf(v.t, false) {
				x.tag(v.l[0], ownerInfo{m, a.ref})
			}
		}
	case 'E':
		if x.refLeaf(v.t, true) {
			for _, o := range x.owners(st, a.ref) {
				x.tag(v.l[0], o)
			}
		}
	}
}

func (x *Exec) tag(t *Term, o ownerInfo) {
	if t.op == OInt {
		return
	}
	if t.op == OIte {
		x.tag(t.args[1], o)
		x.tag(t.args[2], o)
		return
	}
	if _, ok := x.owner[t]; !ok {
		x.owner[t] = o
	}
}

func (x *Exec) tagElem(st *State, m, v Value) {
	if len(v.l) > 0 && x.refLeaf(v.t, true) {
		for _, o := range x.owners(st, m.l[0]) {
			x.tag(v.l[0], o)
		}
	}
}

func (x *Exec) tagBox(o, r Value) {}

// publish: a reference stored where other goroutines can reach it is no longer local.
func (x *Exec) publish(st *State, a *Addr, v Value) {
	if !x.conc {
		return
	}
	if a.kind == 'O' || a.kind == 'E' || a.kind == 'A' {
		if x.local(st, a.ref) {
			return
		}
	}
	var o *ownerInfo
	if a.kind == 'O' {
		if m := x.monitorOf(a.own); m != nil && m.ownsField(x.fieldOf(a)) {
			o = &ownerInfo{m, a.ref}
		}
	}
	if o == nil && a.ref != nil {
		if os := x.owners(st, a.ref); len(os) > 0 {
			o = &os[0]
		}
	}
	for _, l := range v.l {
		x.pubTerm(st, l, o)
	}
}

func (x *Exec) publishInto(st *State, ref *Term, v Value) {
	if !x.conc || x.local(st, ref) {
		return
	}
	var o *ownerInfo
	if os := x.owners(st, ref); len(os) > 0 {
		o = &os[0]
	}
	for _, l := range v.l {
		x.pubTerm(st, l, o)
	}
}

func (x *Exec) pubTerm(st *State, t *Term, o *ownerInfo) {
	switch {
	case t.op == OIte:
		x.pubTerm(st, t.args[1], o)
		x.pubTerm(st, t.args[2], o)
	case t.op == OCtor:
		for _, a := range t.args {
			x.pubTerm(st, a, o)
		}
	case t.sort == IntS && freshRef(t) != nil && !st.pub[t]:
		st.pub[t] = true
		for _, r := range x.recs {
			if r.pub == nil {
				r.pub = map[*Term]bool{}
			}
			r.pub[t] = true
		}
		if o != nil {
			x.tag(t, *o)
		}
		// what it refers to becomes reachable too
		var ns []string
		for n := range st.heap {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			h := st.heap[n]
			if !strings.HasPrefix(n, "O:") || h.sort.dom != IntS || h.sort.rng != IntS && h.sort.rng != ValS {
				continue
			}
			if v := x.c.Select(h, t); v != t && (freshRef(v) != nil || v.op == OCtor) {
				x.pubTerm(st, v, o)
			}
		}
	}
}

// concCallback: user code runs; it may use the object itself, so no lock may be held, and it may panic.
func (x *Exec) concCallback(fr *Frame, st *State, pos token.Pos) {
	if !x.conc {
		x.seqEvents++
		return
	}
	x.ob(st, "lock", "user function called without holding a lock", nil, x.c.Bool(len(st.locks) == 0), x.pos(pos))
	if x.record && x.trial == 0 {
		s2 := st.clone()
		s2.ev("user function panics at %s", x.pos(pos))
		x.panicOut(fr, s2, "user function", x.pos(pos))
	}
}

func (x *Exec) lockKey(m *Monitor, ref *Term) string { return fmt.Sprintf("%s#%d", m.typ, ref.id) }

func (x *Exec) lockOp(fr *Frame, st *State, a Value, op string, pos token.Pos, k cont) {
	if !x.conc {
		x.seqEvents++
		if strings.HasPrefix(op, "Try") {
			k(st, x.freshVal("try", types.Typ[types.Bool]))
			return
		}
		k(st, Value{})
		return
	}
	c := x.c
	ad := x.addrOf(a)
	m := x.monitorOf(ad.own)
	if ad.kind != 'O' || m == nil || strings.HasPrefix(op, "Try") {
		x.unsup("lock operation %s on something that is not a monitor at %s", op, x.pos(pos))
	}
	if f := x.fieldOf(ad); f != m.lock {
		// another field: acceptable only if it is the one mutex of the structure
		n := 0
		s := ad.own.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if isMutex(s.Field(i).Type()) {
				n++
			}
		}
		if n != 1 {
			x.unsup("several locks in %s", m.typ)
		}
	}
	key := x.lockKey(m, ad.ref)
	l := st.locks[key]
	l.ref, l.name, l.typ = ad.ref, m.typ, ad.own
	lk := func(s string) string { return m.typ + " " + s }
	switch op {
	case "Lock", "RLock":
		ok := l.r == 0 && l.w == 0
		goal := []*Term{c.Bool(ok)}
		var ks []string
		for k2 := range st.locks {
			ks = append(ks, k2)
		}
		sort.Strings(ks)
		for _, k2 := range ks {
			o := st.locks[k2]
			if k2 != key && o.name == m.typ {
				goal = append(goal, c.Not(c.Eq(o.ref, ad.ref)))
			}
		}
		x.ob(st, "lock", lk(op+" while not already holding the lock (self-deadlock)"), nil, c.And(goal...), x.pos(pos))
		if !ok {
			st.dead = true
			return
		}
		if op == "Lock" {
			l.w++
		} else {
			l.r++
		}
		st.ev("%s.%s at %s", m.typ, op, x.pos(pos))
		x.acquire(st, m, ad)
		st.locks[key] = l
		if op == "Lock" {
			st.acq = st.clone()
		}
	case "Unlock", "RUnlock":
		held := l.w > 0
		if op == "RUnlock" {
			held = l.r > 0
		}
		x.ob(st, "lock", lk(op+" of a lock that is held"), nil, c.Bool(held), x.pos(pos))
		if !held {
			st.dead = true
			return
		}
		st.ev("%s.%s at %s", m.typ, op, x.pos(pos))
		if op == "Unlock" {
			x.release(st, m, ad, pos)
			st.acq = nil
		}
		delete(st.locks, key)
	}
	k(st, Value{})
}

// guarded lists the components (and materialises them) the lock of a monitor protects.
func (x *Exec) guarded(st *State, m *Monitor, own types.Type) []string {
	c := x.c
	set := map[string]bool{}
	seen := map[string]bool{}
	var ty func(t types.Type)
	ty = func(t types.Type) {
		ts := types.TypeString(t, nil)
		if seen[ts] {
			return
		}
		seen[ts] = true
		switch u := t.Underlying().(type) {
		case *types.Map:
			if len(x.leafSorts(u.Key())) != 1 {
				return
			}
			x.mapComps(st, u)
			fam := x.g.mapKey(t)
			for n := range x.compSort {
				if strings.HasPrefix(n, fam+":") {
					set[n] = true
				}
			}
			ty(u.Elem())
		case *types.Slice:
			for i, s := range x.leafSorts(u.Elem()) {
				n := fmt.Sprintf("%s:%d", x.g.elemKey(u.Elem()), i)
				st.comp(n, c.ArrS(IntS, c.ArrS(IntS, s)))
				set[n] = true
			}
			ty(u.Elem())
		case *types.Pointer:
			em := x.entryMon(u.Elem())
			if em != m {
				return
			}
			_, tn := named(u.Elem())
			sct := u.Elem().Underlying().(*types.Struct)
			ls := x.leafSorts(u.Elem())
			for i := 0; i < sct.NumFields(); i++ {
				lo, k := x.g.fieldRange(u.Elem(), i)
				imm := m.immutable(tn, sct.Field(i).Name())
				for j := lo; j < lo+k; j++ {
					n := fmt.Sprintf("%s:%d", x.g.objKey(u.Elem()), j)
					st.comp(n, c.ArrS(IntS, ls[j]))
					if !imm {
						set[n] = true
					}
				}
				ty(sct.Field(i).Type())
			}
		}
	}
	sct := own.Underlying().(*types.Struct)
	ls := x.leafSorts(own)
	for i := 0; i < sct.NumFields(); i++ {
		if !m.ownsField(sct.Field(i).Name()) {
			continue
		}
		lo, k := x.g.fieldRange(own, i)
		for j := lo; j < lo+k; j++ {
			n := fmt.Sprintf("%s:%d", x.g.objKey(own), j)
			st.comp(n, c.ArrS(IntS, ls[j]))
			set[n] = true
		}
		ty(sct.Field(i).Type())
	}
	for n := range m.extra {
		if srt := x.compSort[n]; srt != nil {
			set[n] = true
		}
	}
	var out []string
	for n := range set {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (x *Exec) acquire(st *State, m *Monitor, ad *Addr) {
	c := x.c
	base := c.Fresh("alloc", IntS)
	base.base = true
	for _, n := range x.guarded(st, m, ad.own) {
		srt := x.compSort[n]
		cur := st.comp(n, srt)
		f := c.Fresh("A!"+n, srt)
		c.comps[f] = compWF{n, base, false}
		t := f
		if srt.dom == IntS {
			for _, r := range st.locals {
				if x.local(st, r) && x.localComps[r][n] {
					t = c.Store(t, r, c.Select(cur, r))
				}
			}
			if len(x.recs) > 0 {
				x.noteWrite(n, c.Fresh("acqref", IntS))
			}
		} else {
			x.noteWrite(n, nil)
		}
		st.heap[n] = t
	}
	st.assume(c.Ge(base, st.alloc))
	st.alloc = base
	x.noteWrite("alloc", nil)
	x.tick(st)
	e := &SEnv{x: x, st: st, old: st, vars: map[string]Value{m.self: {t: types.NewPointer(ad.own), l: []*Term{ad.ref}}}}
	for _, i := range m.inv {
		if x.active(i) {
			st.assume(e.boolT(i.e))
		}
	}
}

func (x *Exec) release(st *State, m *Monitor, ad *Addr, pos token.Pos) {
	split := func(n string, t *Term) {
		ts := []*Term{t}
		if t.op == OAnd {
			ts = t.args
		}
		for i, g := range ts {
			nm := n
			if len(ts) > 1 {
				nm = fmt.Sprintf("%s (%d/%d)", n, i+1, len(ts))
			}
			x.ob(st, "post", nm, nil, g, x.pos(pos))
		}
	}
	e := &SEnv{x: x, st: st, old: st, vars: map[string]Value{m.self: {t: types.NewPointer(ad.own), l: []*Term{ad.ref}}}}
	for _, i := range m.inv {
		if x.active(i) {
			split("the exclusive section leaves "+m.typ+" consistent: "+i.src, e.boolT(i.e))
		}
	}
	for _, cl := range x.root.guar {
		if !x.active(cl) || len(x.params) == 0 || st.acq == nil {
			continue
		}
		e := &SEnv{x: x, st: st, old: st.acq, ent: st.acq, acq: st.acq, vars: x.rootVars()}
		n := cl.label
		if n == "" {
			n = cl.src
		}
		split("the exclusive section guarantees "+n, e.boolT(cl.e))
	}
}

func (x *Exec) concStart(st *State) {}

func (x *Exec) concEnd(st *State, panic bool) {
	if !x.conc || st.dead {
		return
	}
	how := "return"
	if panic {
		how = "panic"
	}
	ok := len(st.locks) == 0
	n := ""
	for _, l := range st.locks {
		n = l.name + " "
	}
	x.ob(st, "lock", n+"unlocked on "+how, nil, x.c.Bool(ok), "")
	x.concExits++
}

// lockBalance: a loop iteration ends with the locks it started with.
func (x *Exec) lockBalance(head, s *State) {
	if !x.conc || s.dead {
		return
	}
	ok := len(head.locks) == len(s.locks)
	for k, l := range head.locks {
		if m, in := s.locks[k]; !in || m.r != l.r || m.w != l.w {
			ok = false
		}
	}
	x.ob(s, "lock", "each loop iteration ends with the locks it started with", nil, x.c.Bool(ok), "")
	if head.acq != s.acq {
		x.unsup("lock released and taken again across a loop iteration")
	}
	if head.defers != s.defers {
		x.unsup("defer inside a loop")
	}
}

// concUsable: contracts state sequential behaviour; in concurrent mode they may be used only for helpers that
// run entirely under the exclusive lock of their receiver.
func (x *Exec) concUsable(ct *Contract, st *State, args []Value) bool {
	if !x.conc {
		return true
	}
	if ct.opts["locked"] == "" || len(args) == 0 || len(args[0].l) == 0 {
		return false
	}
	for _, l := range st.locks {
		if l.w > 0 && l.ref == args[0].l[0] {
			return true
		}
	}
	return false
}
