package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cont = func(st *State, v Value)

func (x *Exec) call(fr *Frame, call *ssa.CallCommon, fv Value, args []Value, in *ssa.Call, pos token.Pos, st *State, k cont) {
	if st.dead {
		return
	}
	if call.IsInvoke() {
		x.invoke(fr, call, fv, args, pos, st, k)
		return
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		x.builtin(fr, b.Name(), call, args, pos, st, k)
		return
	}
	if fv.clo != nil {
		x.callStatic(fr, fv.clo.fn, args, fv.clo.binds, pos, st, k)
		return
	}
	// unknown function value
	sig := call.Signature()
	x.nonNil(fr, st, fv.l[0], "call of nil function", pos)
	x.callback(fr, st, fv, sig, args, pos, k)
}

func resultValue(fn *types.Signature, vals []Value) Value {
	switch fn.Results().Len() {
	case 0:
		return Value{}
	case 1:
		return vals[0]
	}
	return Value{tup: vals}
}

func (x *Exec) callStatic(fr *Frame, fn *ssa.Function, args []Value, binds []Value, pos token.Pos, st *State, k cont) {
	var w0 *Term
	var before *State
	obj, _ := fn.Object().(*types.Func)
	recv := fn.Signature.Recv()
	if recv == nil || obj == nil || x.conc {
		obj = nil
	} else if x.usesW() {
		w0 = x.worldFor(st, obj)
		if ct := x.g.ifaceContract(obj); ct != nil && ct.opts["private"] != "" && len(ct.modifies) > 0 && x.active(ct.modifies[0]) {
			before = st.clone()
		}
	}
	ret := func(s *State, vals []Value) {
		if obj != nil && !s.dead {
			x.linkIface(recv.Type(), obj, args[0], args[1:], w0, s, vals)
			if before != nil {
				x.linkStack(obj, args, before, s, vals)
			}
		}
		k(s, resultValue(fn.Signature, vals))
	}
	if fn.Pkg == x.g.spkg || fn.Pkg == nil && fn.Blocks != nil || fn.Synthetic != "" && fn.Blocks != nil {
		name := x.g.fnName(fn)
		if ct := x.g.spec.contracts[name]; ct != nil && (ct.modular || fn == x.fn) && !x.noAux[name] && x.concUsable(ct, st, args) {
			x.apply(fr, ct, fn.Signature, name, args, pos, st, ret)
			return
		}
		x.callFn(fr, fn, args, binds, st, pos, ret)
		return
	}
	x.extern(fr, fn, args, pos, st, k)
}

// methodOf finds the package method behind a known dynamic type.
func (x *Exec) methodOf(ctor string, m *types.Func) *ssa.Function {
	for _, ct := range x.g.concTys {
		if x.g.ctorName(ct) == ctor {
			sel := x.g.prog.MethodSets.MethodSet(ct).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				return nil
			}
			return x.g.prog.MethodValue(sel)
		}
	}
	return nil
}

func (x *Exec) invoke(fr *Frame, call *ssa.CallCommon, fv Value, args []Value, pos token.Pos, st *State, k cont) {
	c := x.c
	v := fv.l[0]
	m := call.Method
	x.check(fr, st, c.Not(c.Eq(v, c.Nil())), "nil interface method call", pos)
	if st.dead {
		return
	}
	if v.op == OCtor && v.name != "vother" {
		if fn := x.methodOf(v.name, m); fn != nil && fn.Blocks != nil {
			for _, ct := range x.g.concTys {
				if x.g.ctorName(ct) == v.name {
					recv := Value{t: ct, l: v.args}
					if fn.Pkg == x.g.spkg {
						x.callStatic(fr, fn, append([]Value{recv}, args...), nil, pos, st, k)
						return
					}
				}
			}
		}
	}
	ct := x.g.ifaceContract(m)
	if ct == nil {
		x.unsup("call of interface method %s without interface contract at %s", m.Name(), x.pos(pos))
	}
	x.notes["interface contract "+ct.name+" (every implementer obeys it)"] = true
	sig := m.Type().(*types.Signature)
	recv := Value{t: call.Value.Type(), l: fv.l}
	x.raceIface(fr, st, recv, ct, pos)
	x.escape(st, args)
	for _, a := range args {
		x.markPub(a.t)
	}
	if x.conc || !x.usesW() {
		x.bumpW(st) // another call may see something else
	}
	w0, as := x.world(st), x.flatArgs(args)
	x.apply(fr, ct, sig, ct.name, append([]Value{recv}, args...), pos, st, func(s *State, vals []Value) {
		if ct.opts["mutator"] != "" {
			x.setWorld(s, x.wafter(w0, m, v, as))
		}
		k(s, resultValue(sig, vals))
	})
}

// ifaceContract: matched by method name and signature; an interface the receiver implements goes first (the
// call may go through a narrower interface type).
func (g *Global) ifaceContract(m *types.Func) *Contract {
	var names []string
	for n := range g.spec.ifaces {
		names = append(names, n)
	}
	sort.Strings(names)
	for k := range append(names, names...) {
		n := names[k%len(names)]
		i := strings.LastIndex(n, ".")
		if n[i+1:] != m.Name() {
			continue
		}
		t, _, err := g.specType(n[:i])
		if err != nil {
			continue
		}
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		if rv := m.Type().(*types.Signature).Recv(); k < len(names) && rv != nil && !types.Implements(rv.Type(), it) {
			continue
		}
		for j := 0; j < it.NumMethods(); j++ {
			if it.Method(j).Name() == m.Name() && types.Identical(it.Method(j).Type(), m.Type()) {
				return g.spec.ifaces[n]
			}
		}
	}
	return nil
}

// ---- contracts -----------------------------------------------------------------------------------

func (x *Exec) active(c *Clause) bool {
	if len(c.tags) == 0 {
		return true
	}
	for _, t := range c.tags {
		if t == x.prop || t == "seq" && !x.conc || t == "conc" && x.conc {
			return true
		}
	}
	return false
}

type modItem struct {
	prefix string // component name or prefix ending in ':'
	ref    *Term  // nil: the whole component
	key    *Term  // second-level index (map key), nil: all
}

// modSet evaluates a modifies list in the given environment.
func (x *Exec) modSet(e *SEnv, cls []*Clause) []modItem {
	var out []modItem
	for _, cl := range cls {
		if !x.active(cl) {
			continue
		}
		ex := cl.e
		name := ex.s
		if ex.op == "id" {
			switch name {
			case "W", "now", "STK":
				out = append(out, modItem{prefix: name})
				continue
			case "nothing":
				continue
			case "everything":
				out = append(out, modItem{prefix: "*"})
				continue
			}
		}
		if ex.op != "call" {
			e.fail(ex, "modifies: obj(), elems(), map(), field() or a ghost expected")
		}
		v := e.eval(ex.args[0])
		switch name {
		case "obj":
			out = append(out, modItem{prefix: x.g.objKey(v.t.Underlying().(*types.Pointer).Elem()) + ":", ref: v.l[0]})
		case "field":
			// field(p, f): one field of *p
			pt := v.t.Underlying().(*types.Pointer).Elem()
			i := e.fieldIdx(ex, pt, ex.args[1].s)
			lo, n := x.g.fieldRange(pt, i)
			for j := lo; j < lo+n; j++ {
				out = append(out, modItem{prefix: fmt.Sprintf("%s:%d", x.g.objKey(pt), j), ref: v.l[0]})
			}
		case "elems":
			out = append(out, modItem{prefix: x.g.elemKey(v.t.Underlying().(*types.Slice).Elem()) + ":", ref: v.l[0]})
		case "map":
			out = append(out, modItem{prefix: x.g.mapKey(v.t) + ":", ref: v.l[0]})
		case "allobj": // every object of the pointee type
			out = append(out, modItem{prefix: x.g.objKey(v.t.Underlying().(*types.Pointer).Elem()) + ":"})
		case "allmaps":
			out = append(out, modItem{prefix: x.g.mapKey(v.t) + ":"})
		case "allelems":
			out = append(out, modItem{prefix: x.g.elemKey(v.t.Underlying().(*types.Slice).Elem()) + ":"})
		case "stk":
			v = e.coerce(ex, v, types.NewInterfaceType(nil, nil).Complete())
			out = append(out, modItem{prefix: "STK", ref: v.l[0]})
		default:
			e.fail(ex, "modifies: unknown form %s", name)
		}
	}
	return out
}

func (m modItem) covers(comp string) bool {
	if m.prefix == "*" {
		return true
	}
	if m.prefix == "W" && comp == "W!m" {
		return true
	}
	if strings.HasSuffix(m.prefix, ":") {
		return strings.HasPrefix(comp, m.prefix)
	}
	return comp == m.prefix
}

// apply uses a contract at a call site.
func (x *Exec) apply(fr *Frame, ct *Contract, sig *types.Signature, name string, args []Value, pos token.Pos, st *State, k func(*State, []Value)) {
	c := x.c
	x.used[name] = true
	vars := map[string]Value{}
	for i, n := range ct.params {
		if i < len(args) {
			v := args[i]
			if v.addr != nil && len(v.l) == 0 {
				v = Value{t: v.t, l: []*Term{x.addrRef(v)}}
			}
			vars[n] = v
		}
	}
	old := st.clone()
	e := &SEnv{x: x, st: st, old: st, vars: vars}
	for _, l := range ct.lets {
		vars[l.label] = e.eval(l.e)
	}
	for _, r := range ct.requires {
		if x.active(r) {
			t := e.boolT(r.e)
			if x.conc {
				x.check(fr, st, t, "precondition of "+name+": "+r.src, pos)
			} else {
				x.ob(st, "pre", "precondition of "+name+": "+r.src, nil, t, x.pos(pos))
			}
		}
	}
	if st.dead {
		return
	}
	eo := &SEnv{x: x, st: old, old: old, vars: vars}
	mods := x.modSet(eo, ct.modifies)
	inact := false
	for _, m := range ct.modifies {
		if !x.active(m) {
			inact = true // not verified for this property
		}
	}
	if (ct.opts["modifies"] == "" || inact) && !ct.pure {
		mods = append(mods, modItem{prefix: "*"})
	}
	if !ct.pure {
		base := c.Fresh("alloc", IntS)
		base.base = true
		st.assume(c.Ge(base, st.alloc))
		st.alloc = base
		x.noteWrite("alloc", nil)
		x.havoc(st, old, mods)
		if o := ct.opts["allocs"]; o != "" {
			// the callee's list of allocated objects
			if x.root.opts["allocs"] != "" {
				x.unsup("%s has a list of allocated objects of its own", name)
			}
			if t, _, err := x.g.specType(o); err == nil && t != nil {
				key := x.g.objKey(t)
				st.setComp("X:#"+key, c.Fresh("nalloc", IntS), nil)
				st.setComp("X:@"+key, c.Fresh("allocd", c.ArrS(IntS, IntS)), nil)
				x.noteWrite("X:#"+key, nil)
				x.noteWrite("X:@"+key, nil)
			}
		}
		hasW, heap := false, false
		for _, m := range mods {
			hasW = hasW || m.prefix == "W" || m.prefix == "*"
			heap = heap || m.prefix != "now" && m.prefix != "STK" && m.prefix != "W"
		}
		if heap && !hasW && !x.conc && x.usesW() && ct.opts["private"] == "" {
			x.bumpW(st)
		}
	}
	var rets []Value
	var mf *types.Func
	if ct.pure && x.g.spec.ifaces[ct.name] == ct {
		mf = x.g.ifaceMethod(ct.name)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if mf != nil {
			rets = append(rets, x.mcall(x.worldFor(st, mf), mf, i, args[0].l[0], x.flatArgs(args[1:])))
			x.assumeTypeFacts(st, rets[i])
			continue
		}
		v := x.freshVal("ret."+short(name), sig.Results().At(i).Type())
		x.assumeTypeFacts(st, v)
		rets = append(rets, v)
	}
	en := &SEnv{x: x, st: st, old: old, vars: map[string]Value{}}
	for n, v := range vars {
		en.vars[n] = v
	}
	for i, n := range ct.results {
		en.vars[n] = rets[i]
	}
	for _, cl := range ct.ensures {
		if x.active(cl) {
			// definitional results become plain terms
			st.assume(en.boolT(cl.e))
		}
	}
	for _, cl := range ct.yields {
		if x.active(cl) {
			st.assume(en.boolT(cl.e))
		}
	}
	x.guardCall(name, x.pos(pos), old, st)
	k(st, rets)
}

// guardCall notes a use of a contract; what it promises must not contradict what was known before
// (vacuity guard, evaluated at the end of the function).
func (x *Exec) guardCall(name, pos string, before, after *State) {
	if !x.record || x.trial > 0 || after.dead {
		return
	}
	key := name + "@" + pos
	n := 0
	for _, g := range x.guards {
		if g.key == key {
			n++
		}
	}
	if n >= 3 || len(x.guards) >= 80 {
		return
	}
	x.guards = append(x.guards, callGuard{key, before.pcs(), after.pcs()})
}

// havoc: written components are arbitrary at the named references; newly allocated objects are unknown.
func (x *Exec) havoc(st, old *State, mods []modItem) {
	c := x.c
	var names []string
	for n := range x.compSort {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		srt := x.compSort[n]
		if strings.HasPrefix(n, "I:") {
			continue
		}
		var refs []*Term
		whole := false
		hit := false
		for _, m := range mods {
			if m.covers(n) {
				if m.prefix == "*" && (n == "now" || strings.HasPrefix(n, "G:")) {
					continue
				}
				hit = true
				if m.ref == nil {
					whole = true
				} else {
					refs = append(refs, m.ref)
				}
			}
		}
		if !hit {
			continue
		}
		cur := st.comp(n, srt)
		if whole || srt.dom == nil {
			f := c.Fresh("C!"+n, srt)
			c.comps[f] = compWF{n, st.alloc, false}
			if n == "now" {
				st.assume(c.Ge(f, cur))
			}
			st.heap[n] = f
			x.noteWrite(n, nil)
			if srt.dom == IntS {
				x.noteFull(n)
			}
			continue
		}
		t := cur
		for _, r := range refs {
			f := c.Fresh("C!"+n, srt.rng)
			c.comps[f] = compWF{n, st.alloc, true}
			t = c.Store(t, r, f)
			x.noteWrite(n, r)
		}
		st.heap[n] = t
	}
}

// noteFull records a write at an unknown reference.
func (x *Exec) noteFull(n string) {
	if len(x.recs) > 0 {
		x.noteWrite(n, x.c.Fresh("anyref", IntS))
	}
}

// ---- function values -------------------------------------------------------------------------------

func (x *Exec) fcall(f Value, sig *types.Signature, as []*Term) Value {
	c := x.c
	name := "fcall!" + types.TypeString(sig, x.g.qual)
	if sig.Results().Len() != 1 {
		x.unsup("function value with %d results", sig.Results().Len())
	}
	rt := sig.Results().At(0).Type()
	r := Value{t: rt}
	for i, s := range x.leafSorts(rt) {
		r.l = append(r.l, c.App(fmt.Sprintf("%s!%d", name, i), s, append([]*Term{f.l[0]}, as...)...))
	}
	return r
}

// callback: a call of a user-supplied function value.
func (x *Exec) callback(fr *Frame, st *State, f Value, sig *types.Signature, args []Value, pos token.Pos, k cont) {
	x.notes["user function value: deterministic in its arguments, does not touch package state"] = true
	x.concCallback(fr, st, pos)
	var as []*Term
	for _, a := range args {
		if a.addr != nil && len(a.l) == 0 {
			as = append(as, x.addrRef(a))
			continue
		}
		as = append(as, a.l...)
	}
	if sig.Results().Len() == 0 {
		k(st, Value{})
		return
	}
	r := x.fcall(f, sig, as)
	// time passes
	x.tick(st)
	k(st, r)
}

// tick: the clock moves on by an unknown non-negative amount.
func (x *Exec) tick(st *State) *Term {
	c := x.c
	cur := st.comp("now", IntS)
	f := c.Fresh("now", IntS)
	st.assume(c.Ge(f, cur))
	st.setComp("now", f, nil)
	return f
}

// ---- builtins ------------------------------------------------------------------------------------------

func (x *Exec) builtin(fr *Frame, name string, call *ssa.CallCommon, args []Value, pos token.Pos, st *State, k cont) {
	c := x.c
	switch name {
	case "len", "cap":
		v := args[0]
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			if name == "len" {
				k(st, iv(v.l[2]))
			} else {
				k(st, iv(v.l[3]))
			}
		case *types.Map:
			x.raceMap(fr, st, v, false, pos)
			x.mapFacts(st, u, v.l[0])
			_, ln, _, _ := x.mapComps(st, u)
			k(st, iv(c.Select(ln, v.l[0])))
		case *types.Basic:
			k(st, iv(c.StrLen(v.l[0])))
		case *types.Array:
			k(st, iv(c.Int(u.Len())))
		case *types.Pointer:
			k(st, iv(c.Int(u.Elem().Underlying().(*types.Array).Len())))
		default:
			x.unsup("len of %v", v.t)
		}
	case "append":
		x.appendSlice(fr, st, args[0], args[1], pos, k)
	case "copy":
		x.copySlice(fr, st, args[0], args[1], pos, k)
	case "delete":
		x.mapDelete(fr, st, args[0], args[1], pos)
		k(st, Value{})
	case "print", "println":
		k(st, Value{})
	case "min", "max":
		r := args[0].l[0]
		for _, a := range args[1:] {
			if name == "min" {
				r = c.Ite(c.Le(r, a.l[0]), r, a.l[0])
			} else {
				r = c.Ite(c.Ge(r, a.l[0]), r, a.l[0])
			}
		}
		k(st, Value{t: args[0].t, l: []*Term{r}})
	case "clear":
		mt, ok := args[0].t.Underlying().(*types.Map)
		if !ok {
			x.unsup("clear of %v", args[0].t)
		}
		x.raceMap(fr, st, args[0], true, pos)
		ref := args[0].l[0]
		dom, ln, _, fam := x.mapComps(st, mt)
		st.setComp(fam+":D", c.Store(dom, ref, c.ConstArr(dom.sort.rng, c.F)), ref)
		st.setComp(fam+":L", c.Store(ln, ref, c.Int(0)), ref)
		k(st, Value{})
	case "ssa:wrapnilchk":
		x.nonNil(fr, st, x.ptrTerm(args[0]), "nil pointer dereference", pos)
		k(st, args[0])
	default:
		x.unsup("builtin %s at %s", name, x.pos(pos))
	}
}

func (x *Exec) innerArr(st *State, et types.Type, j int, ref *Term) (*Term, string) {
	c := x.c
	n := fmt.Sprintf("%s:%d", x.g.elemKey(et), j)
	s := x.leafSorts(et)[j]
	return c.Select(st.comp(n, c.ArrS(IntS, c.ArrS(IntS, s))), ref), n
}

func (x *Exec) appendSlice(fr *Frame, st *State, s, t Value, pos token.Pos, k cont) {
	c := x.c
	stp, ok := s.t.Underlying().(*types.Slice)
	if !ok {
		x.unsup("append to %v", s.t)
	}
	et := stp.Elem()
	x.markPub(et)
	ls := x.leafSorts(et)
	arr, off, ln, cp := s.l[0], s.l[1], s.l[2], s.l[3]
	var src []*Term
	var toff, tlen *Term
	if b, ok := t.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		src = []*Term{c.App("bytesOf", c.ArrS(IntS, IntS), t.l[0])}
		toff, tlen = c.Int(0), c.StrLen(t.l[0])
	} else {
		x.raceSlice(fr, st, t, false, pos)
		for j := range ls {
			a, _ := x.innerArr(st, et, j, t.l[0])
			src = append(src, a)
		}
		toff, tlen = t.l[1], t.l[2]
	}
	if tlen == c.Int(0) {
		k(st, s)
		return
	}
	x.raceSlice(fr, st, s, false, pos)
	nlen := c.Add(ln, tlen)
	build := func(st *State, ref *Term) {
		for j := range ls {
			A, n := x.innerArr(st, et, j, arr)
			var B *Term
			if tlen.op == OInt && tlen.k <= 8 {
				B = A
				for i := int64(0); i < tlen.k; i++ {
					B = c.Store(B, c.Add(off, ln, c.Int(i)), c.Select(src[j], c.Add(toff, c.Int(i))))
				}
			} else {
				B = c.Fresh("app", A.sort)
				B.defd = true
				q := c.BVar("qd7", IntS)
				end := c.Add(off, nlen)
				mid := c.Add(off, ln)
				// (what lies beyond the length of a new array is never read: reslicing stays within the length)
				st.assume(c.Forall([]*Term{q}, c.Imp(c.Or(c.Lt(q, mid), c.Ge(q, end)), c.Eq(c.Select(B, q), c.Select(A, q)))))
				sh := c.Sub(toff, mid)
				st.assume(c.Forall([]*Term{q}, c.Imp(c.And(c.Ge(q, mid), c.Lt(q, end)), c.Eq(c.Select(B, q), c.Select(src[j], c.Add(q, sh))))))
				// positions in the concatenation (a consequence, stated for the solver)
				if len(ls) == 1 {
					k := c.BVar("qdk", ls[j])
					pa, pb := c.Pos(A, off, ln, k), c.Pos(src[j], toff, tlen, k)
					st.assume(c.Forall([]*Term{k}, c.Eq(c.Pos(B, off, nlen, k), c.Ite(c.Ge(pa, c.Int(0)), pa, c.Ite(c.Ge(pb, c.Int(0)), c.Add(ln, pb), c.Int(-1))))))
				}
			}
			cc := st.comp(n, c.ArrS(IntS, A.sort))
			w := ref
			if ref.op == OIte {
				w = ref.args[2]
			}
			st.setComp(n, c.Store(cc, ref, B), w)
		}
	}
	fits := st.decide(c.Le(nlen, cp))
	switch fits {
	case c.T:
		x.raceSlice(fr, st, s, true, pos)
		build(st, arr)
		k(st, Value{t: s.t, l: []*Term{arr, off, nlen, cp}})
		return
	case c.F:
	default:
		x.raceSlice(fr, st, s, true, pos)
	}
	// one state for both outcomes: the array is either the old one or a new one
	ref := st.newRef()
	ncap := c.Fresh("cap", IntS)
	st.assume(c.Ge(ncap, nlen))
	if fits != c.F {
		for j := range ls {
			x.noteWrite(fmt.Sprintf("%s:%d", x.g.elemKey(et), j), arr)
		}
		x.touchW(st, x.g.elemKey(et)+":0", arr, fits)
	}
	x.initing++
	build(st, c.Ite(fits, arr, ref))
	x.initing--
	k(st, Value{t: s.t, l: []*Term{c.Ite(fits, arr, ref), off, nlen, c.Ite(fits, cp, ncap)}})
}

func (x *Exec) copySlice(fr *Frame, st *State, d, s Value, pos token.Pos, k cont) {
	c := x.c
	et := d.t.Underlying().(*types.Slice).Elem()
	ls := x.leafSorts(et)
	var slen, soff *Term
	var src []*Term
	if b, ok := s.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		src = []*Term{c.App("bytesOf", c.ArrS(IntS, IntS), s.l[0])}
		slen, soff = c.StrLen(s.l[0]), c.Int(0)
	} else {
		x.raceSlice(fr, st, s, false, pos)
		for j := range ls {
			a, _ := x.innerArr(st, et, j, s.l[0])
			src = append(src, a)
		}
		slen, soff = s.l[2], s.l[1]
	}
	x.raceSlice(fr, st, d, true, pos)
	le := st.decide(c.Le(slen, d.l[2]))
	n := c.Ite(le, slen, d.l[2])
	for j := range ls {
		A, nm := x.innerArr(st, et, j, d.l[0])
		B := c.Fresh("cpy", A.sort)
		B.defd = true
		q := c.BVar("qd7", IntS)
		end := c.Add(d.l[1], n)
		st.assume(c.Forall([]*Term{q}, c.Imp(c.Or(c.Lt(q, d.l[1]), c.Ge(q, end)), c.Eq(c.Select(B, q), c.Select(A, q)))))
		st.assume(c.Forall([]*Term{q}, c.Imp(c.And(c.Ge(q, d.l[1]), c.Lt(q, end)), c.Eq(c.Select(B, q), c.Select(src[j], c.Add(q, c.Sub(soff, d.l[1])))))))
		cc := st.comp(nm, c.ArrS(IntS, A.sort))
		st.setComp(nm, c.Store(cc, d.l[0], B), d.l[0])
	}
	k(st, iv(n))
}

// escape: arguments handed to unknown code are published.
func (x *Exec) escape(st *State, args []Value) {
	for _, a := range args {
		for _, l := range a.l {
			x.escapeTerm(st, l)
		}
	}
}
func (x *Exec) escapeTerm(st *State, l *Term) {
	if freshRef(l) != nil {
		st.pub[l] = true
	}
	if l.op == OCtor {
		for _, a := range l.args {
			x.escapeTerm(st, a)
		}
	}
}
