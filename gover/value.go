package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value: its type and the terms of its scalar leaves.
type Value struct {
	t    types.Type
	l    []*Term
	addr *Addr    // interior pointer (field, element, global)
	clo  *Closure // known function value
	iter *Iter
	tup  []Value
	sort *Sort // specification-only values (t == nil)
}

type Addr struct {
	kind byte // 'O' object, 'E' slice element, 'G' global
	key  string
	ref  *Term
	idx  *Term
	lo   int
	t    types.Type // pointee
	path string     // field path, identifies locks
	own  types.Type // type of the object the path starts from
}

type Closure struct {
	fn    *ssa.Function
	binds []Value
}

type Iter struct {
	id   int
	fam  string
	ref  *Term
	mt   *types.Map
	str  bool
	live bool
}

type PC struct {
	t    *Term
	prev *PC
	n    int
}

type deferRec struct {
	frame int
	fn    func(st *State, k func(*State))
	next  *deferRec
}

type lockSt struct {
	r, w int
	ref  *Term
	name string
	typ  types.Type
}

type State struct {
	x      *Exec
	heap   map[string]*Term
	pc     *PC
	alloc  *Term
	alloc0 *Term
	defers *deferRec
	locks  map[string]lockSt
	dead   bool
	pub    map[*Term]bool // fresh references that have been published (concurrent mode)
	trace  *traceEv
	locals []*Term // references allocated on this path
	acq    *State  // snapshot at the last exclusive acquisition (concurrent mode)
}

type traceEv struct {
	s    string
	prev *traceEv
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.locks = make(map[string]lockSt, len(s.locks))
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.pub = make(map[*Term]bool, len(s.pub))
	for k := range s.pub {
		n.pub[k] = true
	}
	return &n
}

func (s *State) ev(f string, a ...any) {
	s.trace = &traceEv{fmt.Sprintf(f, a...), s.trace}
}

func (s *State) assume(t *Term) {
	c := s.x.c
	if t == c.T {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if t == c.F {
		s.dead = true
	}
	if s.knows(t) {
		return
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &PC{t, s.pc, n}
}

func (s *State) knows(t *Term) bool {
	for p := s.pc; p != nil; p = p.prev {
		if p.t == t {
			return true
		}
	}
	return false
}

// decide tries to settle a condition from the path condition by cheap syntactic means.
func (s *State) decide(t *Term) *Term {
	c := s.x.c
	if t == c.T || t == c.F {
		return t
	}
	if t.op == OAnd || t.op == OOr {
		var as []*Term
		for _, a := range t.args {
			as = append(as, s.decide(a))
		}
		return c.rebuild(t, as)
	}
	if t.op == ONot {
		return c.Not(s.decide(t.args[0]))
	}
	nt := c.Not(t)
	for p := s.pc; p != nil; p = p.prev {
		u := p.t
		if u == t {
			return c.T
		}
		if u == nt {
			return c.F
		}
		switch t.op {
		case OTest:
			if u.op == OTest && u.args[0] == t.args[0] && u.name != t.name {
				return c.F
			}
			if u.op == OEq {
				for i := 0; i < 2; i++ {
					if u.args[i] == t.args[0] && u.args[1-i].op == OCtor {
						return c.Bool(u.args[1-i].name == t.name)
					}
				}
			}
		case OGe0:
			if u.op == OGe0 {
				d := c.Sub(t.args[0], u.args[0])
				if d.op == OInt && d.k >= 0 {
					return c.T
				}
				e := c.Add(t.args[0], u.args[0])
				if e.op == OInt && e.k < 0 {
					return c.F
				}
			}
			if u.op == OEq && u.args[0].sort == IntS {
				d := c.Sub(u.args[0], u.args[1])
				for _, e := range []*Term{c.Sub(t.args[0], d), c.Add(t.args[0], d)} {
					if e.op == OInt {
						return c.Bool(e.k >= 0)
					}
				}
			}
		case OEq:
			if t.args[0].sort == IntS && u.op == OGe0 {
				d := c.Sub(t.args[0], t.args[1])
				for _, e := range []*Term{c.Add(u.args[0], d), c.Sub(u.args[0], d)} {
					if e.op == OInt && e.k < 0 {
						return c.F
					}
				}
			}
			if u.op == OEq && t.args[0].sort == u.args[0].sort {
				// t: a=b, u: a=b' with b,b' distinct
				for i := 0; i < 2; i++ {
					for j := 0; j < 2; j++ {
						if t.args[i] == u.args[j] && c.distinct(t.args[1-i], u.args[1-j]) {
							return c.F
						}
					}
				}
			}
		}
	}
	return t
}

func (s *State) pcs() []*Term {
	var r []*Term
	for p := s.pc; p != nil; p = p.prev {
		r = append(r, p.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- heap components ------------------------------------------------------------------

func (s *State) comp(name string, srt *Sort) *Term {
	if t, ok := s.heap[name]; ok {
		return t
	}
	t := s.x.c.Var("H0!"+name, srt)
	t.init = true
	if s.x.pre != nil {
		s.x.c.comps[t] = compWF{name, s.x.pre.alloc0, false}
	} else {
		s.x.c.comps[t] = compWF{name, s.alloc0, false}
	}
	s.x.compSort[name] = srt
	s.heap[name] = t
	return t
}

func (s *State) setComp(name string, t *Term, ref *Term) {
	s.x.compSort[name] = t.sort
	s.comp(name, t.sort)
	s.heap[name] = t
	if s.x.conc && ref != nil && freshRef(ref) != nil {
		m := s.x.localComps[ref]
		if m == nil {
			m = map[string]bool{}
			s.x.localComps[ref] = m
		}
		m[name] = true
	}
	s.x.noteWrite(name, ref)
	s.x.touchW(s, name, ref, nil)
}

func (x *Exec) leafSorts(t types.Type) []*Sort { return x.g.leaves(t) }

// ref allocates a new reference.
func (s *State) newRef() *Term {
	r := s.alloc
	s.alloc = s.x.c.Add(s.alloc, s.x.c.Int(1))
	s.x.noteWrite("alloc", nil)
	if s.x.conc {
		s.locals = append(s.locals[:len(s.locals):len(s.locals)], r)
	}
	return r
}

func (x *Exec) addrOf(v Value) *Addr {
	if v.addr != nil {
		return v.addr
	}
	pt, ok := v.t.Underlying().(*types.Pointer)
	if !ok {
		panic(bug("not a pointer: %v", v.t))
	}
	if a, ok := pt.Elem().Underlying().(*types.Array); ok {
		_ = a
		return &Addr{kind: 'A', key: x.g.objKey(pt.Elem()), ref: v.l[0], t: pt.Elem(), own: pt.Elem()}
	}
	return &Addr{kind: 'O', key: x.g.objKey(pt.Elem()), ref: v.l[0], t: pt.Elem(), own: pt.Elem()}
}

func (x *Exec) leafName(a *Addr, i int) string { return fmt.Sprintf("%s:%d", a.key, a.lo+i) }

// loadAddr reads the value behind an address.
func (x *Exec) loadAddr(st *State, a *Addr) Value {
	c := x.c
	ls := x.leafSorts(a.t)
	v := Value{t: a.t}
	switch a.kind {
	case 'A': // whole array behind a pointer
		at := a.t.Underlying().(*types.Array)
		es := x.leafSorts(at.Elem())
		for i := int64(0); i < at.Len(); i++ {
			for j, s := range es {
				cc := st.comp(fmt.Sprintf("%s:%d", a.key, j), c.ArrS(IntS, c.ArrS(IntS, s)))
				v.l = append(v.l, c.Select(c.Select(cc, a.ref), c.Int(i)))
			}
		}
		return v
	}
	for i, s := range ls {
		n := x.leafName(a, i)
		switch a.kind {
		case 'O':
			v.l = append(v.l, c.Select(st.comp(n, c.ArrS(IntS, s)), a.ref))
		case 'E':
			v.l = append(v.l, c.Select(c.Select(st.comp(n, c.ArrS(IntS, c.ArrS(IntS, s))), a.ref), a.idx))
		case 'G':
			v.l = append(v.l, st.comp(n, s))
		}
	}
	return v
}

func (x *Exec) storeAddr(st *State, a *Addr, v Value) {
	c := x.c
	switch a.kind {
	case 'A':
		at := a.t.Underlying().(*types.Array)
		es := x.leafSorts(at.Elem())
		k := 0
		for i := int64(0); i < at.Len(); i++ {
			for j, s := range es {
				n := fmt.Sprintf("%s:%d", a.key, j)
				cc := st.comp(n, c.ArrS(IntS, c.ArrS(IntS, s)))
				st.setComp(n, c.Store(cc, a.ref, c.Store(c.Select(cc, a.ref), c.Int(i), v.l[k])), a.ref)
				k++
			}
		}
		return
	}
	ls := x.leafSorts(a.t)
	if len(v.l) != len(ls) {
		panic(bug("store of %v into %v: leaf mismatch", v.t, a.t))
	}
	for i, s := range ls {
		n := x.leafName(a, i)
		switch a.kind {
		case 'O':
			st.setComp(n, c.Store(st.comp(n, c.ArrS(IntS, s)), a.ref, v.l[i]), a.ref)
		case 'E':
			cc := st.comp(n, c.ArrS(IntS, c.ArrS(IntS, s)))
			st.setComp(n, c.Store(cc, a.ref, c.Store(c.Select(cc, a.ref), a.idx, v.l[i])), a.ref)
		case 'G':
			st.comp(n, s)
			st.setComp(n, v.l[i], nil)
		}
	}
}

func (x *Exec) fieldAddr(a *Addr, i int) *Addr {
	st := a.t.Underlying().(*types.Struct)
	lo, _ := x.g.fieldRange(a.t, i)
	p := st.Field(i).Name()
	if a.path != "" {
		p = a.path + "." + p
	}
	return &Addr{kind: a.kind, key: a.key, ref: a.ref, idx: a.idx, lo: a.lo + lo, t: st.Field(i).Type(), path: p, own: a.own}
}

// ---- zero values and constants ---------------------------------------------------------

func (x *Exec) zeroLeaf(s *Sort) *Term {
	c := x.c
	switch s {
	case IntS:
		return c.Int(0)
	case BoolS:
		return c.F
	case StrS:
		return c.Str("")
	case FltS:
		return x.fltConst(constant.MakeInt64(0))
	case ValS:
		return c.Nil()
	}
	if s.dom != nil {
		return c.ConstArr(s, x.zeroLeaf(s.rng))
	}
	return c.Var("zero:"+s.name, s)
}

func (x *Exec) zero(t types.Type) Value {
	v := Value{t: t}
	for _, s := range x.leafSorts(t) {
		v.l = append(v.l, x.zeroLeaf(s))
	}
	return v
}

func (x *Exec) fltConst(v constant.Value) *Term {
	return x.c.Var("flt:"+v.ExactString(), FltS)
}

func (x *Exec) constVal(k *ssa.Const) Value {
	c := x.c
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	v := Value{t: t}
	p, n := named(t)
	_ = p
	_ = n
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return x.zero(t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		v.l = []*Term{c.Bool(constant.BoolVal(k.Value))}
	case b.Info()&types.IsInteger != 0:
		kv := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(kv); ok {
			v.l = []*Term{c.Int(i)}
		} else {
			v.l = []*Term{c.Var("int:"+kv.ExactString(), IntS)}
		}
	case b.Info()&types.IsString != 0:
		v.l = []*Term{c.Str(constant.StringVal(k.Value))}
	case b.Info()&types.IsFloat != 0:
		v.l = []*Term{x.fltConst(constant.ToFloat(k.Value))}
	default:
		v.l = []*Term{c.Var("const:"+k.Value.ExactString(), OpqS)}
	}
	return v
}

func (x *Exec) freshVal(hint string, t types.Type) Value {
	v := Value{t: t}
	for _, s := range x.leafSorts(t) {
		v.l = append(v.l, x.c.Fresh(hint, s))
	}
	if tup, ok := t.(*types.Tuple); ok {
		k := 0
		for i := 0; i < tup.Len(); i++ {
			n := len(x.leafSorts(tup.At(i).Type()))
			v.tup = append(v.tup, Value{t: tup.At(i).Type(), l: v.l[k : k+n]})
			k += n
		}
	}
	return v
}

// typeFacts: what every value of the type satisfies (references allocated, slice headers sane).
func (x *Exec) typeFacts(st *State, v Value) []*Term {
	var out []*Term
	c := x.c
	var rec func(t types.Type, l []*Term)
	rec = func(t types.Type, l []*Term) {
		switch u := t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			out = append(out, c.Ge(l[0], c.Int(0)), c.Lt(l[0], st.alloc))
		case *types.Slice:
			out = append(out, c.Ge(l[0], c.Int(0)), c.Lt(l[0], st.alloc), c.Ge(l[1], c.Int(0)), c.Ge(l[2], c.Int(0)), c.Le(l[2], l[3]),
				c.Imp(c.Eq(l[0], c.Int(0)), c.Eq(l[3], c.Int(0))))
		case *types.Struct:
			if len(l) == 0 {
				return
			}
			if len(x.leafSorts(t)) == 1 && u.NumFields() != 1 {
				return // opaque
			}
			p, _ := named(t)
			if p != "" && p != x.g.modpath {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				lo, n := x.g.fieldRange(t, i)
				rec(u.Field(i).Type(), l[lo:lo+n])
			}
		case *types.Interface:
			// references inside boxed pointers are allocated
			v := l[0]
			if v.op == OCtor {
				return
			}
			for _, ct := range x.g.concTys {
				if _, ok := ct.Underlying().(*types.Pointer); ok && x.usesCtor(ct) {
					n := x.g.ctorName(ct)
					r := c.Sel(n, 0, IntS, v)
					out = append(out, c.Imp(c.Test(n, v), c.And(c.Ge(r, c.Int(0)), c.Lt(r, st.alloc))))
				}
			}
		}
	}
	if v.t != nil && len(v.l) > 0 {
		rec(v.t, v.l)
	}
	return out
}

// usesCtor limits the boxed types reasoned about to those the function under proof can meet.
func (x *Exec) usesCtor(t types.Type) bool {
	return x.ctorsUsed[x.g.ctorName(t)]
}

func (x *Exec) assumeTypeFacts(st *State, v Value) {
	for _, f := range x.typeFacts(st, v) {
		if st.decide(f) != x.c.T {
			st.assume(f)
		}
	}
}

// ---- interfaces -------------------------------------------------------------------------

func (x *Exec) box(v Value) *Term {
	if types.IsInterface(v.t) {
		return v.l[0]
	}
	n := x.g.ctorName(v.t)
	x.ctorsUsed[n] = true
	x.boxTy[n] = v.t
	ls := v.l
	if v.addr != nil {
		ls = []*Term{x.addrRef(v)}
	}
	if len(ls) == 0 {
		// no observable content
	}
	return x.c.Ctor(n, ls...)
}

// addrRef gives interior pointers an identity of their own.
func (x *Exec) addrRef(v Value) *Term {
	a := v.addr
	args := []*Term{}
	if a.ref != nil {
		args = append(args, a.ref)
	}
	if a.idx != nil {
		args = append(args, a.idx)
	}
	return x.c.App("addr!"+string(a.kind)+a.key+"!"+fmt.Sprint(a.lo)+a.path+fmt.Sprint(len(args)), IntS, args...)
}

func (x *Exec) unbox(val *Term, t types.Type) Value {
	n := x.g.ctorName(t)
	x.ctorsUsed[n] = true
	v := Value{t: t}
	ls := x.leafSorts(t)
	x.c.declCtor(n, ls)
	for i, s := range ls {
		v.l = append(v.l, x.c.Sel(n, i, s, val))
	}
	return v
}

// hasType: dynamic type test (concrete) or method-set test (interface).
func (x *Exec) hasType(val *Term, t types.Type) *Term {
	c := x.c
	if !types.IsInterface(t) {
		n := x.g.ctorName(t)
		x.ctorsUsed[n] = true
		c.declCtor(n, x.leafSorts(t))
		return c.Test(n, val)
	}
	it := t.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return c.Not(c.Eq(val, c.Nil()))
	}
	if val.op == OCtor && val.name != "vother" {
		for _, ct := range x.g.concTys {
			if x.g.ctorName(ct) == val.name {
				return c.Bool(types.Implements(ct, it))
			}
		}
		return c.F // nil or a basic value
	}
	var ds []*Term
	for _, ct := range x.g.concTys {
		if types.Implements(ct, it) {
			n := x.g.ctorName(ct)
			x.ctorsUsed[n] = true
			c.declCtor(n, x.leafSorts(ct))
			ds = append(ds, c.Test(n, val))
		}
	}
	x.ifaces[x.g.tstr(t)] = it
	ds = append(ds, c.And(c.Test("vother", val), c.App("impl!"+x.ifaceName(it), BoolS, c.Sel("vother", 0, IntS, val))))
	return c.Or(ds...)
}

func (x *Exec) ifaceName(it *types.Interface) string {
	var ms []string
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		ms = append(ms, m.Name()+types.TypeString(m.Type(), x.g.qual))
	}
	n := strings.Join(ms, ";")
	if len(n) > 60 {
		h := uint32(2166136261)
		for i := 0; i < len(n); i++ {
			h = (h ^ uint32(n[i])) * 16777619
		}
		n = fmt.Sprintf("%s..%x", n[:20], h)
	}
	x.c.declIface(n, it)
	return n
}

// declIface records method-set tests so that their relations can be stated as axioms.
func (c *Ctx) declIface(n string, it *types.Interface) {
	if c.ifs == nil {
		c.ifs = map[string]*types.Interface{}
	}
	c.ifs[n] = it
}

// ifaceAxioms: subset relations and conflicts between method sets.
func (c *Ctx) ifaceAxioms() []*Term {
	var out []*Term
	q := c.BVar("q0", IntS)
	for n, a := range c.ifs {
		for m, b := range c.ifs {
			if n == m {
				continue
			}
			ta := c.App("impl!"+n, BoolS, q)
			tb := c.App("impl!"+m, BoolS, q)
			if types.Implements(a, b) {
				out = append(out, c.Forall([]*Term{q}, c.Imp(ta, tb)))
			}
			conflict := false
			for i := 0; i < a.NumMethods(); i++ {
				for j := 0; j < b.NumMethods(); j++ {
					if a.Method(i).Name() == b.Method(j).Name() && !types.Identical(a.Method(i).Type(), b.Method(j).Type()) {
						conflict = true
					}
				}
			}
			if conflict {
				out = append(out, c.Forall([]*Term{q}, c.Or(c.Not(ta), c.Not(tb))))
			}
		}
	}
	return out
}
