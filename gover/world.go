package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The ghost W stands for everything a method called through an interface can look at.  It changes when such a
// method modifies something, and when the code itself writes to memory that may be reachable from an
// interface value.  Results of reading methods are functions of W, the receiver and the arguments.

// usesW: whether the contract speaks about W.
func (x *Exec) usesW() bool {
	if x.wUse == 0 {
		x.wUse = 1
		seen := map[string]bool{}
		var scan func(e *Expr) bool
		scan = func(e *Expr) bool {
			if e == nil {
				return false
			}
			if e.op == "id" && e.s == "W" {
				return true
			}
			if e.op == "call" {
				switch e.s {
				case "mcall", "wafter", "sprint", "gosprint", "stk":
					return true
				}
			}
			if m := x.g.spec.macros[e.s]; m != nil && (e.op == "call" || e.op == "id") && !seen[e.s] {
				seen[e.s] = true
				if scan(m.body) {
					return true
				}
			}
			for _, a := range e.args {
				if scan(a) {
					return true
				}
			}
			return false
		}
		for _, cl := range x.root.ensures {
			if x.active(cl) && scan(cl.e) {
				x.wUse = 2
			}
		}
	}
	return x.wUse == 2
}

func (x *Exec) world(st *State) *Term { return st.comp("W", WorldS) }

// worldFor: what the results of a method depend on.  The length and the elements of a collection (contracts
// with option elements) do not change when a key of a data set is set.
func (x *Exec) worldFor(st *State, m *types.Func) *Term {
	if ct := x.g.ifaceContract(m); ct != nil && ct.opts["elements"] != "" {
		return st.comp("WC", WorldS)
	}
	return x.world(st)
}

// bumpW: anything may look different now.  (The trial run of a loop body cannot tell whether a write is to a
// new object; it supposes the elements of collections stay, which the real run of the body checks.)
func (x *Exec) bumpW(st *State) {
	st.setComp("W", x.c.Fresh("W", WorldS), nil)
	if x.compSort["WC"] != nil && x.trial == 0 {
		st.setComp("WC", x.c.Fresh("WC", WorldS), nil)
	}
}

// initComp: setComp for a newly allocated object.
func (s *State) initComp(name string, t *Term, ref *Term) {
	s.x.initing++
	s.setComp(name, t, ref)
	s.x.initing--
}

// touchW: a write at ref (under the condition cond, nil: always).
func (x *Exec) touchW(st *State, name string, ref, cond *Term) {
	if x.initing > 0 || x.conc || st.dead || !x.usesW() {
		return
	}
	if !strings.HasPrefix(name, "O:") && !strings.HasPrefix(name, "E:") && !strings.HasPrefix(name, "M:") {
		return
	}
	fam := name[:strings.LastIndex(name, ":")]
	if ref != nil && !x.famPub[fam] {
		if freshRef(ref) != nil {
			return
		}
		if x.trial == 0 {
			c := x.c
			g := c.Ge(ref, x.pre.alloc0)
			if cond != nil {
				g = c.Imp(cond, g)
			}
			g = st.decide(g)
			if g == c.T || g != c.F && x.g.pool.Solve(x.query(st.pcs(), g), x.g.budgetCand, true).res == "unsat" {
				return
			}
		}
	}
	x.bumpW(st)
}

// markPub: objects of the families a value of this type leads to may be reachable from elsewhere.
func (x *Exec) markPub(t types.Type) {
	if x.conc || t == nil || x.pubSeen[t] {
		return
	}
	x.pubSeen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			x.famPub[x.g.elemKey(a.Elem())] = true
			x.markPub(a.Elem())
			return
		}
		x.famPub[x.g.objKey(u.Elem())] = true
		x.markPub(u.Elem())
	case *types.Slice:
		x.famPub[x.g.elemKey(u.Elem())] = true
		x.markPub(u.Elem())
	case *types.Map:
		x.famPub[x.g.mapKey(t)] = true
		x.markPub(u.Key())
		x.markPub(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.markPub(u.Field(i).Type())
		}
	}
}

func methodKey(g *Global, m *types.Func) string {
	return m.Name() + "!" + types.TypeString(m.Type(), g.qual)
}

// mcall: the i-th result of a reading interface method.
func (x *Exec) mcall(w *Term, m *types.Func, i int, recv *Term, args []*Term) Value {
	t := m.Type().(*types.Signature).Results().At(i).Type()
	v := Value{t: t}
	for j, s := range x.leafSorts(t) {
		v.l = append(v.l, x.c.App(fmt.Sprintf("m!%s!%d!%d", methodKey(x.g, m), i, j), s, append([]*Term{w, recv}, args...)...))
	}
	return v
}

// wafter: the world after a modifying interface method.
func (x *Exec) wafter(w *Term, m *types.Func, recv *Term, args []*Term) *Term {
	return x.c.App("w!"+methodKey(x.g, m), WorldS, append([]*Term{w, recv}, args...)...)
}

func (x *Exec) flatArgs(args []Value) []*Term {
	var as []*Term
	for _, a := range args {
		if a.addr != nil && len(a.l) == 0 {
			as = append(as, x.addrRef(a))
			continue
		}
		as = append(as, a.l...)
	}
	return as
}

// ifaceMethod resolves "Interface.Method".
func (g *Global) ifaceMethod(s string) *types.Func {
	i := strings.LastIndex(s, ".")
	if i < 0 {
		return nil
	}
	t, _, err := g.specType(s[:i])
	if err != nil || t == nil {
		return nil
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for j := 0; j < it.NumMethods(); j++ {
		if it.Method(j).Name() == s[i+1:] {
			return it.Method(j)
		}
	}
	return nil
}

// setWorld: an interface method changed the world.
func (x *Exec) setWorld(st *State, w *Term) {
	st.setComp("W", w, nil)
	st.setComp("W!m", w, nil)
}

// linkIface: what a method of this package returns is what calling it through the interface would return.
func (x *Exec) linkIface(recvT types.Type, m *types.Func, recv Value, args []Value, w0 *Term, st *State, vals []Value) {
	ct := x.g.ifaceContract(m)
	if ct == nil {
		return
	}
	if recv.addr != nil && len(recv.l) == 0 {
		return
	}
	b := x.box(recv)
	if ct.pure && x.usesW() {
		x.markPub(recv.t)
		as := x.flatArgs(args)
		for i, v := range vals {
			mv := x.mcall(w0, m, i, b, as)
			for j := range mv.l {
				if j < len(v.l) {
					st.assume(x.c.Eq(v.l[j], mv.l[j]))
				}
			}
		}
	}
	if len(ct.yields) > 0 {
		x.assumeYields(ct, append([]Value{{t: types.NewInterfaceType(nil, nil).Complete(), l: []*Term{b}}}, args...), vals, st)
	}
}

// stackOn: new objects of the type start with an empty ghost stack.
func (x *Exec) stackOn(t types.Type) bool {
	if x.conc || !x.usesW() {
		return false
	}
	for n, ct := range x.g.spec.ifaces {
		if ct.opts["private"] == "" || len(ct.modifies) == 0 || !x.active(ct.modifies[0]) {
			continue
		}
		if it, _, _ := x.g.specType(n[:strings.LastIndex(n, ".")]); it != nil && types.Implements(t, it.Underlying().(*types.Interface)) {
			return true
		}
	}
	return false
}

// storeStack: a list written as a whole has the ghost stack of its elements, of which nothing is known unless they
// are listed one by one.
func (x *Exec) storeStack(st *State, a, v Value) {
	if a.t == nil || len(a.l) != 1 || len(v.l) != 4 || !x.stackOn(a.t) {
		return
	}
	sl, ok := v.t.Underlying().(*types.Slice)
	if !ok {
		return
	}
	c := x.c
	b := x.box(a)
	s := c.Fresh("stk", StkS)
	if n := v.l[2]; n.op == OInt && n.k >= 0 && n.k <= 8 {
		s = c.Var("sempty", StkS)
		for i := int64(0); i < int64(n.k); i++ {
			e := x.loadAddr(st, &Addr{kind: 'E', key: x.g.elemKey(sl.Elem()), ref: v.l[0], idx: c.Add(v.l[1], c.Int(i)), t: sl.Elem(), own: sl.Elem()})
			if len(e.l) != 1 {
				return
			}
			s = c.App("spush", StkS, e.l[0], s)
		}
	}
	st.setComp("STK", c.Store(st.comp("STK", c.ArrS(ValS, StkS)), b, s), b)
}

// linkStack: a method of this package with an interface contract about the ghost stack of its receiver changes
// that ghost stack as the contract says (what it does to the real list is its own contract's business).
func (x *Exec) linkStack(m *types.Func, args []Value, before, st *State, vals []Value) {
	ct := x.g.ifaceContract(m)
	if args[0].addr != nil && len(args[0].l) == 0 {
		return
	}
	c := x.c
	b := x.box(args[0])
	stk := st.comp("STK", c.ArrS(ValS, StkS))
	st.setComp("STK", c.Store(stk, b, c.Fresh("stk", StkS)), b)
	vars := map[string]Value{}
	for i, n := range ct.params {
		vars[n] = args[i]
	}
	vars[ct.params[0]] = Value{t: types.NewInterfaceType(nil, nil).Complete(), l: []*Term{b}}
	for i, n := range ct.results {
		vars[n] = vals[i]
	}
	pre := []*Term{}
	for _, r := range ct.requires {
		if x.active(r) {
			pre = append(pre, (&SEnv{x: x, st: before, old: before, vars: vars}).boolT(r.e))
		}
	}
	for _, cl := range ct.ensures {
		if x.active(cl) {
			st.assume(c.Imp(c.And(pre...), (&SEnv{x: x, st: st, old: before, vars: vars}).boolT(cl.e)))
		}
	}
	// nothing but the private scope itself changed: the world did not
	ms := x.modSet(&SEnv{x: x, st: before, old: before, vars: vars}, ct.modifies)
	private := true
	for n, t := range st.heap {
		if before.heap[n] == t || n == "W" || n == "WC" || n == "W!m" {
			continue
		}
		covered := n == "STK" || before.heap[n] == nil && t.init
		for _, m := range ms {
			covered = covered || m.covers(n)
		}
		private = private && covered
	}
	if private {
		for _, n := range []string{"W", "WC", "W!m"} {
			if t := before.heap[n]; t != nil {
				st.heap[n] = t
			} else {
				delete(st.heap, n)
			}
		}
	}
	x.notes["the scope list behaves as a stack (interface contract "+ct.name+"; C08 proves the list operations)"] = true
}

func (x *Exec) assumeYields(ct *Contract, args, vals []Value, st *State) {
	e := &SEnv{x: x, st: st, old: st, vars: map[string]Value{}}
	for i, n := range ct.params {
		if i < len(args) {
			v := args[i]
			if v.addr != nil && len(v.l) == 0 {
				v = Value{t: v.t, l: []*Term{x.addrRef(v)}}
			}
			e.vars[n] = v
		}
	}
	for i, n := range ct.results {
		e.vars[n] = vals[i]
	}
	for _, y := range ct.yields {
		if x.active(y) {
			st.assume(e.boolT(y.e))
		}
	}
}
