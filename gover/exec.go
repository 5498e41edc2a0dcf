package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exec symbolically executes one function under contract.
type callGuard struct {
	key           string
	before, after []*Term
}

type Exec struct {
	dead     map[deadKey]bool
	g        *Global
	c        *Ctx
	root     *Contract
	fn       *ssa.Function
	conc     bool
	groups   map[string]map[string]bool // groups of candidates and what they rest on
	inGroup  map[*Term]map[string]bool
	maybeNil map[*Term]*Term // arrays of slices that are nil under a condition

	pre    *State
	params []Value
	result []Value // results, during evaluation of postconditions

	record    bool
	obs       []*Oblig
	compSort  map[string]*Sort
	ctorsUsed map[string]bool
	boxTy     map[string]types.Type
	ifaces    map[string]*types.Interface

	recs   []*writeRec
	trial  int
	guards []callGuard
	frames int
	iters  int
	depth  int
	stack  []*ssa.Function

	notes       map[string]bool // assumptions used (external models, contracts)
	unsupported map[string]bool
	inlined     map[string]bool
	used        map[string]bool // contracts applied
	loopsDone   int
	invKept     int
	invChecked  int
	paths       int
	noAux       map[string]bool // helper contracts that may not be used
	owner       map[*Term]ownerInfo
	cloTab      map[*Term]*Closure
	localComps  map[*Term]map[string]bool
	noMerge     bool
	seqEvents   int // lock operations and user callbacks met (sequential mode)
	cands       []*CandTmpl
	axTerms     []*Term
	axDone      bool
	steps       int
	deadline    func() bool
	curIter     *Iter
	covers      []*State
	concExits   int
	prop        string
	recSame     map[string]bool
	recBusy     bool
	letVals     map[string]Value
	wUse        int
	initing     int
	famPub      map[string]bool
	pubSeen     map[types.Type]bool
	top         *Frame
}

type writeRec struct {
	pub   map[*Term]bool
	comps map[string]map[*Term]bool
}

// Oblig is one proof obligation.
type Oblig struct {
	name  string
	kind  string
	tags  []string
	fn    string
	pos   string
	hyps  []*Term
	goal  *Term
	trace *traceEv
	res   Answer
	done  bool
	count int
	c     *Ctx
	extra []*Term
	vals  []namedTerm
	pcp   *PC
	query string
}

type namedTerm struct {
	n string
	t *Term
}

type abort struct{ msg string }

func (x *Exec) unsup(f string, a ...any) {
	panic(abort{fmt.Sprintf(f, a...)})
}

func (x *Exec) noteWrite(name string, ref *Term) {
	for _, r := range x.recs {
		m := r.comps[name]
		if m == nil {
			m = map[*Term]bool{}
			r.comps[name] = m
		}
		if ref != nil {
			m[ref] = true
		}
	}
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Value
	parent  *Frame
	id      int
	onRet   func(st *State, vals []Value)
	onPanic func(st *State)
	stops   map[*ssa.BasicBlock]func(from *ssa.BasicBlock, st *State)
	backs   map[*ssa.BasicBlock]func(from *ssa.BasicBlock, st *State)
	houd    []*Loop
	li      *LoopInfo
	binds   []Value
	top     bool
}

func (x *Exec) li(fn *ssa.Function) *LoopInfo {
	// per-exec cache: the shared map is filled before verification starts
	if l := x.g.loops[fn]; l != nil {
		return l
	}
	return loopInfo(fn)
}

func (x *Exec) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	x.frames++
	return &Frame{fn: fn, env: map[ssa.Value]Value{}, parent: parent, id: x.frames, stops: map[*ssa.BasicBlock]func(*ssa.BasicBlock, *State){}, backs: map[*ssa.BasicBlock]func(*ssa.BasicBlock, *State){}, li: x.li(fn)}
}

func (x *Exec) val(fr *Frame, v ssa.Value) Value {
	switch k := v.(type) {
	case *ssa.Const:
		return x.constVal(k)
	case *ssa.Global:
		pt := k.Type().Underlying().(*types.Pointer).Elem()
		return Value{t: k.Type(), addr: &Addr{kind: 'G', key: "G:" + short(k.Pkg.Pkg.Path()) + "." + k.Name(), t: pt, own: pt, path: k.Name()}}
	case *ssa.Function:
		return Value{t: k.Type(), clo: &Closure{fn: k}, l: []*Term{x.fnRef(k)}}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == k {
				return fr.binds[i]
			}
		}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(bug("no value for %s in %s", v.Name(), fr.fn.Name()))
	}
	return r
}

func (x *Exec) fnRef(fn *ssa.Function) *Term {
	// a non-nil constant; identity of functions is never compared except with nil
	t := x.c.Var("fn!"+fn.String(), IntS)
	t.old = true
	return t
}

func (x *Exec) pos(p token.Pos) string {
	if p == token.NoPos {
		return ""
	}
	ps := x.g.fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// ---- obligations ---------------------------------------------------------------------------

func (x *Exec) ob(st *State, kind, name string, tags []string, goal *Term, pos string) {
	if x.record && x.trial == 0 && !st.dead {
		g := goal
		o := &Oblig{name: name, kind: kind, tags: tags, fn: x.g.fnName(x.fn), pos: pos, goal: g, trace: st.trace, c: x.c}
		if st.decide(g) == x.c.T {
			o.done = true
			o.res = Answer{res: "unsat", solver: "simplifier"}
		} else {
			o.hyps = st.pcs()
			o.pcp = st.pc
		}
		x.obs = append(x.obs, o)
	}
	if kind != "post" && kind != "frame" && kind != "lock" {
		st.assume(goal)
	}
}

// check is an implicit run-time check (nil, bounds, ...): in sequential mode an obligation, in
// concurrent mode a possible panic.
func (x *Exec) check(fr *Frame, st *State, cond *Term, what string, pos token.Pos) {
	d := st.decide(cond)
	if d == x.c.T {
		if x.record && x.trial == 0 && !x.conc {
			x.ob(st, "safety", what, nil, cond, x.pos(pos))
		}
		return
	}
	if x.conc && x.root.opts["nopanic"] == "" {
		if x.record && x.trial == 0 {
			s2 := st.clone()
			s2.assume(x.c.Not(cond))
			s2.ev("panic possible: %s at %s", what, x.pos(pos))
			for _, cl := range x.root.panics {
				if x.active(cl) && !s2.dead {
					g := x.c.F
					if s2.acq != nil {
						e := &SEnv{x: x, st: s2, old: x.pre, ent: x.pre, acq: s2.acq, vars: x.rootVars()}
						g = e.boolT(cl.e)
					}
					x.ob(s2, "safety", what+" fails only if "+cl.src, nil, g, x.pos(pos))
				}
			}
			if !s2.dead {
				x.panicOut(fr, s2, what, x.pos(pos))
			}
		}
		st.assume(cond)
		return
	}
	x.ob(st, "safety", what, nil, cond, x.pos(pos))
}

// panicOut unwinds from the current frame: deferred calls run, then the caller's.
func (x *Exec) panicOut(fr *Frame, st *State, what, pos string) {
	rec := x.record
	saveH := fr.houd
	x.runDefers(fr, st, func(st *State) {
		if fr.onPanic != nil {
			fr.onPanic(st)
		}
	})
	fr.houd = saveH
	x.record = rec
}

func (x *Exec) runDefers(fr *Frame, st *State, k func(*State)) {
	d := st.defers
	if d == nil || d.frame != fr.id {
		k(st)
		return
	}
	st.defers = d.next
	d.fn(st, func(s *State) { x.runDefers(fr, s, k) })
}

// ---- function bodies ---------------------------------------------------------------------

func (x *Exec) callFn(caller *Frame, fn *ssa.Function, args []Value, binds []Value, st *State, pos token.Pos, k func(st *State, vals []Value)) {
	if fn.Blocks == nil {
		x.unsup("call of function without body: %s", fn)
	}
	if len(x.stack) > 24 {
		x.unsup("call depth exceeded at %s", fn)
	}
	for _, f := range x.stack {
		if f == fn {
			x.unsup("recursive call of %s without contract", x.g.fnName(fn))
		}
	}
	x.stack = append(x.stack, fn)
	fr := x.newFrame(fn, caller)
	fr.binds = binds
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	var got []mrec
	fr.onRet = func(st *State, vals []Value) {
		if caller != nil {
			got = append(got, mrec{st, vals})
			return
		}
		sv := x.stack
		x.stack = x.stack[:len(x.stack)-1]
		k(st, vals)
		x.stack = sv
	}
	fr.onPanic = func(st *State) {
		sv := x.stack
		if len(x.stack) > 0 {
			x.stack = x.stack[:len(x.stack)-1]
		}
		if caller == nil {
			if x.top != nil {
				x.top.onPanic(st)
			}
		} else {
			x.panicOut(caller, st, "", "")
		}
		x.stack = sv
	}
	if caller != nil {
		x.inlined[x.g.fnName(fn)] = true
	}
	n := len(x.stack)
	x.block(fr, fn.Blocks[0], nil, st)
	x.stack = x.stack[:n-1]
	for _, r := range x.mergeAll(got) {
		k(r.st, r.vals)
	}
}

func (x *Exec) goTo(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	if st.dead {
		return
	}
	if n := len(fr.houd); n > 0 && !fr.houd[n-1].blocks[to] {
		return
	}
	if h := fr.backs[to]; h != nil && fr.li.byHead[to].blocks[from] {
		h(from, st)
		return
	}
	if h := fr.stops[to]; h != nil {
		h(from, st)
		return
	}
	if fr.li.byHead[to] != nil {
		x.loop(fr, from, to, st)
		return
	}
	x.block(fr, to, from, st)
}

func phiVals(x *Exec, fr *Frame, b, from *ssa.BasicBlock) (phis []*ssa.Phi, vals []Value) {
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == from {
				phis = append(phis, p)
				vals = append(vals, x.val(fr, p.Edges[i]))
				break
			}
		}
	}
	return
}

func (x *Exec) block(fr *Frame, b, from *ssa.BasicBlock, st *State) {
	ps, vs := phiVals(x, fr, b, from)
	for i, p := range ps {
		fr.env[p] = vs[i]
	}
	x.instrs(fr, b, len(ps), st)
}

func (x *Exec) instrs(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	skip := x.g.skip[fr.fn]
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		in := b.Instrs[i]
		if skip[in] {
			continue
		}
		x.steps++
		if x.steps%256 == 0 && x.deadline != nil && x.deadline() {
			x.unsup("time budget for this function exhausted")
		}
		switch n := in.(type) {
		case *ssa.Jump:
			x.goTo(fr, b, b.Succs[0], st)
			return
		case *ssa.If:
			x.branch(fr, b, n, st)
			return
		case *ssa.Return:
			var vals []Value
			for _, r := range n.Results {
				vals = append(vals, x.val(fr, r))
			}
			fr.onRet(st, vals)
			return
		case *ssa.Panic:
			if x.conc && x.root.opts["nopanic"] == "" {
				if x.record && x.trial == 0 {
					x.panicOut(fr, st, "panic", x.pos(n.Pos()))
				}
			} else {
				x.ob(st, "safety", "panic statement unreachable", nil, x.c.F, x.pos(n.Pos()))
			}
			return
		case *ssa.RunDefers:
			x.runDefers(fr, st, func(s *State) { x.instrs(fr, b, i+1, s) })
			return
		case *ssa.Defer:
			call := n.Call
			var args []Value
			for _, a := range call.Args {
				args = append(args, x.val(fr, a))
			}
			var fv Value
			if !call.IsInvoke() {
				if _, ok := call.Value.(*ssa.Builtin); !ok {
					fv = x.val(fr, call.Value)
				}
			} else {
				fv = x.val(fr, call.Value)
			}
			p := n.Pos()
			st.defers = &deferRec{frame: fr.id, next: st.defers, fn: func(s *State, k func(*State)) {
				x.call(fr, &call, fv, args, nil, p, s, func(s *State, v Value) { k(s) })
			}}
		case *ssa.Go:
			x.unsup("go statement at %s", x.pos(n.Pos()))
		case *ssa.Send:
			x.unsup("channel operation at %s", x.pos(n.Pos()))
		case *ssa.Select:
			x.unsup("select statement at %s", x.pos(n.Pos()))
		case *ssa.Store:
			a := x.val(fr, n.Addr)
			v := x.val(fr, n.Val)
			x.markPub(n.Val.Type())
			x.store(fr, st, a, v, n.Pos())
			x.storeStack(st, a, v)
		case *ssa.MapUpdate:
			m := x.val(fr, n.Map)
			x.markPub(n.Value.Type())
			x.mapUpdate(fr, st, m, x.val(fr, n.Key), x.val(fr, n.Value), n.Pos())
		case *ssa.DebugRef:
		case *ssa.Call:
			call := n.Call
			var args []Value
			for _, a := range call.Args {
				args = append(args, x.val(fr, a))
			}
			var fv Value
			if call.IsInvoke() {
				fv = x.val(fr, call.Value)
			} else if _, ok := call.Value.(*ssa.Builtin); !ok {
				fv = x.val(fr, call.Value)
			}
			x.call(fr, &call, fv, args, n, n.Pos(), st, func(s *State, v Value) {
				fr.env[n] = v
				x.instrs(fr, b, i+1, s)
			})
			return
		case *ssa.Next:
			x.next(fr, st, n, func(s *State, v Value) {
				fr.env[n] = v
				x.instrs(fr, b, i+1, s)
			})
			return
		case ssa.Value:
			fr.env[n] = x.eval(fr, st, n)
		default:
			x.unsup("instruction %T at %s", in, x.pos(in.Pos()))
		}
	}
}

// branch: decide, merge effect-free diamonds, otherwise fork.
func (x *Exec) branch(fr *Frame, b *ssa.BasicBlock, n *ssa.If, st *State) {
	cond := x.val(fr, n.Cond).l[0]
	d := st.decide(cond)
	if d == x.c.T {
		x.goTo(fr, b, b.Succs[0], st)
		return
	}
	if d == x.c.F {
		x.goTo(fr, b, b.Succs[1], st)
		return
	}
	st2 := st.clone()
	st.assume(cond)
	st2.assume(x.c.Not(cond))
	j := fr.li.join[b]
	if j == nil || fr.stops[j] != nil {
		x.goTo(fr, b, b.Succs[0], st)
		x.goTo(fr, b, b.Succs[1], st2)
		return
	}
	var got []mrec
	var phis []*ssa.Phi
	fr.stops[j] = func(from *ssa.BasicBlock, s *State) {
		ps, vs := phiVals(x, fr, j, from)
		phis = ps
		got = append(got, mrec{s, vs})
	}
	x.goTo(fr, b, b.Succs[0], st)
	x.goTo(fr, b, b.Succs[1], st2)
	delete(fr.stops, j)
	for _, r := range x.mergeAll(got) {
		if fr.li.byHead[j] != nil {
			x.loopFrom(fr, j, phis, r.vals, r.st)
			continue
		}
		for k, p := range phis {
			fr.env[p] = r.vals[k]
		}
		x.instrs(fr, j, len(phis), r.st)
	}
}

func sameVals(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameVal(a[i], b[i]) {
			return false
		}
	}
	return true
}
func sameVal(a, b Value) bool {
	if len(a.l) != len(b.l) || a.clo != b.clo && (a.clo == nil || b.clo == nil || a.clo.fn != b.clo.fn) || len(a.tup) != len(b.tup) {
		return false
	}
	for i := range a.l {
		if a.l[i] != b.l[i] {
			return false
		}
	}
	if (a.addr == nil) != (b.addr == nil) {
		return false
	}
	if a.addr != nil {
		x, y := a.addr, b.addr
		if x.kind != y.kind || x.key != y.key || x.ref != y.ref || x.idx != y.idx || x.lo != y.lo {
			return false
		}
	}
	return true
}

// ---- memory ----------------------------------------------------------------------------------

func (x *Exec) nonNil(fr *Frame, st *State, ref *Term, what string, pos token.Pos) {
	if freshRef(ref) != nil {
		return
	}
	x.check(fr, st, x.c.Not(x.c.Eq(ref, x.c.Int(0))), what, pos)
}

func (x *Exec) load(fr *Frame, st *State, p Value, pos token.Pos) Value {
	a := x.addrOf(p)
	if a.kind != 'G' && p.addr == nil {
		x.nonNil(fr, st, a.ref, "nil pointer dereference", pos)
	}
	x.raceRead(fr, st, a, pos)
	v := x.loadAddr(st, a)
	x.assumeTypeFacts(st, v)
	if x.conc {
		x.tagLoad(st, a, v)
	}
	if a.kind == 'G' && len(v.l) == 1 && v.l[0].sort == IntS {
		v.l[0].old = v.l[0].op == OVar
	}
	return v
}

func (x *Exec) store(fr *Frame, st *State, p, v Value, pos token.Pos) {
	a := x.addrOf(p)
	if a.kind != 'G' && p.addr == nil {
		x.nonNil(fr, st, a.ref, "nil pointer dereference", pos)
	}
	x.raceWrite(fr, st, a, pos)
	if v.addr != nil && len(v.l) == 0 {
		v = Value{t: v.t, l: []*Term{x.addrRef(v)}}
	}
	if v.clo != nil && len(v.l) == 0 {
		v.l = []*Term{x.fnRef(v.clo.fn)}
	}
	x.publish(st, a, v)
	x.storeAddr(st, a, v)
	if v.clo != nil {
		// remember which closure sits in this variable
		x.cloTab[v.l[0]] = v.clo
	}
}

func (x *Exec) mapComps(st *State, mt *types.Map) (dom, ln *Term, vals []*Term, fam string) {
	c := x.c
	fam = x.g.mapKey(mt)
	ks := x.leafSorts(mt.Key())
	if len(ks) != 1 {
		x.unsup("map with composite key type %s", mt)
	}
	dom = st.comp(fam+":D", c.ArrS(IntS, c.ArrS(ks[0], BoolS)))
	ln = st.comp(fam+":L", c.ArrS(IntS, IntS))
	for i, s := range x.leafSorts(mt.Elem()) {
		vals = append(vals, st.comp(fmt.Sprintf("%s:V%d", fam, i), c.ArrS(IntS, c.ArrS(ks[0], s))))
	}
	return
}

func (x *Exec) keyTerm(st *State, k Value) *Term {
	if len(k.l) != 1 {
		x.unsup("composite map key")
	}
	return k.l[0]
}

// mapFacts: nil maps are empty, lengths are consistent with domains.
func (x *Exec) mapFacts(st *State, mt *types.Map, ref *Term) {
	c := x.c
	dom, ln, _, _ := x.mapComps(st, mt)
	l := c.Select(ln, ref)
	d := c.Select(dom, ref)
	st.assume(c.Ge(l, c.Int(0)))
	q := c.BVar("q9", d.sort.dom)
	if d.op != OConstArr {
		st.assume(c.Forall([]*Term{q}, c.Imp(c.Select(d, q), c.Ge(l, c.Int(1)))))
	}
	if freshRef(ref) == nil {
		st.assume(c.Imp(c.Eq(ref, c.Int(0)), c.Eq(l, c.Int(0))))
	}
}

func (x *Exec) mapUpdate(fr *Frame, st *State, m, k, v Value, pos token.Pos) {
	c := x.c
	mt := m.t.Underlying().(*types.Map)
	ref := m.l[0]
	x.nonNil(fr, st, ref, "write to nil map", pos)
	x.raceMap(fr, st, m, true, pos)
	x.mapFacts(st, mt, ref)
	dom, ln, vals, fam := x.mapComps(st, mt)
	kt := x.keyTerm(st, k)
	d := c.Select(dom, ref)
	was := c.Select(d, kt)
	st.setComp(fam+":L", c.Store(ln, ref, c.Ite(was, c.Select(ln, ref), c.Add(c.Select(ln, ref), c.Int(1)))), ref)
	st.setComp(fam+":D", c.Store(dom, ref, c.Store(d, kt, c.T)), ref)
	if v.addr != nil && len(v.l) == 0 {
		v = Value{t: v.t, l: []*Term{x.addrRef(v)}}
	}
	for i, vc := range vals {
		st.setComp(fmt.Sprintf("%s:V%d", fam, i), c.Store(vc, ref, c.Store(c.Select(vc, ref), kt, v.l[i])), ref)
	}
	x.publishInto(st, ref, v)
}

func (x *Exec) mapDelete(fr *Frame, st *State, m, k Value, pos token.Pos) {
	c := x.c
	mt := m.t.Underlying().(*types.Map)
	ref := m.l[0]
	x.raceMap(fr, st, m, true, pos)
	x.mapFacts(st, mt, ref)
	dom, ln, _, fam := x.mapComps(st, mt)
	kt := x.keyTerm(st, k)
	d := c.Select(dom, ref)
	was := c.Select(d, kt)
	// deleting from a nil map is a no-op: its domain is empty
	if freshRef(ref) == nil {
		q := c.BVar("q9", d.sort.dom)
		st.assume(c.Imp(c.Eq(ref, c.Int(0)), c.Forall([]*Term{q}, c.Not(c.Select(d, q)))))
	}
	st.setComp(fam+":L", c.Store(ln, ref, c.Ite(was, c.Sub(c.Select(ln, ref), c.Int(1)), c.Select(ln, ref))), ref)
	st.setComp(fam+":D", c.Store(dom, ref, c.Store(d, kt, c.F)), ref)
	// iterators over this map: the key is no longer continuously present
	var names []string
	for n := range st.heap {
		if strings.HasPrefix(n, "I:") && strings.HasSuffix(n, ":gen:"+fam) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		gen := st.heap[n]
		iref := st.heap[strings.TrimSuffix(n, ":gen:"+fam)+":ref"]
		st.setComp(n, c.Ite(c.Eq(iref, ref), c.Store(gen, kt, c.F), gen), nil)
	}
}

func (x *Exec) mapLookup(fr *Frame, st *State, m, k Value, commaOk bool, pos token.Pos) Value {
	c := x.c
	mt := m.t.Underlying().(*types.Map)
	ref := m.l[0]
	x.raceMap(fr, st, m, false, pos)
	dom, _, vals, _ := x.mapComps(st, mt)
	kt := x.keyTerm(st, k)
	in := c.Select(c.Select(dom, ref), kt)
	if freshRef(ref) == nil {
		st.assume(c.Imp(c.Eq(ref, c.Int(0)), c.Not(in)))
	}
	x.mapFacts(st, mt, ref)
	z := x.zero(mt.Elem())
	v := Value{t: mt.Elem()}
	raw := Value{t: mt.Elem()}
	d := st.decide(in)
	for i, vc := range vals {
		r := c.Select(c.Select(vc, ref), kt)
		raw.l = append(raw.l, r)
		v.l = append(v.l, c.Ite(d, r, z.l[i]))
	}
	for _, f := range x.typeFacts(st, raw) {
		st.assume(c.Imp(in, f))
	}
	if x.conc {
		x.tagElem(st, m, raw)
		x.tagElem(st, m, v)
	}
	if commaOk {
		ok := Value{t: types.Typ[types.Bool], l: []*Term{in}}
		// keep the raw value when the code branches on ok: forking on membership keeps terms small
		return Value{tup: []Value{v, ok}}
	}
	return v
}

// next advances a map iteration: an unvisited present key, or exhaustion.
func (x *Exec) next(fr *Frame, st *State, n *ssa.Next, k func(*State, Value)) {
	c := x.c
	it := x.val(fr, n.Iter).iter
	tt := n.Type().(*types.Tuple)
	if n.IsString || it == nil || it.str {
		v := x.freshVal("rune", tt)
		k(st, v)
		return
	}
	pre := fmt.Sprintf("I:%d", it.id)
	visN, genN := pre+":vis", pre+":gen:"+it.fam
	vis, gen := st.heap[visN], st.heap[genN]
	mt := it.mt
	x.raceMap(fr, st, Value{t: mt, l: []*Term{it.ref}}, false, n.Pos())
	dom, _, vals, _ := x.mapComps(st, mt)
	kS := x.leafSorts(mt.Key())[0]
	d := c.Select(dom, it.ref)
	// exhausted
	done := st.clone()
	q := c.BVar("q0", kS)
	done.assume(c.Forall([]*Term{q}, c.Imp(c.Select(gen, q), c.Select(vis, q))))
	cntN := pre + ":cnt"
	cnt := st.heap[cntN]
	if d == gen && d == st.heap[pre+":dom0"] {
		// the map was not changed meanwhile: all its keys, and no others, were visited
		done.assume(c.Eq(vis, d))
		_, ln, _, _ := x.mapComps(st, mt)
		done.assume(c.Eq(cnt, c.Select(ln, it.ref)))
		st.assume(c.Lt(cnt, c.Select(ln, it.ref)))
	}
	st.setComp(cntN, c.Add(cnt, c.Int(1)), nil)
	// one more
	key := c.Fresh("key", kS)
	st.assume(c.Select(d, key))
	st.assume(c.Not(c.Select(vis, key)))
	x.mapFacts(st, mt, it.ref)
	st.setComp(visN, c.Store(vis, key, c.T), nil)
	kv := Value{t: mt.Key(), l: []*Term{key}}
	vv := Value{t: mt.Elem()}
	for _, vc := range vals {
		vv.l = append(vv.l, c.Select(c.Select(vc, it.ref), key))
	}
	x.assumeTypeFacts(st, kv)
	x.assumeTypeFacts(st, vv)
	if x.conc {
		x.tagElem(st, Value{t: mt, l: []*Term{it.ref}}, vv)
	}
	tb := func(b bool) Value { return Value{t: types.Typ[types.Bool], l: []*Term{c.Bool(b)}} }
	k(done, Value{tup: []Value{tb(false), x.zero(mt.Key()), x.zero(mt.Elem())}})
	k(st, Value{tup: []Value{tb(true), kv, vv}})
}

// ---- pure instructions ------------------------------------------------------------------------

func (x *Exec) eval(fr *Frame, st *State, v ssa.Value) Value {
	c := x.c
	switch n := v.(type) {
	case *ssa.Alloc:
		return x.allocObj(st, n.Type().Underlying().(*types.Pointer).Elem(), n.Type())
	case *ssa.BinOp:
		return x.binop(fr, st, n)
	case *ssa.UnOp:
		switch n.Op {
		case token.MUL:
			if gl, ok := n.X.(*ssa.Global); ok {
				if p, ok := x.g.globInit(gl); ok {
					if r, ok := x.rxRef(st, p); ok {
						return Value{t: n.Type(), l: []*Term{r}}
					}
				}
			}
			r := x.load(fr, st, x.val(fr, n.X), n.Pos())
			if len(r.l) == 1 {
				if cl := x.cloTab[r.l[0]]; cl != nil {
					r.clo = cl
				}
			}
			return r
		case token.NOT:
			return Value{t: n.Type(), l: []*Term{c.Not(x.val(fr, n.X).l[0])}}
		case token.SUB:
			o := x.val(fr, n.X)
			if o.l[0].sort == IntS {
				return Value{t: n.Type(), l: []*Term{c.Neg(o.l[0])}}
			}
			return Value{t: n.Type(), l: []*Term{c.App("neg!"+o.l[0].sort.name, o.l[0].sort, o.l[0])}}
		case token.XOR:
			return Value{t: n.Type(), l: []*Term{c.App("bitnot", IntS, x.val(fr, n.X).l[0])}}
		}
		x.unsup("unary operator %s at %s", n.Op, x.pos(n.Pos()))
	case *ssa.ChangeType:
		o := x.val(fr, n.X)
		o.t = n.Type()
		return o
	case *ssa.ChangeInterface:
		o := x.val(fr, n.X)
		o.t = n.Type()
		return o
	case *ssa.Convert:
		return x.convert(fr, st, n)
	case *ssa.MultiConvert:
		x.unsup("generic conversion")
	case *ssa.MakeInterface:
		o := x.val(fr, n.X)
		if o.clo != nil && len(o.l) == 0 {
			o.l = []*Term{x.fnRef(o.clo.fn)}
		}
		x.markPub(o.t)
		r := Value{t: n.Type(), l: []*Term{x.box(o)}}
		if x.conc {
			x.tagBox(o, r)
		}
		return r
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range n.Bindings {
			bs = append(bs, x.val(fr, b))
		}
		return Value{t: n.Type(), clo: &Closure{fn: n.Fn.(*ssa.Function), binds: bs}, l: []*Term{st.newRef()}}
	case *ssa.MakeMap:
		ref := st.newRef()
		mt := n.Type().Underlying().(*types.Map)
		x.initMap(st, mt, ref)
		return Value{t: n.Type(), l: []*Term{ref}}
	case *ssa.MakeChan:
		return Value{t: n.Type(), l: []*Term{st.newRef()}}
	case *ssa.MakeSlice:
		ln := x.val(fr, n.Len).l[0]
		cp := x.val(fr, n.Cap).l[0]
		x.check(fr, st, c.And(c.Ge(ln, c.Int(0)), c.Le(ln, cp)), "makeslice: length in range", n.Pos())
		et := n.Type().Underlying().(*types.Slice).Elem()
		ref := st.newRef()
		x.initElems(st, et, ref)
		return Value{t: n.Type(), l: []*Term{ref, c.Int(0), ln, cp}}
	case *ssa.Slice:
		return x.slice(fr, st, n)
	case *ssa.FieldAddr:
		p := x.val(fr, n.X)
		a := x.addrOf(p)
		if p.addr == nil {
			x.nonNil(fr, st, a.ref, "nil pointer dereference", n.Pos())
		}
		return Value{t: n.Type(), addr: x.fieldAddr(a, n.Field)}
	case *ssa.Field:
		o := x.val(fr, n.X)
		lo, k := x.g.fieldRange(o.t, n.Field)
		if lo+k > len(o.l) {
			x.unsup("field of opaque type %v", o.t)
		}
		return Value{t: n.Type(), l: o.l[lo : lo+k]}
	case *ssa.IndexAddr:
		p := x.val(fr, n.X)
		i := x.val(fr, n.Index).l[0]
		switch u := p.t.Underlying().(type) {
		case *types.Slice:
			x.check(fr, st, c.And(c.Ge(i, c.Int(0)), c.Lt(i, p.l[2])), "index in range", n.Pos())
			return Value{t: n.Type(), addr: &Addr{kind: 'E', key: x.g.elemKey(u.Elem()), ref: p.l[0], idx: c.Add(p.l[1], i), t: u.Elem(), own: u.Elem()}}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.check(fr, st, c.And(c.Ge(i, c.Int(0)), c.Lt(i, c.Int(at.Len()))), "index in range", n.Pos())
			if p.addr != nil {
				x.unsup("address of array element inside a structure")
			}
			return Value{t: n.Type(), addr: &Addr{kind: 'E', key: x.g.elemKey(at.Elem()), ref: p.l[0], idx: i, t: at.Elem(), own: at.Elem()}}
		}
		x.unsup("IndexAddr on %v", p.t)
	case *ssa.Index:
		o := x.val(fr, n.X)
		i := x.val(fr, n.Index).l[0]
		if b, ok := o.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			x.check(fr, st, c.And(c.Ge(i, c.Int(0)), c.Lt(i, c.StrLen(o.l[0]))), "index in range", n.Pos())
			return Value{t: n.Type(), l: []*Term{c.StrAt(o.l[0], i)}}
		}
		if at, ok := o.t.Underlying().(*types.Array); ok && i.op == OInt {
			k := len(x.leafSorts(at.Elem()))
			return Value{t: n.Type(), l: o.l[int(i.k)*k : (int(i.k)+1)*k]}
		}
		x.unsup("Index at %s", x.pos(n.Pos()))
	case *ssa.Lookup:
		o := x.val(fr, n.X)
		if _, ok := o.t.Underlying().(*types.Map); ok {
			return x.mapLookup(fr, st, o, x.val(fr, n.Index), n.CommaOk, n.Pos())
		}
		i := x.val(fr, n.Index).l[0]
		x.check(fr, st, c.And(c.Ge(i, c.Int(0)), c.Lt(i, c.StrLen(o.l[0]))), "index in range", n.Pos())
		return Value{t: n.Type(), l: []*Term{c.StrAt(o.l[0], i)}}
	case *ssa.Extract:
		o := x.val(fr, n.Tuple)
		r := o.tup[n.Index]
		r.t = n.Type()
		return r
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, n)
	case *ssa.Range:
		m := x.val(fr, n.X)
		x.iters++
		it := &Iter{id: x.iters}
		if mt, ok := m.t.Underlying().(*types.Map); ok {
			it.fam = x.g.mapKey(mt)
			it.ref = m.l[0]
			it.mt = mt
			x.raceMap(fr, st, m, false, n.Pos())
			dom, _, _, _ := x.mapComps(st, mt)
			ks := x.leafSorts(mt.Key())[0]
			pre := fmt.Sprintf("I:%d", it.id)
			d := c.Select(dom, it.ref)
			st.heap[pre+":vis"] = c.ConstArr(c.ArrS(ks, BoolS), c.F)
			st.heap[pre+":gen:"+it.fam] = d
			st.heap[pre+":ref"] = it.ref
			st.heap[pre+":cnt"] = c.Int(0)
			st.heap[pre+":dom0"] = d
			if freshRef(it.ref) == nil {
				q := c.BVar("q0", ks)
				st.assume(c.Imp(c.Eq(it.ref, c.Int(0)), c.Forall([]*Term{q}, c.Not(c.Select(d, q)))))
			}
			x.mapFacts(st, mt, it.ref)
		} else {
			it.str = true
		}
		return Value{t: n.Type(), iter: it}
	case *ssa.SliceToArrayPointer:
		x.unsup("slice to array conversion")
	}
	x.unsup("instruction %T at %s", v, x.pos(v.Pos()))
	return Value{}
}

func (x *Exec) allocObj(st *State, t types.Type, pt types.Type) Value {
	c := x.c
	ref := st.newRef()
	if at, ok := t.Underlying().(*types.Array); ok {
		x.initElems(st, at.Elem(), ref)
		return Value{t: pt, l: []*Term{ref}}
	}
	key := x.g.objKey(t)
	for i, s := range x.leafSorts(t) {
		n := fmt.Sprintf("%s:%d", key, i)
		st.initComp(n, c.Store(st.comp(n, c.ArrS(IntS, s)), ref, x.zeroLeaf(s)), ref)
	}
	v := Value{t: pt, l: []*Term{ref}}
	if x.countAllocs(t) {
		// ghost list of the objects allocated, in order
		kn, an := "X:#"+key, "X:@"+key
		n := x.allocCount(st, key)
		st.initComp(an, c.Store(st.comp(an, c.ArrS(IntS, IntS)), n, ref), nil)
		st.initComp(kn, c.Add(n, c.Int(1)), nil)
	}
	if x.stackOn(pt) {
		st.assume(c.Eq(c.Select(st.comp("STK", c.ArrS(ValS, StkS)), x.box(v)), c.Var("sempty", StkS)))
	}
	return v
}

func (x *Exec) initElems(st *State, et types.Type, ref *Term) {
	c := x.c
	key := x.g.elemKey(et)
	for j, s := range x.leafSorts(et) {
		n := fmt.Sprintf("%s:%d", key, j)
		as := c.ArrS(IntS, s)
		cc := st.comp(n, c.ArrS(IntS, as))
		st.initComp(n, c.Store(cc, ref, c.ConstArr(as, x.zeroLeaf(s))), ref)
	}
}

func (x *Exec) initMap(st *State, mt *types.Map, ref *Term) {
	c := x.c
	dom, ln, vals, fam := x.mapComps(st, mt)
	st.initComp(fam+":D", c.Store(dom, ref, c.ConstArr(dom.sort.rng, c.F)), ref)
	st.initComp(fam+":L", c.Store(ln, ref, c.Int(0)), ref)
	for i, vc := range vals {
		n := fmt.Sprintf("%s:V%d", fam, i)
		st.initComp(n, c.Store(vc, ref, c.ConstArr(vc.sort.rng, x.zeroLeaf(vc.sort.rng.rng))), ref)
	}
}

func (x *Exec) typeAssert(fr *Frame, st *State, n *ssa.TypeAssert) Value {
	c := x.c
	o := x.val(fr, n.X)
	val := o.l[0]
	ok := x.hasType(val, n.AssertedType)
	ok = st.decide(ok)
	var v Value
	if types.IsInterface(n.AssertedType) {
		v = Value{t: n.AssertedType, l: []*Term{val}}
		if n.CommaOk {
			v.l = []*Term{c.Ite(ok, val, c.Nil())}
		}
	} else {
		v = x.unbox(val, n.AssertedType)
		if n.CommaOk {
			z := x.zero(n.AssertedType)
			for i := range v.l {
				v.l[i] = c.Ite(ok, v.l[i], z.l[i])
			}
		}
	}
	if x.conc {
		if ow, o2 := x.owner[val]; o2 {
			for _, l := range v.l {
				x.owner[l] = ow
			}
		}
	}
	if n.CommaOk {
		return Value{tup: []Value{v, {t: types.Typ[types.Bool], l: []*Term{ok}}}}
	}
	x.check(fr, st, ok, "type assertion holds", n.Pos())
	return v
}

func (x *Exec) slice(fr *Frame, st *State, n *ssa.Slice) Value {
	c := x.c
	o := x.val(fr, n.X)
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.val(fr, v).l[0]
	}
	switch u := o.t.Underlying().(type) {
	case *types.Basic: // string
		lo := opt(n.Low, c.Int(0))
		hi := opt(n.High, c.StrLen(o.l[0]))
		x.check(fr, st, c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, c.StrLen(o.l[0]))), "slice bounds in range", n.Pos())
		return Value{t: n.Type(), l: []*Term{c.Substr(o.l[0], lo, hi)}}
	case *types.Slice:
		lo := opt(n.Low, c.Int(0))
		hi := opt(n.High, o.l[2])
		mx := opt(n.Max, o.l[3])
		x.check(fr, st, c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, o.l[3])), "slice bounds in range", n.Pos())
		// the memory model does not say what lies between length and capacity
		if d := st.decide(c.Le(hi, o.l[2])); d != c.T {
			x.check(fr, st, c.Le(hi, o.l[2]), "slice stays within the length", n.Pos())
		}
		return Value{t: n.Type(), l: []*Term{o.l[0], c.Add(o.l[1], lo), c.Sub(hi, lo), c.Sub(mx, lo)}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		N := c.Int(at.Len())
		lo := opt(n.Low, c.Int(0))
		hi := opt(n.High, N)
		mx := opt(n.Max, N)
		x.check(fr, st, c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, N)), "slice bounds in range", n.Pos())
		return Value{t: n.Type(), l: []*Term{o.l[0], lo, c.Sub(hi, lo), c.Sub(mx, lo)}}
	}
	x.unsup("slice of %v", o.t)
	return Value{}
}

var intBits = map[types.BasicKind][2]int{ // signed?, bits
	types.Int: {1, 64}, types.Int8: {1, 8}, types.Int16: {1, 16}, types.Int32: {1, 32}, types.Int64: {1, 64},
	types.Uint: {0, 64}, types.Uint8: {0, 8}, types.Uint16: {0, 16}, types.Uint32: {0, 32}, types.Uint64: {0, 64}, types.Uintptr: {0, 64},
}

// convTerm converts a scalar between basic types.
func (x *Exec) convTerm(t *Term, from, to *types.Basic) *Term {
	c := x.c
	fi, ti := from.Info(), to.Info()
	fk, tk := from.Kind(), to.Kind()
	if fk == tk {
		return t
	}
	if fi&types.IsInteger != 0 && ti&types.IsInteger != 0 {
		if from.Info()&types.IsUntyped != 0 {
			return t
		}
		f, g := intBits[fk], intBits[tk]
		if t.op == OInt {
			// constants: exact when in range
			if g[0] == 1 && (g[1] == 64 || t.k >= -(1<<(g[1]-1)) && t.k < 1<<(g[1]-1)) || g[0] == 0 && t.k >= 0 && (g[1] == 64 || t.k < 1<<g[1]) {
				return t
			}
		}
		if g[0] == f[0] && g[1] >= f[1] || f[0] == 0 && g[0] == 1 && g[1] > f[1] {
			return t
		}
		return c.App("conv!int!"+to.Name(), IntS, t) // depends on the number only
	}
	if ti&types.IsFloat != 0 && t.op == OInt && t.k > -1000 && t.k < 1000 {
		return x.fltConst(constant.MakeInt64(t.k))
	}
	var res *Sort
	switch {
	case ti&types.IsInteger != 0:
		res = IntS
	case ti&types.IsFloat != 0:
		res = FltS
	case ti&types.IsString != 0:
		res = StrS
	default:
		res = OpqS
	}
	fn := from.Name()
	if fi&types.IsInteger != 0 && res == FltS {
		fn = "int"
	}
	return c.App("conv!"+fn+"!"+to.Name(), res, t)
}

func (x *Exec) convert(fr *Frame, st *State, n *ssa.Convert) Value {
	c := x.c
	o := x.val(fr, n.X)
	ft, tt := o.t.Underlying(), n.Type().Underlying()
	fb, ok1 := ft.(*types.Basic)
	tb, ok2 := tt.(*types.Basic)
	if ok1 && ok2 {
		return Value{t: n.Type(), l: []*Term{x.convTerm(o.l[0], fb, tb)}}
	}
	if ok1 && fb.Info()&types.IsString != 0 {
		if sl, ok := tt.(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				ref := st.newRef()
				key := x.g.elemKey(sl.Elem()) + ":0"
				as := c.ArrS(IntS, IntS)
				cc := st.comp(key, c.ArrS(IntS, as))
				st.initComp(key, c.Store(cc, ref, c.App("bytesOf", as, o.l[0])), ref)
				ln := c.StrLen(o.l[0])
				return Value{t: n.Type(), l: []*Term{ref, c.Int(0), ln, ln}}
			}
		}
	}
	if sl, ok := ft.(*types.Slice); ok && ok2 && tb.Info()&types.IsString != 0 {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return Value{t: n.Type(), l: []*Term{x.strOfBytes(st, o, sl.Elem())}}
		}
	}
	x.unsup("conversion %v to %v at %s", o.t, n.Type(), x.pos(n.Pos()))
	return Value{}
}

func (x *Exec) strOfBytes(st *State, o Value, et types.Type) *Term {
	c := x.c
	key := x.g.elemKey(et) + ":0"
	A := c.Select(st.comp(key, c.ArrS(IntS, c.ArrS(IntS, IntS))), o.l[0])
	if A.op == OApp && A.name == "bytesOf" && o.l[1] == c.Int(0) && o.l[2] == c.StrLen(A.args[0]) {
		return A.args[0]
	}
	return c.App("strOf", StrS, A, o.l[1], o.l[2])
}

func (x *Exec) fltEq(a, b *Term) *Term {
	if a.op == OVar && strings.HasPrefix(a.name, "flt:") {
		a, b = b, a
	}
	return x.c.App("flt!==", BoolS, a, b)
}

func (x *Exec) binop(fr *Frame, st *State, n *ssa.BinOp) Value {
	c := x.c
	a, b := x.val(fr, n.X), x.val(fr, n.Y)
	bool1 := func(t *Term) Value { return Value{t: n.Type(), l: []*Term{t}} }
	switch n.Op {
	case token.EQL, token.NEQ:
		var t *Term
		if len(a.l) == 1 && a.l[0].sort == FltS {
			t = x.fltEq(a.l[0], b.l[0]) // not identity: -0 and NaN
		} else {
			t = x.eqVals(a, b)
		}
		if n.Op == token.NEQ {
			t = c.Not(t)
		}
		return bool1(t)
	}
	s := a.l[0].sort
	x0, y0 := a.l[0], b.l[0]
	switch s {
	case IntS:
		bits := types.Typ[types.Int]
		if bb, ok := a.t.Underlying().(*types.Basic); ok {
			bits = bb
		}
		_ = bits
		switch n.Op {
		case token.ADD:
			return bool1(c.Add(x0, y0))
		case token.SUB:
			return bool1(c.Sub(x0, y0))
		case token.MUL:
			return bool1(c.Mul(x0, y0))
		case token.QUO:
			if y0.op == OInt && y0.k > 0 {
				return bool1(c.Div(x0, y0))
			}
			x.check(fr, st, c.Not(c.Eq(y0, c.Int(0))), "division by zero", n.Pos())
			return bool1(c.App("godiv", IntS, x0, y0))
		case token.REM:
			if y0.op == OInt && y0.k > 0 {
				return bool1(c.Mod(x0, y0))
			}
			x.check(fr, st, c.Not(c.Eq(y0, c.Int(0))), "division by zero", n.Pos())
			return bool1(c.App("gomod", IntS, x0, y0))
		case token.LSS:
			return bool1(c.Lt(x0, y0))
		case token.LEQ:
			return bool1(c.Le(x0, y0))
		case token.GTR:
			return bool1(c.Gt(x0, y0))
		case token.GEQ:
			return bool1(c.Ge(x0, y0))
		case token.AND:
			// x & 1 is parity
			if y0.op == OInt && y0.k == 1 {
				m := c.Mod(x0, c.Int(2))
				return bool1(c.Ite(c.Lt(m, c.Int(0)), c.Neg(m), m))
			}
		case token.SHL:
			if y0.op == OInt && y0.k >= 0 && y0.k < 62 {
				return bool1(c.Mul(x0, c.Int(1<<uint(y0.k))))
			}
		}
		return bool1(c.App("bin!"+n.Op.String(), IntS, x0, y0))
	case StrS:
		switch n.Op {
		case token.ADD:
			return bool1(c.Cat(x0, y0))
		case token.LSS:
			return bool1(c.App("strlt", BoolS, x0, y0))
		case token.GTR:
			return bool1(c.App("strlt", BoolS, y0, x0))
		case token.LEQ:
			return bool1(c.Not(c.App("strlt", BoolS, y0, x0)))
		case token.GEQ:
			return bool1(c.Not(c.App("strlt", BoolS, x0, y0)))
		}
	case FltS:
		switch n.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return bool1(c.App("flt!"+n.Op.String(), BoolS, x0, y0))
		}
		return bool1(c.App("flt!"+n.Op.String(), FltS, x0, y0))
	case BoolS:
		switch n.Op {
		case token.AND, token.LAND:
			return bool1(c.And(x0, y0))
		case token.OR, token.LOR:
			return bool1(c.Or(x0, y0))
		}
	}
	x.unsup("operator %s on %v at %s", n.Op, a.t, x.pos(n.Pos()))
	return Value{}
}

func (x *Exec) eqVals(a, b Value) *Term {
	c := x.c
	if a.clo != nil && len(a.l) == 0 {
		a.l = []*Term{x.fnRef(a.clo.fn)}
	}
	if b.clo != nil && len(b.l) == 0 {
		b.l = []*Term{x.fnRef(b.clo.fn)}
	}
	if a.addr != nil || b.addr != nil {
		// interior pointers are never nil
		for _, p := range [][2]Value{{a, b}, {b, a}} {
			if p[0].addr != nil && p[1].addr == nil && len(p[1].l) == 1 && p[1].l[0] == c.Int(0) {
				return c.F
			}
		}
		return c.Eq(x.ptrTerm(a), x.ptrTerm(b))
	}
	// comparison with nil slices: by array reference
	if a.t != nil {
		if _, ok := a.t.Underlying().(*types.Slice); ok {
			for _, p := range [][2]Value{{a, b}, {b, a}} {
				if f := x.maybeNil[p[0].l[0]]; f != nil && p[1].l[0] == c.Int(0) {
					return f
				}
			}
			return c.Eq(a.l[0], b.l[0])
		}
	}
	if len(a.l) != len(b.l) {
		x.unsup("comparison of %v and %v", a.t, b.t)
	}
	// mixed interface / concrete
	var es []*Term
	for i := range a.l {
		if a.l[i].sort != b.l[i].sort {
			if a.l[i].sort == ValS && b.t != nil {
				return c.Eq(a.l[i], x.box(b))
			}
			if b.l[i].sort == ValS && a.t != nil {
				return c.Eq(b.l[i], x.box(a))
			}
			x.unsup("comparison of %v and %v", a.t, b.t)
		}
		es = append(es, c.Eq(a.l[i], b.l[i]))
	}
	if types.IsInterface(a.t) {
		_ = es
	}
	return c.And(es...)
}

func (x *Exec) ptrTerm(v Value) *Term {
	if v.addr != nil {
		return x.addrRef(v)
	}
	return v.l[0]
}

// countAllocs: the contract speaks of the objects of this type in the order of their allocation.
func (x *Exec) countAllocs(t types.Type) bool {
	o := x.root.opts["allocs"]
	if o == "" {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == o
}

func (x *Exec) allocCount(st *State, key string) *Term { return st.comp("X:#"+key, IntS) }
