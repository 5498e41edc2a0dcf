package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SEnv struct {
	x    *Exec
	st   *State
	old  *State
	ent  *State
	acq  *State
	vars map[string]Value
	iter *Iter
	d    int
	q    int
}

type specErr struct{ msg string }

func (e *SEnv) fail(ex *Expr, f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s:%d: %s", ex.file, ex.line, fmt.Sprintf(f, a...))})
}

func (e *SEnv) with(st *State) *SEnv { n := *e; n.st = st; return &n }
func (e *SEnv) bind(name string, v Value) *SEnv {
	n := *e
	n.vars = make(map[string]Value, len(e.vars)+1)
	for k, w := range e.vars {
		n.vars[k] = w
	}
	n.vars[name] = v
	return &n
}

// specType resolves Go type text or the name of a specification sort.
func (g *Global) specType(s string) (types.Type, *Sort, error) {
	s = strings.TrimSpace(s)
	switch s {
	case "Stk":
		return nil, StkS, nil
	case "World":
		return nil, WorldS, nil
	case "Bag":
		return nil, BagS, nil
	case "Opq":
		return nil, OpqS, nil
	case "any", "Val":
		return types.NewInterfaceType(nil, nil).Complete(), nil, nil
	}
	g.mu.Lock()
	defer g.mu.Unlock()
	if t, ok := g.typeCache[s]; ok {
		return t, nil, nil
	}
	for _, f := range g.files {
		if len(f.Decls) == 0 {
			continue
		}
		tv, err := types.Eval(g.fset, g.pkg, f.Decls[len(f.Decls)-1].End(), s)
		if err != nil {
			tv, err = types.Eval(g.fset, g.pkg, f.Name.End(), s)
		}
		if err == nil && tv.IsType() {
			g.typeCache[s] = tv.Type
			return tv.Type, nil, nil
		}
	}
	return nil, nil, fmt.Errorf("unknown type %q", s)
}

func sv(s *Sort, t *Term) Value { return Value{sort: s, l: []*Term{t}} }
func bv(t *Term) Value          { return Value{t: types.Typ[types.Bool], l: []*Term{t}} }
func iv(t *Term) Value          { return Value{t: types.Typ[types.Int], l: []*Term{t}} }
func strv(t *Term) Value        { return Value{t: types.Typ[types.String], l: []*Term{t}} }

var untypedNil = types.Typ[types.UntypedNil]

func (e *SEnv) term(ex *Expr) *Term {
	v := e.eval(ex)
	if len(v.l) != 1 {
		if v.addr != nil {
			return e.x.addrRef(v)
		}
		e.fail(ex, "scalar expected")
	}
	return v.l[0]
}
func (e *SEnv) boolT(ex *Expr) *Term {
	t := e.term(ex)
	if t.sort != BoolS {
		e.fail(ex, "boolean expected, got %s", t.sort.name)
	}
	return t
}

func (e *SEnv) eval(ex *Expr) Value {
	x, c := e.x, e.x.c
	switch ex.op {
	case "int":
		return iv(c.Int(ex.k))
	case "str":
		return strv(c.Str(ex.s))
	case "id":
		return e.ident(ex)
	case "let":
		v := e.eval(ex.args[0])
		return e.bind(ex.s, v).eval(ex.args[1])
	case "cond":
		cd := e.boolT(ex.args[0])
		a, b := e.eval(ex.args[1]), e.eval(ex.args[2])
		a, b = e.unify(ex, a, b)
		r := Value{t: a.t, sort: a.sort}
		for i := range a.l {
			r.l = append(r.l, c.Ite(cd, a.l[i], b.l[i]))
		}
		return r
	case "forall", "exists":
		n := e
		var bs []*Term
		for _, p := range ex.vars {
			t, s, err := x.g.specType(p.typ)
			if err != nil {
				e.fail(ex, "%v", err)
			}
			var v Value
			if t == nil {
				b := c.BVar(fmt.Sprintf("%s.%d", p.name, e.q+len(bs)), s)
				bs = append(bs, b)
				v = sv(s, b)
			} else {
				v = Value{t: t}
				for i, ls := range x.leafSorts(t) {
					b := c.BVar(fmt.Sprintf("%s.%d.%d", p.name, e.q, i), ls)
					bs = append(bs, b)
					v.l = append(v.l, b)
				}
			}
			n = n.bind(p.name, v)
		}
		n2 := *n
		n2.q = e.q + len(bs)
		body := n2.boolT(ex.args[0])
		if ex.op == "forall" && len(ex.args) > 1 {
			var pats []*Term
			for _, a := range ex.args[1:] {
				pats = append(pats, n2.eval(a).l[0])
			}
			if body.op == OAnd {
				var r []*Term
				for _, b := range body.args {
					r = append(r, c.Forall(bs, c.Trig(b, pats)))
				}
				return bv(c.And(r...))
			}
			return bv(c.Forall(bs, c.Trig(body, pats)))
		}
		if ex.op == "forall" {
			return bv(c.Forall(bs, body))
		}
		return bv(c.Exists(bs, body))
	case "un":
		switch ex.s {
		case "!":
			return bv(c.Not(e.boolT(ex.args[0])))
		case "-":
			return iv(c.Neg(e.term(ex.args[0])))
		case "*":
			v := e.eval(ex.args[0])
			if v.t == nil {
				e.fail(ex, "cannot dereference")
			}
			if _, ok := v.t.Underlying().(*types.Slice); ok {
				return v // a list held as such and not in a variable of its own (see metaOpts)
			}
			if _, ok := v.t.Underlying().(*types.Pointer); !ok {
				e.fail(ex, "cannot dereference %v", v.t)
			}
			return x.loadAddr(e.st, x.addrOf(v))
		}
	case "bin":
		return e.binary(ex)
	case "field":
		v := e.eval(ex.args[0])
		if v.t == nil {
			e.fail(ex, "no field %s", ex.s)
		}
		if pt, ok := v.t.Underlying().(*types.Pointer); ok {
			i := e.fieldIdx(ex, pt.Elem(), ex.s)
			return x.loadAddr(e.st, x.fieldAddr(x.addrOf(v), i))
		}
		i := e.fieldIdx(ex, v.t, ex.s)
		lo, n := x.g.fieldRange(v.t, i)
		return Value{t: v.t.Underlying().(*types.Struct).Field(i).Type(), l: v.l[lo : lo+n]}
	case "index":
		v := e.eval(ex.args[0])
		if v.t == nil {
			i := e.term(ex.args[1])
			r := c.Select(v.l[0], i)
			return Value{sort: r.sort, l: []*Term{r}}
		}
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			i := e.term(ex.args[1])
			return x.loadAddr(e.st, &Addr{kind: 'E', key: x.g.elemKey(u.Elem()), ref: v.l[0], idx: c.Add(v.l[1], i), t: u.Elem(), own: u.Elem()})
		case *types.Map:
			k := e.coerce(ex, e.eval(ex.args[1]), u.Key())
			_, _, vals, _ := x.mapComps(e.st, u)
			r := Value{t: u.Elem()}
			for _, vc := range vals {
				r.l = append(r.l, c.Select(c.Select(vc, v.l[0]), k.l[0]))
			}
			return r
		case *types.Basic:
			return iv(c.StrAt(v.l[0], e.term(ex.args[1])))
		}
		e.fail(ex, "cannot index %v", v.t)
	case "slice":
		v := e.eval(ex.args[0])
		lo := c.Int(0)
		if ex.args[1] != nil {
			lo = e.term(ex.args[1])
		}
		switch v.t.Underlying().(type) {
		case *types.Basic:
			hi := c.StrLen(v.l[0])
			if ex.args[2] != nil {
				hi = e.term(ex.args[2])
			}
			return strv(c.Substr(v.l[0], lo, hi))
		case *types.Slice:
			hi := v.l[2]
			if ex.args[2] != nil {
				hi = e.term(ex.args[2])
			}
			return Value{t: v.t, l: []*Term{v.l[0], c.Add(v.l[1], lo), c.Sub(hi, lo), c.Sub(v.l[3], lo)}}
		}
		e.fail(ex, "cannot slice %v", v.t)
	case "call":
		return e.call(ex)
	}
	e.fail(ex, "cannot evaluate %s", ex.op)
	return Value{}
}

func (e *SEnv) fieldIdx(ex *Expr, t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		e.fail(ex, "%v has no fields", t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	e.fail(ex, "%v has no field %s", t, name)
	return 0
}

func (e *SEnv) ident(ex *Expr) Value {
	x, c := e.x, e.x.c
	if v, ok := e.vars[ex.s]; ok {
		return v
	}
	switch ex.s {
	case "true":
		return bv(c.T)
	case "false":
		return bv(c.F)
	case "nil":
		return Value{t: untypedNil, l: []*Term{c.Nil()}}
	case "now":
		return iv(e.st.comp("now", IntS))
	case "W":
		return sv(WorldS, e.st.comp("W", WorldS))
	case "sempty":
		return sv(StkS, c.Var("sempty", StkS))
	}
	if m := x.g.spec.macros[ex.s]; m != nil && len(m.params) == 0 {
		return e.macro(ex, m, nil)
	}
	if o := x.g.pkg.Scope().Lookup(ex.s); o != nil {
		switch k := o.(type) {
		case *types.Const:
			return e.constVal(k.Type(), k.Val())
		case *types.Var:
			return x.loadAddr(e.st, &Addr{kind: 'G', key: "G:" + short(x.g.pkg.Path()) + "." + k.Name(), t: k.Type(), own: k.Type()})
		}
	}
	e.fail(ex, "unknown identifier %s", ex.s)
	return Value{}
}

func (e *SEnv) constVal(t types.Type, v constant.Value) Value {
	c := e.x.c
	switch v.Kind() {
	case constant.Int:
		i, _ := constant.Int64Val(v)
		return iv(c.Int(i))
	case constant.String:
		return strv(c.Str(constant.StringVal(v)))
	case constant.Bool:
		return bv(c.Bool(constant.BoolVal(v)))
	}
	return Value{t: t, l: []*Term{e.x.fltConst(v)}}
}

// unify adapts two values to a common representation (nil, boxed and unboxed).
func (e *SEnv) unify(ex *Expr, a, b Value) (Value, Value) {
	if a.t == untypedNil && b.t == untypedNil {
		return a, b
	}
	if a.t == untypedNil {
		b2, a2 := e.unify(ex, b, a)
		return a2, b2
	}
	if b.t == untypedNil {
		if a.t == nil {
			e.fail(ex, "nil against a specification sort")
		}
		if types.IsInterface(a.t) {
			return a, b
		}
		return a, e.x.zero(a.t)
	}
	if a.t != nil && b.t != nil {
		ai, bi := types.IsInterface(a.t), types.IsInterface(b.t)
		if ai && !bi {
			return a, Value{t: a.t, l: []*Term{e.x.box(b)}}
		}
		if bi && !ai {
			return Value{t: b.t, l: []*Term{e.x.box(a)}}, b
		}
	}
	if len(a.l) != len(b.l) {
		e.fail(ex, "operands of different shape (%v, %v)", a.t, b.t)
	}
	return a, b
}

func (e *SEnv) coerce(ex *Expr, v Value, t types.Type) Value {
	if v.t == untypedNil {
		return e.x.zero(t)
	}
	if v.t != nil && types.IsInterface(t) && !types.IsInterface(v.t) {
		return Value{t: t, l: []*Term{e.x.box(v)}}
	}
	if len(v.l) == 0 && v.addr != nil {
		v.l = []*Term{e.x.addrRef(v)}
		v.addr = nil
	}
	return v
}

func (e *SEnv) eq(ex *Expr, a, b Value) *Term {
	c := e.x.c
	nilcmp := a.t == untypedNil || b.t == untypedNil
	a, b = e.unify(ex, a, b)
	if nilcmp && a.t != nil {
		if _, ok := a.t.Underlying().(*types.Slice); ok {
			return c.Eq(a.l[0], c.Int(0))
		}
	}
	var es []*Term
	for i := range a.l {
		if a.l[i].sort != b.l[i].sort {
			e.fail(ex, "comparison of %s and %s", a.l[i].sort.name, b.l[i].sort.name)
		}
		es = append(es, c.Eq(a.l[i], b.l[i]))
	}
	return c.And(es...)
}

func (e *SEnv) binary(ex *Expr) Value {
	x, c := e.x, e.x.c
	switch ex.s {
	case "&&":
		return bv(c.And(e.boolT(ex.args[0]), e.boolT(ex.args[1])))
	case "||":
		return bv(c.Or(e.boolT(ex.args[0]), e.boolT(ex.args[1])))
	case "==>":
		a := e.boolT(ex.args[0])
		if a == c.F {
			return bv(c.T)
		}
		return bv(c.Imp(a, e.boolT(ex.args[1])))
	case "<==>":
		return bv(c.Eq(e.boolT(ex.args[0]), e.boolT(ex.args[1])))
	case "==":
		return bv(e.eq(ex, e.eval(ex.args[0]), e.eval(ex.args[1])))
	case "!=":
		return bv(c.Not(e.eq(ex, e.eval(ex.args[0]), e.eval(ex.args[1]))))
	case "in":
		k := e.eval(ex.args[0])
		m := e.eval(ex.args[1])
		if m.t == nil {
			return bv(c.Select(m.l[0], k.l[0]))
		}
		mt, ok := m.t.Underlying().(*types.Map)
		if !ok {
			e.fail(ex, "in: map expected, got %v", m.t)
		}
		k = e.coerce(ex, k, mt.Key())
		dom, _, _, _ := x.mapComps(e.st, mt)
		return bv(c.And(c.Not(c.Eq(m.l[0], c.Int(0))), c.Select(c.Select(dom, m.l[0]), k.l[0])))
	}
	va, vb := e.eval(ex.args[0]), e.eval(ex.args[1])
	if len(va.l) != 1 || len(vb.l) != 1 {
		e.fail(ex, "scalar operands expected")
	}
	a, b := va.l[0], vb.l[0]
	if a.sort == StrS && ex.s == "+" {
		return strv(c.Cat(a, b))
	}
	if a.sort != IntS || b.sort != IntS {
		e.fail(ex, "operator %s on %s, %s", ex.s, a.sort.name, b.sort.name)
	}
	switch ex.s {
	case "+":
		return iv(c.Add(a, b))
	case "-":
		return iv(c.Sub(a, b))
	case "*":
		return iv(c.Mul(a, b))
	case "/":
		return iv(c.Div(a, b))
	case "%":
		return iv(c.Mod(a, b))
	case "<":
		return bv(c.Lt(a, b))
	case "<=":
		return bv(c.Le(a, b))
	case ">":
		return bv(c.Gt(a, b))
	case ">=":
		return bv(c.Ge(a, b))
	}
	e.fail(ex, "operator %s", ex.s)
	return Value{}
}

func (e *SEnv) macro(ex *Expr, m *Macro, args []Value) Value {
	if e.d > 60 {
		e.fail(ex, "definitions nested too deeply at %s", m.name)
	}
	n := *e
	n.d++
	n.vars = map[string]Value{}
	for i, p := range m.params {
		v := args[i]
		t, s, err := e.x.g.specType(p.typ)
		if err != nil {
			e.fail(ex, "%v", err)
		}
		if t != nil {
			if v.t == nil && v.sort != nil && len(v.l) == 1 {
				v.t = t
			}
			v = e.coerce(ex, v, t)
			if v.t != nil {
				v.t = t
			}
		} else if len(v.l) != 1 || v.l[0].sort != s {
			e.fail(ex, "argument %s of %s", p.name, m.name)
		}
		n.vars[p.name] = v
	}
	if m.rec {
		return e.recApp(ex, m, n.vars)
	}
	return n.eval(m.body)
}

func (e *SEnv) flat(m *Macro, vars map[string]Value) []*Term {
	var out []*Term
	for _, p := range m.params {
		out = append(out, vars[p.name].l...)
	}
	return out
}

func (e *SEnv) recApp(ex *Expr, m *Macro, vars map[string]Value) Value {
	x := e.x
	args := e.flat(m, vars)
	t, s, err := x.g.specType(m.res)
	if err != nil {
		e.fail(ex, "%v", err)
	}
	if t != nil {
		ls := x.leafSorts(t)
		if len(ls) != 1 {
			e.fail(ex, "recursive function %s must have a scalar result", m.name)
		}
		s = ls[0]
	}
	if e.st != x.pre {
		// the definition reads the heap of the function entry: what it reads must not have changed
		x.checkRecStable(e, ex, m, vars)
	}
	r := x.c.App(m.name, s, args...)
	if t != nil {
		return Value{t: t, l: []*Term{r}}
	}
	return sv(s, r)
}

// checkRecStable evaluates a recursive definition for symbolic arguments in both heaps.
func (x *Exec) checkRecStable(e *SEnv, ex *Expr, m *Macro, actual map[string]Value) {
	if x.recBusy || x.trial > 0 {
		return
	}
	x.recBusy = true
	defer func() { x.recBusy = false }()
	vars := map[string]Value{}
	for _, p := range m.params {
		t, s, err := x.g.specType(p.typ)
		if err != nil {
			e.fail(ex, "%v", err)
		}
		if t == nil {
			vars[p.name] = sv(s, x.c.Var("rs!"+p.name, s))
			continue
		}
		v := Value{t: t}
		for i, ls := range x.leafSorts(t) {
			v.l = append(v.l, x.c.Var(fmt.Sprintf("rs!%s.%d.%s", p.name, i, sortTag(ls)), ls))
		}
		vars[p.name] = v
	}
	n := *e
	n.vars = vars
	a := n.eval(m.body)
	n.st = x.pre
	b := n.eval(m.body)
	for i := range a.l {
		if a.l[i] != b.l[i] && !x.sameOnOld(e.st, m, vars, actual, a.l[i], b.l[i]) {
			panic(specErr{fmt.Sprintf("%s:%d: %s read in a state whose heap changed where it looks (%s)", ex.file, ex.line, m.name, changedComps(e.st, x.pre))})
		}
	}
}

// sameOnOld: the heap changed only where a structure that existed at the function entry does not reach:
// both readings agree for every argument older than the call, and the actual argument is one.
func (x *Exec) sameOnOld(st *State, m *Macro, vars, actual map[string]Value, a, b *Term) bool {
	c := x.c
	var hyps, refs []*Term
	for _, p := range m.params {
		for i, l := range vars[p.name].l {
			if t := vars[p.name].t; t != nil && isRefLeaf(t, i) {
				hyps = append(hyps, c.Le(c.Int(0), l), c.Lt(l, x.pre.alloc0))
				refs = append(refs, c.Lt(actual[p.name].l[i], x.pre.alloc0))
			}
		}
	}
	key := fmt.Sprintf("%s|%p|%p", m.name, a, c.And(st.pcs()...))
	ok, done := x.recSame[key]
	if !done {
		goals := []*Term{c.Eq(a, b)}
		if a.sort == BoolS {
			goals = []*Term{c.Imp(a, b), c.Imp(b, a)}
		}
		ok = true
		for _, g := range goals {
			ok = ok && x.g.pool.Solve(x.query(append(st.pcs(), hyps...), g), x.g.budgetCand*4, false).res == "unsat"
		}
		x.recSame[key] = ok
	}
	return ok && x.g.pool.Solve(x.query(st.pcs(), c.And(refs...)), x.g.budgetCand, true).res == "unsat"
}

func isRefLeaf(t types.Type, i int) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	case *types.Slice:
		return i == 0
	}
	return false
}

// unfoldRec gives the defining equation of a ground application.
func (x *Exec) unfoldRec(t *Term) *Term {
	m := x.g.recs[t.name]
	vars := map[string]Value{}
	k := 0
	for _, p := range m.params {
		ty, s, err := x.g.specType(p.typ)
		if err != nil {
			panic(specErr{err.Error()})
		}
		if ty == nil {
			vars[p.name] = sv(s, t.args[k])
			k++
			continue
		}
		n := len(x.leafSorts(ty))
		vars[p.name] = Value{t: ty, l: t.args[k : k+n]}
		k += n
	}
	e := &SEnv{x: x, st: x.pre, old: x.pre, ent: x.pre, vars: vars, q: 40}
	x.recBusy = true
	v := e.eval(m.body)
	x.recBusy = false
	if ty, _, _ := x.g.specType(m.res); ty != nil {
		v = e.coerce(m.body, v, ty)
	}
	return v.l[0]
}

func (e *SEnv) call(ex *Expr) Value {
	x, c := e.x, e.x.c
	arg := func(i int) *Expr {
		if i >= len(ex.args) {
			e.fail(ex, "%s: missing argument", ex.s)
		}
		return ex.args[i]
	}
	typ := func() types.Type {
		t, _, err := x.g.specType(ex.typ)
		if err != nil || t == nil {
			e.fail(ex, "type %q: %v", ex.typ, err)
		}
		return t
	}
	switch ex.s {
	case "old":
		return e.with(e.old).eval(arg(0))
	case "entry":
		if e.ent == nil {
			e.fail(ex, "entry() outside a loop candidate")
		}
		return e.with(e.ent).eval(arg(0))
	case "atacq":
		if e.acq == nil {
			e.fail(ex, "atacq() outside a guarantee")
		}
		return e.with(e.acq).eval(arg(0))
	case "len":
		v := e.eval(arg(0))
		if v.t == nil {
			e.fail(ex, "len")
		}
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			return iv(v.l[2])
		case *types.Map:
			_, ln, _, _ := x.mapComps(e.st, u)
			return iv(c.Select(ln, v.l[0]))
		case *types.Basic:
			return iv(c.StrLen(v.l[0]))
		}
		e.fail(ex, "len of %v", v.t)
	case "cap":
		return iv(e.eval(arg(0)).l[3])
	case "arr":
		return iv(e.eval(arg(0)).l[0])
	case "ref":
		return iv(x.ptrTerm(e.eval(arg(0))))
	case "alloc":
		return iv(e.st.alloc)
	case "fresh":
		v := e.eval(arg(0))
		return bv(c.Ge(v.l[0], e.old.alloc))
	case "pos":
		s := e.eval(arg(0))
		k := e.term(arg(1))
		et := s.t.Underlying().(*types.Slice).Elem()
		A := c.Select(e.st.comp(x.g.elemKey(et)+":0", c.ArrS(IntS, c.ArrS(IntS, k.sort))), s.l[0])
		return iv(c.Pos(A, s.l[1], s.l[2], k))
	case "injmap":
		m := e.eval(arg(0))
		mt, ok := m.t.Underlying().(*types.Map)
		if !ok || len(x.leafSorts(mt.Elem())) != 1 {
			e.fail(ex, "injmap(): map with one-word values expected")
		}
		dom, _, vals, _ := x.mapComps(e.st, mt)
		D, V := c.Select(dom, m.l[0]), c.Select(vals[0], m.l[0])
		return bv(c.App("inj!"+sortTag(D.sort.dom)+"!"+sortTag(V.sort.rng), BoolS, D, V))
	case "join":
		s := e.eval(arg(0))
		et := s.t.Underlying().(*types.Slice).Elem()
		A := c.Select(e.st.comp(x.g.elemKey(et)+":0", c.ArrS(IntS, c.ArrS(IntS, StrS))), s.l[0])
		return strv(c.JoinE(A, s.l[1], s.l[2], e.term(arg(1))))
	case "rxn":
		return iv(c.RxN(c.Rx(e.term(arg(0))), e.term(arg(1))))
	case "rxs":
		return iv(c.RxS(c.Rx(e.term(arg(0))), e.term(arg(1)), e.term(arg(2))))
	case "rxe":
		return iv(c.RxE(c.Rx(e.term(arg(0))), e.term(arg(1)), e.term(arg(2))))
	case "rxg":
		return strv(c.RxG(c.Rx(e.term(arg(0))), e.term(arg(1)), e.term(arg(2)), e.term(arg(3))))
	case "nalloc":
		return iv(x.allocCount(e.st, x.g.objKey(typ())))
	case "allocd":
		// the k-th object of the type allocated since the function was entered
		t := typ()
		return Value{t: types.NewPointer(t), l: []*Term{c.Select(e.st.comp("X:@"+x.g.objKey(t), c.ArrS(IntS, IntS)), e.term(arg(0)))}}
	case "btext":
		// what a strings.Builder or bytes.Buffer holds
		v := e.eval(arg(0))
		if _, ok := v.t.Underlying().(*types.Pointer); !ok {
			e.fail(ex, "btext of %v", v.t)
		}
		return strv(x.loadAddr(e.st, x.addrOf(v)).l[0])
	case "visitedset":
		if e.iter == nil {
			e.fail(ex, "visitedset outside a map range")
		}
		v := e.st.heap[fmt.Sprintf("I:%d:vis", e.iter.id)]
		return sv(v.sort, v)
	case "bagof":
		s := e.eval(arg(0))
		et := s.t.Underlying().(*types.Slice).Elem()
		A := c.Select(e.st.comp(x.g.elemKey(et)+":0", c.ArrS(IntS, c.ArrS(IntS, StrS))), s.l[0])
		return sv(BagS, c.BagE(A, s.l[1], s.l[2]))
	case "sjoin":
		return strv(c.App("sjoin", StrS, e.term(arg(0)), e.term(arg(1))))
	case "visited":
		if e.iter == nil {
			e.fail(ex, "visited() outside a map range")
		}
		return bv(c.Select(e.st.heap[fmt.Sprintf("I:%d:vis", e.iter.id)], e.term(arg(0))))
	case "itermap":
		if e.iter == nil {
			e.fail(ex, "itermap() outside a map range")
		}
		return Value{t: e.iter.mt, l: []*Term{e.iter.ref}}
	case "is":
		v := e.eval(arg(0))
		return bv(x.hasType(v.l[0], typ()))
	case "as":
		v := e.eval(arg(0))
		t := typ()
		if types.IsInterface(t) {
			return Value{t: t, l: v.l}
		}
		return x.unbox(v.l[0], t)
	case "zero":
		return x.zero(typ())
	case "box":
		v := e.eval(arg(0))
		v.t = typ()
		return Value{t: types.NewInterfaceType(nil, nil).Complete(), l: []*Term{x.box(v)}}
	case "boxed":
		v := e.eval(arg(0))
		return Value{t: types.NewInterfaceType(nil, nil).Complete(), l: []*Term{x.box(v)}}
	case "conv":
		v := e.eval(arg(0))
		t := typ()
		return Value{t: t, l: []*Term{x.convTerm(v.l[0], v.t.Underlying().(*types.Basic), t.Underlying().(*types.Basic))}}
	case "feq": // == on floats
		return bv(x.fltEq(e.term(arg(0)), e.term(arg(1))))
	case "index":
		return iv(c.StrIndex(e.term(arg(0)), e.term(arg(1))))
	case "splitlen":
		return iv(c.App("splitlen", IntS, e.term(arg(0)), e.term(arg(1))))
	case "splitat":
		return strv(c.App("splitat", StrS, e.term(arg(0)), e.term(arg(1)), e.term(arg(2))))
	case "splitfrom":
		return strv(c.SplitFrom(e.term(arg(0)), e.term(arg(1)), e.term(arg(2))))
	case "spush":
		v := e.coerce(ex, e.eval(arg(0)), types.NewInterfaceType(nil, nil).Complete())
		return sv(StkS, c.SPush(v.l[0], e.term(arg(1))))
	case "stop":
		return Value{t: types.NewInterfaceType(nil, nil).Complete(), l: []*Term{c.STop(e.term(arg(0)))}}
	case "srest":
		return sv(StkS, c.SRest(e.term(arg(0))))
	case "stk":
		// abstract contents of a collection value
		v := e.coerce(ex, e.eval(arg(0)), types.NewInterfaceType(nil, nil).Complete())
		return sv(StkS, c.Select(e.st.comp("STK", c.ArrS(ValS, StkS)), v.l[0]))
	case "fcall":
		// result of a function value on arguments (deterministic)
		f := e.eval(arg(0))
		sig, ok := f.t.Underlying().(*types.Signature)
		if !ok {
			e.fail(ex, "fcall: not a function")
		}
		var as []*Term
		for i := 1; i < len(ex.args); i++ {
			v := e.coerce(ex, e.eval(ex.args[i]), sig.Params().At(i-1).Type())
			as = append(as, v.l...)
		}
		return x.fcall(f, sig, as)
	case "applied":
		// term-level uninterpreted application by name of an external model: applied("name", T?) unsupported
		e.fail(ex, "applied")
	case "sprint":
		v := e.coerce(ex, e.eval(arg(0)), types.NewInterfaceType(nil, nil).Complete())
		return strv(x.sprint(e.st, v.l[0], "v"))
	case "gosprint":
		v := e.coerce(ex, e.eval(arg(0)), types.NewInterfaceType(nil, nil).Complete())
		return strv(x.sprint(e.st, v.l[0], "#v"))
	case "itoa":
		return strv(c.App("itoa", StrS, e.term(arg(0))))
	case "trim":
		return strv(c.App("ext!strings.TrimSpace!0", StrS, e.term(arg(0))))
	case "ext":
		// result leaf of an external function assumed to be a function of its arguments
		t := typ()
		ls := x.leafSorts(t)
		var as []*Term
		for _, a := range ex.args[2:] {
			as = append(as, e.eval(a).l...)
		}
		r := Value{t: t}
		for i, s := range ls {
			r.l = append(r.l, c.App(fmt.Sprintf("ext!%s!%d", arg(0).s, int(arg(1).k)+i), s, as...))
		}
		return r
	case "inw": // inw(w, e): e in the world w
		w := e.term(arg(0))
		s := e.st.clone()
		s.heap["W"] = w
		return e.with(s).eval(arg(1))
	case "mcall", "wafter":
		m := x.g.ifaceMethod(ex.typ)
		if m == nil {
			e.fail(ex, "no interface method %q", ex.typ)
		}
		n := 0
		if ex.s == "mcall" {
			n = 1
		}
		recv := e.coerce(ex, e.eval(arg(n)), types.NewInterfaceType(nil, nil).Complete())
		var as []*Term
		ps := m.Type().(*types.Signature).Params()
		if len(ex.args) != n+1+ps.Len() {
			e.fail(ex, "%s takes %d arguments", ex.typ, ps.Len())
		}
		for i := 0; i < ps.Len(); i++ {
			as = append(as, e.coerce(ex, e.eval(arg(n+1+i)), ps.At(i).Type()).l...)
		}
		if ex.s == "wafter" {
			return sv(WorldS, x.wafter(x.world(e.st), m, recv.l[0], as))
		}
		return x.mcall(x.worldFor(e.st, m), m, int(arg(0).k), recv.l[0], as)
	case "lines":
		return iv(c.LineCount(e.term(arg(0))))
	case "line":
		return strv(c.Line(e.term(arg(0)), e.term(arg(1))))
	case "scpos":
		return iv(x.ghost(e.st, "scpos", IntS, e.term(arg(0))))
	case "scsrc":
		return strv(x.ghost(e.st, "scsrc", StrS, e.term(arg(0))))
	case "scmax":
		return iv(x.ghost(e.st, "scmax", IntS, e.term(arg(0))))
	case "scerr":
		return bv(x.ghost(e.st, "scerr", BoolS, e.term(arg(0))))
	case "xmlok":
		return bv(c.App("xmlok", BoolS, e.term(arg(0))))
	case "xmlstr":
		return strv(c.App("xmlstr", StrS, e.term(arg(0)), e.term(arg(1))))
	case "xmllen":
		return iv(c.App("xmllen", IntS, e.term(arg(0)), e.term(arg(1))))
	case "xmlelem":
		return strv(c.Select(c.App("xmlarr", c.ArrS(IntS, StrS), e.term(arg(0)), e.term(arg(1))), e.term(arg(2))))
	case "openok", "readok":
		return bv(c.App(ex.s, BoolS, e.term(arg(0))))
	case "filedata":
		return strv(c.App("filedata", StrS, e.term(arg(0))))
	case "unix":
		return iv(c.App("unixOf", IntS, e.term(arg(0))))
	case "dom":
		// the domain of a map as a set
		m := e.eval(arg(0))
		dom, _, _, _ := x.mapComps(e.st, m.t.Underlying().(*types.Map))
		d := c.Select(dom, m.l[0])
		return sv(d.sort, d)
	case "elems":
		s := e.eval(arg(0))
		et := s.t.Underlying().(*types.Slice).Elem()
		ls := x.leafSorts(et)
		d := c.Select(e.st.comp(x.g.elemKey(et)+":0", c.ArrS(IntS, c.ArrS(IntS, ls[0]))), s.l[0])
		return sv(d.sort, d)
	}
	if x.c.bagBody[ex.s] != nil {
		return sv(BagS, c.App("bag!"+ex.s, BagS, e.term(arg(0))))
	}
	if m := x.g.spec.macros[ex.s]; m != nil {
		if len(m.params) != len(ex.args) {
			e.fail(ex, "%s takes %d arguments", ex.s, len(m.params))
		}
		var as []Value
		for _, a := range ex.args {
			as = append(as, e.eval(a))
		}
		return e.macro(ex, m, as)
	}
	if m := x.g.spec.ufuns[ex.s]; m != nil {
		if len(m.params) != len(ex.args) {
			e.fail(ex, "%s takes %d arguments", ex.s, len(m.params))
		}
		var as []*Term
		for i, a := range ex.args {
			v := e.eval(a)
			t, s, err := x.g.specType(m.params[i].typ)
			if err != nil {
				e.fail(ex, "%v", err)
			}
			if t != nil {
				v = e.coerce(ex, v, t)
			} else if v.l[0].sort != s {
				e.fail(ex, "argument %d of %s has sort %s", i, ex.s, v.l[0].sort.name)
			}
			as = append(as, v.l...)
		}
		t, s, err := x.g.specType(m.res)
		if err != nil {
			e.fail(ex, "%v", err)
		}
		if t == nil {
			return sv(s, c.App(m.name, s, as...))
		}
		ls := x.leafSorts(t)
		if len(ls) == 1 {
			return Value{t: t, l: []*Term{c.App(m.name, ls[0], as...)}}
		}
		r := Value{t: t}
		for i, l := range ls {
			r.l = append(r.l, c.App(fmt.Sprintf("%s.%d", m.name, i), l, as...))
		}
		return r
	}
	e.fail(ex, "unknown function %s", ex.s)
	return Value{}
}

// axioms evaluates the specification axioms in the entry state.
func (x *Exec) axioms() []*Term {
	if x.axDone {
		return append(x.axTerms, x.c.ifaceAxioms()...)
	}
	x.axDone = true
	e := &SEnv{x: x, st: x.pre, old: x.pre, ent: x.pre, vars: map[string]Value{}}
	for _, a := range x.g.spec.axioms {
		t := e.boolT(a.e)
		if t.op == OAnd {
			x.axTerms = append(x.axTerms, t.args...)
		} else {
			x.axTerms = append(x.axTerms, t)
		}
	}
	return append(x.axTerms, x.c.ifaceAxioms()...)
}

// ---- candidate instantiation -----------------------------------------------------------------

type metaOpt struct {
	name string
	at   func(m map[*ssa.Phi]Value) Value
}

func (x *Exec) specCands(fr *Frame, L *Loop, phis []*ssa.Phi, entry map[*ssa.Phi]Value, st *State) []*cand {
	var out []*cand
	var tm []*CandTmpl
	for _, u := range x.root.uses {
		tm = append(tm, x.g.spec.candsets[u]...)
	}
	iter := x.curIter
	env := func(s *State) *SEnv {
		e := &SEnv{x: x, st: s, old: x.pre, ent: st, acq: s.acq, vars: x.rootVars(), iter: iter}
		if x.conc && s.acq != nil {
			e.old = s.acq
		}
		return e
	}
	for _, t := range tm {
		if len(t.tags) > 0 {
			on := false
			for _, tg := range t.tags {
				on = on || tg == x.prop
			}
			if !on {
				continue
			}
		}
		opts := make([][]metaOpt, len(t.metas))
		ok := true
		for i, mp := range t.metas {
			opts[i] = x.metaOpts(fr, L, phis, mp.typ)
			if len(opts[i]) == 0 {
				opts[i] = x.heldOpts(fr, L, phis, mp.typ)
			}
			if len(opts[i]) == 0 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		idx := make([]int, len(t.metas))
		for n := 0; n < 64; n++ {
			sel := make([]metaOpt, len(idx))
			name := t.src
			dup := false
			for i, k := range idx {
				sel[i] = opts[i][k]
				name += " [" + t.metas[i].name + ":=" + sel[i].name + "]"
				for j := 0; j < i; j++ {
					if sel[j].name == sel[i].name && t.metas[j].typ == t.metas[i].typ {
						dup = true
					}
				}
			}
			if !dup {
				t := t
				raw := func(m map[*ssa.Phi]Value, s *State) *Term {
					e := env(s)
					for i := range sel {
						e.vars[t.metas[i].name] = sel[i].at(m)
					}
					return e.boolT(t.e)
				}
				at := func(m map[*ssa.Phi]Value, s *State) (r *Term) {
					// a template that cannot be read in this state says nothing about it
					if !x.tryCand(func() { r = raw(m, s) }) {
						return x.c.T
					}
					return r
				}
				if x.tryCand(func() { raw(entry, st) }) {
					out = append(out, &cand{name: name, at: at, grp: t.grp})
					x.addGroup(t.grp, t.deps)
				}
			}
			// next combination
			i := 0
			for ; i < len(idx); i++ {
				idx[i]++
				if idx[i] < len(opts[i]) {
					break
				}
				idx[i] = 0
			}
			if i == len(idx) {
				break
			}
		}
	}
	return out
}

func (x *Exec) tryCand(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if e, is := r.(specErr); is {
				if os.Getenv("GOVER_LOOPS") == "2" {
					fmt.Fprintf(os.Stderr, "      no instance: %s\n", e.msg)
				}
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

// heldOpts: where no variable of the list type has an address, the lists themselves stand in for it.
func (x *Exec) heldOpts(fr *Frame, L *Loop, phis []*ssa.Phi, typ string) []metaOpt {
	mode, elem, ok := strings.Cut(typ, " *")
	if !ok || mode != "far" && mode != "near" {
		return nil
	}
	t, _, err := x.g.specType(elem)
	if err != nil || t == nil {
		return nil
	}
	if _, ok := t.Underlying().(*types.Slice); !ok {
		return nil
	}
	var out []metaOpt
	if (L.parent == nil) == (mode == "far") {
		out = x.metaOpts(fr, L, phis, "phi "+elem)
	}
	return append(out, x.metaOpts(fr, L, phis, mode+" "+elem)...)
}

func (x *Exec) metaOpts(fr *Frame, L *Loop, phis []*ssa.Phi, typ string) []metaOpt {
	var out []metaOpt
	// const: computed before the loop (far: before all loops around it, near: not so); phi: carried by the
	// loop; at, outer: the position of the loop, of a loop around it; has, no: there is, is not a value of the
	// type; top: the loop is not inside another
	mode := ""
	for _, m := range []string{"const", "far", "near", "phi", "at", "outer", "has", "no", "top"} {
		if strings.HasPrefix(typ, m+" ") {
			mode, typ = m, typ[len(m)+1:]
		}
	}
	domOnly := mode == "const" || mode == "far" || mode == "near" || mode == "has" || mode == "no"
	some := metaOpt{"", func(map[*ssa.Phi]Value) Value { return iv(x.c.Int(0)) }}
	var around *Loop
	for O := L.parent; O != nil; O = O.parent {
		around = O
	}
	t, _, err := x.g.specType(typ)
	if err != nil || t == nil {
		panic(specErr{fmt.Sprintf("candidate metavariable type %q: %v", typ, err)})
	}
	isInt := types.Identical(t, types.Typ[types.Int])
	switch mode {
	case "top":
		if around == nil {
			return []metaOpt{some}
		}
		return nil
	case "phi", "at":
		ranged := false
		for _, p := range phis {
			ranged = ranged || fromMinusOne(p)
		}
		for _, p := range phis {
			p := p
			if isInt && ranged && fromMinusOne(p) != (mode == "at") {
				continue
			}
			if !types.Identical(p.Type().Underlying(), t.Underlying()) {
				continue
			}
			if mode == "at" && fromMinusOne(p) {
				out = append(out, metaOpt{phiName(p) + "+1", func(m map[*ssa.Phi]Value) Value {
					return iv(x.c.Add(m[p].l[0], x.c.Int(1)))
				}})
				continue
			}
			out = append(out, metaOpt{phiName(p), func(m map[*ssa.Phi]Value) Value { v := m[p]; v.t = t; return v }})
		}
		return out
	case "outer":
		for _, b := range fr.fn.Blocks {
			O := fr.li.byHead[b]
			if O == nil || O == L || !O.blocks[L.head] {
				continue
			}
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				v, have := fr.env[p]
				if !have || !types.Identical(p.Type().Underlying(), t.Underlying()) || len(v.l) == 0 {
					continue
				}
				v.t = t
				n := phiName(p)
				if isInt && fromMinusOne(p) {
					v = iv(x.c.Add(v.l[0], x.c.Int(1)))
					n += "+1"
				}
				out = append(out, metaOpt{n, func(m map[*ssa.Phi]Value) Value { return v }})
			}
		}
		return out
	}
	if !domOnly {
		for _, p := range phis {
			p := p
			if !types.Identical(p.Type(), t) && !(types.Identical(p.Type().Underlying(), t.Underlying()) && !isInt) {
				continue
			}
			out = append(out, metaOpt{phiName(p), func(m map[*ssa.Phi]Value) Value { v := m[p]; v.t = t; return v }})
			if isInt {
				out = append(out, metaOpt{phiName(p) + "+1", func(m map[*ssa.Phi]Value) Value {
					return iv(x.c.Add(m[p].l[0], x.c.Int(1)))
				}})
			}
		}
	}
	if isInt && !domOnly {
		return out
	}
	// values computed before the loop
	var vs []ssa.Value
	for v := range fr.env {
		if !types.Identical(v.Type(), t) && !types.Identical(v.Type().Underlying(), t.Underlying()) {
			continue
		}
		if in, ok := v.(ssa.Instruction); ok {
			if L.blocks[in.Block()] || !in.Block().Dominates(L.head) {
				continue
			}
			if out := around == nil || !around.blocks[in.Block()]; mode == "far" && !out || mode == "near" && out {
				continue
			}
		}
		vs = append(vs, v)
	}
	switch {
	case mode == "has" && len(vs) > 0 || mode == "no" && len(vs) == 0:
		return []metaOpt{some}
	case mode == "has" || mode == "no":
		return nil
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	seen := map[string]bool{}
	for _, v := range vs {
		val := fr.env[v]
		if val.addr != nil && len(val.l) == 0 || val.iter != nil || len(val.l) == 0 {
			continue
		}
		key := ""
		for _, l := range val.l {
			key += fmt.Sprint(l.id, ",")
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		val.t = t
		out = append(out, metaOpt{v.Name(), func(m map[*ssa.Phi]Value) Value { return val }})
		if len(out) >= 8 {
			break
		}
	}
	return out
}

// fromMinusOne: the index of a range loop, one behind the element at hand.
func fromMinusOne(p *ssa.Phi) bool {
	for _, e := range p.Edges {
		if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "-1" {
			return true
		}
	}
	return false
}

func (x *Exec) rootVars() map[string]Value {
	m := map[string]Value{}
	for i, n := range x.root.params {
		m[n] = x.params[i]
	}
	for k, v := range x.letVals {
		m[k] = v
	}
	return m
}

// changedComps names the components that differ between two states.
func changedComps(a, b *State) string {
	var out []string
	for n, t := range a.heap {
		if b.heap[n] != t {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}
