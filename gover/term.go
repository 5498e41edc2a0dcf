package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Terms of the many-sorted logic the obligations are written in.  Terms are hash-consed per context
// and simplified on construction; every simplification is an equivalence of first-order logic with
// linear integer arithmetic, arrays and free datatypes.

type Sort struct {
	name     string
	dom, rng *Sort
}

var (
	sortTab = map[string]*Sort{}
	IntS    = mkSort("Int")
	BoolS   = mkSort("Bool")
	StrS    = mkSort("Str")
	FltS    = mkSort("Flt")
	ValS    = mkSort("Val")
	OpqS    = mkSort("Opq")
	WorldS  = mkSort("World")
	StkS    = mkSort("Stk")
	BagS    = mkSort("Bag")
)

func mkSort(n string) *Sort {
	if s := sortTab[n]; s != nil {
		return s
	}
	s := &Sort{name: n}
	sortTab[n] = s
	return s
}

func (c *Ctx) ArrS(d, r *Sort) *Sort {
	n := "(Array " + d.name + " " + r.name + ")"
	if s := c.sorts[n]; s != nil {
		return s
	}
	s := &Sort{name: n, dom: d, rng: r}
	c.sorts[n] = s
	return s
}

type Op int

const (
	OVar Op = iota
	OInt
	OStr
	OTrue
	OFalse
	OApp
	ONot
	OAnd
	OOr
	OEq
	OGe0
	OLin
	OMul
	ODiv
	OMod
	OIte
	OSelect
	OStore
	OForall
	OTrig // body of a quantifier with the terms that trigger it
	OExists
	OConstArr
	OCtor
	OSel
	OTest
)

type Term struct {
	id    int
	op    Op
	name  string
	args  []*Term
	coef  []int64
	k     int64
	sort  *Sort
	bound []*Term
	fv    []*Term // free bound variables, sorted by id
	isB   bool    // a bound variable
	old   bool    // variable known to denote a reference that existed at function entry
	init  bool    // initial heap component
	defd  bool    // an array introduced by a defining axiom
	base  bool    // allocation counter base
}

type Ctx struct {
	sorts map[string]*Sort
	tab   map[string]*Term
	n     int
	fresh map[string]int
	vars  map[string]*Term
	lits  map[string]*Term
	T, F  *Term
	// function symbols: name -> arg sorts, result sort
	funs map[string]*FunDecl
	// datatype Val constructors in use
	ctors      map[string]*CtorDecl
	substC     map[string]*Term
	G          *Global
	ifs        map[string]*types.Interface
	unfoldRec  func(t *Term) []*Term
	unfoldRec2 func(t *Term) *Term          // the right hand side
	bagBody    map[string]func(*Term) *Term // text of one key, for bags of entries
	unfoldMax  map[string]int               // rounds of unfolding for some functions
	comps      map[*Term]compWF             // heap component variables and what their references are bounded by
	ptrCtors   func() []string
	// function identities get their numbers here
	fnids map[string]int64
}

type FunDecl struct {
	name string
	args []*Sort
	res  *Sort
}

type CtorDecl struct {
	name   string
	fields []*Sort
}

func NewCtx(g *Global) *Ctx {
	c := &Ctx{G: g, sorts: map[string]*Sort{}, tab: map[string]*Term{}, fresh: map[string]int{}, vars: map[string]*Term{}, lits: map[string]*Term{},
		funs: map[string]*FunDecl{}, ctors: map[string]*CtorDecl{}, fnids: map[string]int64{}, comps: map[*Term]compWF{}}
	c.T = c.mk(&Term{op: OTrue, sort: BoolS})
	c.F = c.mk(&Term{op: OFalse, sort: BoolS})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(t.op)))
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(t.sort.name)
	for i, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
		if t.coef != nil {
			sb.WriteByte('*')
			sb.WriteString(strconv.FormatInt(t.coef[i], 10))
		}
	}
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(t.k, 10))
	for _, b := range t.bound {
		sb.WriteByte(';')
		sb.WriteString(strconv.Itoa(b.id))
	}
	key := sb.String()
	if o := c.tab[key]; o != nil {
		return o
	}
	c.n++
	t.id = c.n
	if t.isB {
		t.fv = []*Term{t}
	} else {
		var fv []*Term
		for _, a := range t.args {
			fv = mergeFV(fv, a.fv)
		}
		if len(t.bound) > 0 {
			var r []*Term
			for _, v := range fv {
				b := false
				for _, w := range t.bound {
					if w == v {
						b = true
					}
				}
				if !b {
					r = append(r, v)
				}
			}
			fv = r
		}
		t.fv = fv
	}
	c.tab[key] = t
	return t
}

func mergeFV(a, b []*Term) []*Term {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	m := map[*Term]bool{}
	r := append([]*Term{}, a...)
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		if !m[x] {
			r = append(r, x)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (c *Ctx) Var(name string, s *Sort) *Term {
	t := c.mk(&Term{op: OVar, name: name, sort: s})
	return t
}

func (c *Ctx) Fresh(hint string, s *Sort) *Term {
	c.fresh[hint]++
	return c.Var(fmt.Sprintf("%s!%d", hint, c.fresh[hint]), s)
}

func (c *Ctx) BVar(name string, s *Sort) *Term {
	t := &Term{op: OVar, name: name + "?" + sortTag(s), sort: s, isB: true}
	return c.mk(t)
}

func sortTag(s *Sort) string {
	return strings.NewReplacer("(", "", ")", "", " ", "_").Replace(s.name)
}

func (c *Ctx) Int(k int64) *Term { return c.mk(&Term{op: OInt, k: k, sort: IntS}) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *Ctx) Str(s string) *Term { return c.mk(&Term{op: OStr, name: s, sort: StrS}) }

func (c *Ctx) App(name string, res *Sort, args ...*Term) *Term {
	if d := c.funs[name]; d == nil {
		d = &FunDecl{name: name, res: res}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		c.funs[name] = d
	} else {
		if d.res != res || len(d.args) != len(args) {
			panic(bug("function %s used with different signatures", name))
		}
		for i, a := range args {
			if a.sort != d.args[i] {
				panic(bug("function %s argument %d has sort %s, want %s", name, i, a.sort.name, d.args[i].name))
			}
		}
	}
	if len(args) == 0 {
		return c.Var(name, res)
	}
	return c.mk(&Term{op: OApp, name: name, sort: res, args: args})
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.F
	case OFalse:
		return c.T
	case ONot:
		return a.args[0]
	case OGe0: // not (e >= 0)  <=>  -e-1 >= 0
		return c.ge0(c.Sub(c.Neg(a.args[0]), c.Int(1)))
	}
	return c.mk(&Term{op: ONot, args: []*Term{a}, sort: BoolS})
}

func (c *Ctx) And(as ...*Term) *Term { return c.nary(OAnd, as) }
func (c *Ctx) Or(as ...*Term) *Term  { return c.nary(OOr, as) }
func (c *Ctx) nary(op Op, as []*Term) *Term {
	unit, zero := c.T, c.F
	if op == OOr {
		unit, zero = c.F, c.T
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit || seen[a] {
			return true
		}
		if a == zero {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: op, args: out, sort: BoolS})
}
func (c *Ctx) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }
func (c *Ctx) Iff(a, b *Term) *Term { return c.Eq(a, b) }

// linear arithmetic ------------------------------------------------------------

type linf struct {
	m map[*Term]int64
	k int64
}

func (c *Ctx) lin(t *Term, f int64, l *linf) {
	switch t.op {
	case OInt:
		l.k += f * t.k
	case OLin:
		for i, a := range t.args {
			l.m[a] += f * t.coef[i]
		}
		l.k += f * t.k
	default:
		l.m[t] += f
	}
}
func (c *Ctx) unlin(l *linf) *Term {
	var as []*Term
	for a, f := range l.m {
		if f != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return c.Int(l.k)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.m[as[0]] == 1 && l.k == 0 {
		return as[0]
	}
	var cf []int64
	for _, a := range as {
		cf = append(cf, l.m[a])
	}
	return c.mk(&Term{op: OLin, args: as, coef: cf, k: l.k, sort: IntS})
}
func (c *Ctx) Add(as ...*Term) *Term {
	l := &linf{m: map[*Term]int64{}}
	for _, a := range as {
		c.lin(a, 1, l)
	}
	return c.unlin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := &linf{m: map[*Term]int64{}}
	c.lin(a, 1, l)
	c.lin(b, -1, l)
	return c.unlin(l)
}
func (c *Ctx) Neg(a *Term) *Term {
	l := &linf{m: map[*Term]int64{}}
	c.lin(a, -1, l)
	return c.unlin(l)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OInt {
		l := &linf{m: map[*Term]int64{}}
		c.lin(b, a.k, l)
		return c.unlin(l)
	}
	if b.op == OInt {
		return c.Mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OMul, args: []*Term{a, b}, sort: IntS})
}

// Go's integer division truncates towards zero; SMT's floors for positive divisors.
func (c *Ctx) Div(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && b.k != 0 {
		return c.Int(a.k / b.k)
	}
	return c.mk(&Term{op: ODiv, args: []*Term{a, b}, sort: IntS})
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && b.k != 0 {
		return c.Int(a.k % b.k)
	}
	return c.mk(&Term{op: OMod, args: []*Term{a, b}, sort: IntS})
}
func (c *Ctx) ge0(e *Term) *Term {
	if e.op == OInt {
		return c.Bool(e.k >= 0)
	}
	if e.op == OLin && len(e.args) == 1 {
		// normalise  f*x + k >= 0
		f := e.coef[0]
		if f != 1 && f != -1 {
			af := f
			if af < 0 {
				af = -af
			}
			// floor(k/af)
			q := e.k / af
			if e.k%af != 0 && e.k < 0 {
				q--
			}
			l := &linf{m: map[*Term]int64{e.args[0]: f / af}, k: q}
			e = c.unlin(l)
		}
	}
	return c.mk(&Term{op: OGe0, args: []*Term{e}, sort: BoolS})
}
func (c *Ctx) Le(a, b *Term) *Term { return c.ge0(c.Sub(b, a)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.ge0(c.Sub(c.Sub(b, a), c.Int(1))) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

// syntactic disequality --------------------------------------------------------

// freshRef reports whether t is base+k with k >= 0 for an allocation counter base.
func freshRef(t *Term) *Term {
	if t.base {
		return t
	}
	if t.op == OLin && len(t.args) == 1 && t.coef[0] == 1 && t.args[0].base && t.k >= 0 {
		return t.args[0]
	}
	return nil
}

// oldRef: the value certainly existed (or is nil) when the function was entered.
func oldRef(t *Term) bool {
	switch t.op {
	case OInt:
		return t.k == 0
	case OVar:
		return t.old || t.init
	case OSelect:
		return rootInit(t.args[0])
	case OSel:
		return oldRef(t.args[0])
	case OIte:
		return oldRef(t.args[1]) && oldRef(t.args[2])
	}
	return false
}
func rootInit(t *Term) bool {
	switch t.op {
	case OVar:
		return t.init
	case OSelect:
		return rootInit(t.args[0])
	}
	return false
}

func (c *Ctx) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	switch a.sort {
	case IntS:
		d := c.Sub(a, b)
		if d.op == OInt {
			return d.k != 0
		}
		fa, fb := freshRef(a), freshRef(b)
		if fa != nil && fb != nil && fa != fb {
			return true
		}
		if fa != nil && oldRef(b) || fb != nil && oldRef(a) {
			return true
		}
	case StrS:
		return a.op == OStr && b.op == OStr
	case BoolS:
		return a == c.T && b == c.F || a == c.F && b == c.T || a == c.Not(b)
	case ValS:
		if a.op == OCtor && b.op == OCtor {
			if a.name != b.name {
				return true
			}
			for i := range a.args {
				if c.distinct(a.args[i], b.args[i]) {
					return true
				}
			}
		}
	case StkS:
		return false
	}
	return false
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(bug("equality between %s and %s: %s = %s", a.sort.name, b.sort.name, c.show(a), c.show(b)))
	}
	if a == b {
		return c.T
	}
	if c.distinct(a, b) {
		return c.F
	}
	if a.sort == BoolS {
		if a == c.T {
			return b
		}
		if b == c.T {
			return a
		}
		if a == c.F {
			return c.Not(b)
		}
		if b == c.F {
			return c.Not(a)
		}
	}
	if a.op == OCtor && b.op == OCtor && a.name == b.name {
		var es []*Term
		for i := range a.args {
			es = append(es, c.Eq(a.args[i], b.args[i]))
		}
		return c.And(es...)
	}
	if a.op == OCtor && len(a.args) == 0 {
		return c.Test(a.name, b)
	}
	if b.op == OCtor && len(b.args) == 0 {
		return c.Test(b.name, a)
	}
	if a.op == OIte && (b.op == OCtor || b.op == OInt || b.op == OStr) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if b.op == OIte && (a.op == OCtor || a.op == OInt || a.op == OStr) {
		return c.Eq(b, a)
	}
	if a.sort == IntS {
		// cancel common parts: compare  (a-b positive part) with (negative part)
		d := c.Sub(a, b)
		if d.op == OLin {
			l1 := &linf{m: map[*Term]int64{}}
			l2 := &linf{m: map[*Term]int64{}}
			for i, x := range d.args {
				if d.coef[i] > 0 {
					l1.m[x] = d.coef[i]
				} else {
					l2.m[x] = -d.coef[i]
				}
			}
			if len(l1.m) == 0 {
				l1.k = d.k
			} else {
				l2.k = -d.k
			}
			a, b = c.unlin(l1), c.unlin(l2)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, args: []*Term{a, b}, sort: BoolS})
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond == c.T {
		return a
	}
	if cond == c.F {
		return b
	}
	if a == b {
		return a
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.sort == BoolS {
		if a == c.T && b == c.F {
			return cond
		}
		if a == c.F && b == c.T {
			return c.Not(cond)
		}
		if a == c.T {
			return c.Or(cond, b)
		}
		if b == c.F {
			return c.And(cond, a)
		}
		if a == c.F {
			return c.And(c.Not(cond), b)
		}
		if b == c.T {
			return c.Or(c.Not(cond), a)
		}
	}
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(&Term{op: OIte, args: []*Term{cond, a, b}, sort: a.sort})
}

func (c *Ctx) Select(a, i *Term) *Term {
	if a.sort.dom == nil {
		panic(bug("select on sort %s", a.sort.name))
	}
	if a.sort.dom != i.sort {
		panic(bug("select index sort %s, want %s", i.sort.name, a.sort.dom.name))
	}
	for a.op == OStore {
		if a.args[1] == i {
			return a.args[2]
		}
		if c.distinct(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == OConstArr {
		return a.args[0]
	}
	if a.op == OIte {
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	}
	if a.op == OApp && a.name == "splitarr" {
		return c.App("splitat", StrS, a.args[0], a.args[1], i)
	}
	return c.mk(&Term{op: OSelect, args: []*Term{a, i}, sort: a.sort.rng})
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.sort.dom != i.sort || a.sort.rng != v.sort {
		panic(bug("store sorts: %s [%s] := %s", a.sort.name, i.sort.name, v.sort.name))
	}
	if a.op == OStore && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk(&Term{op: OStore, args: []*Term{a, i, v}, sort: a.sort})
}

func (c *Ctx) ConstArr(s *Sort, v *Term) *Term {
	return c.mk(&Term{op: OConstArr, args: []*Term{v}, sort: s})
}

// datatype Val -------------------------------------------------------------------

func (c *Ctx) declCtor(name string, fields []*Sort) {
	if c.ctors[name] == nil {
		c.ctors[name] = &CtorDecl{name, fields}
	}
}
func (c *Ctx) Ctor(name string, args ...*Term) *Term {
	var fs []*Sort
	for _, a := range args {
		fs = append(fs, a.sort)
	}
	c.declCtor(name, fs)
	if len(args) > 0 {
		// eta: K(sel0 v, sel1 v, ..) is left alone (v need not be K)
	}
	return c.mk(&Term{op: OCtor, name: name, args: args, sort: ValS})
}
func (c *Ctx) Nil() *Term { return c.Ctor("vnil") }
func (c *Ctx) Test(name string, v *Term) *Term {
	if v.op == OCtor {
		return c.Bool(v.name == name)
	}
	if v.op == OIte {
		return c.Ite(v.args[0], c.Test(name, v.args[1]), c.Test(name, v.args[2]))
	}
	return c.mk(&Term{op: OTest, name: name, args: []*Term{v}, sort: BoolS})
}
func (c *Ctx) Sel(ctor string, i int, s *Sort, v *Term) *Term {
	if v.op == OCtor && v.name == ctor {
		return v.args[i]
	}
	if v.op == OIte {
		return c.Ite(v.args[0], c.Sel(ctor, i, s, v.args[1]), c.Sel(ctor, i, s, v.args[2]))
	}
	return c.mk(&Term{op: OSel, name: ctor, k: int64(i), args: []*Term{v}, sort: s})
}

// quantifiers --------------------------------------------------------------------

func (c *Ctx) Forall(vs []*Term, body *Term) *Term { return c.quant(OForall, vs, body) }
func (c *Ctx) Exists(vs []*Term, body *Term) *Term { return c.quant(OExists, vs, body) }
func (c *Ctx) quant(op Op, vs []*Term, body *Term) *Term {
	var used []*Term
	for _, v := range vs {
		for _, f := range body.fv {
			if f == v {
				used = append(used, v)
				break
			}
		}
	}
	if len(used) == 0 {
		return body
	}
	if body.op == op {
		used = append(append([]*Term{}, used...), body.bound...)
		body = body.args[0]
	}
	if op == OForall && body.op == OAnd {
		var r []*Term
		for _, b := range body.args {
			r = append(r, c.quant(op, used, b))
		}
		return c.And(r...)
	}
	return c.mk(&Term{op: op, args: []*Term{body}, bound: used, sort: BoolS})
}

// Trig attaches triggers to the body of a quantifier; without bound variables there is nothing to trigger.
func (c *Ctx) Trig(body *Term, pats []*Term) *Term {
	n := 0
	for _, p := range pats {
		n += len(p.fv)
	}
	if n == 0 || len(body.fv) == 0 {
		return body
	}
	return c.mk(&Term{op: OTrig, args: append([]*Term{body}, pats...), sort: BoolS})
}

// ForallIf: the quantified fact f under a condition.
func (c *Ctx) ForallIf(g, f *Term) *Term {
	b := f.args[0]
	if b.op == OTrig {
		return c.Forall(f.bound, c.Trig(c.Imp(g, b.args[0]), b.args[1:]))
	}
	return c.Forall(f.bound, c.Imp(g, b))
}

// Subst replaces variables (bound or free) by terms.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case ONot:
		return c.Not(as[0])
	case OAnd:
		return c.And(as...)
	case OOr:
		return c.Or(as...)
	case OEq:
		return c.Eq(as[0], as[1])
	case OGe0:
		return c.ge0(as[0])
	case OLin:
		l := &linf{m: map[*Term]int64{}, k: t.k}
		for i, a := range as {
			c.lin(a, t.coef[i], l)
		}
		return c.unlin(l)
	case OMul:
		return c.Mul(as[0], as[1])
	case ODiv:
		return c.Div(as[0], as[1])
	case OMod:
		return c.Mod(as[0], as[1])
	case OIte:
		return c.Ite(as[0], as[1], as[2])
	case OSelect:
		return c.Select(as[0], as[1])
	case OStore:
		return c.Store(as[0], as[1], as[2])
	case OConstArr:
		return c.ConstArr(t.sort, as[0])
	case OCtor:
		return c.Ctor(t.name, as...)
	case OSel:
		return c.Sel(t.name, int(t.k), t.sort, as[0])
	case OTest:
		return c.Test(t.name, as[0])
	case OForall, OExists:
		return c.quant(t.op, t.bound, as[0])
	case OTrig:
		return c.Trig(as[0], as[1:])
	case OApp:
		if f := c.G.appSimp[t.name]; f != nil {
			return f(c, as)
		}
		return c.App(t.name, t.sort, as...)
	}
	panic(bug("rebuild"))
}

func bug(f string, a ...any) error { return fmt.Errorf("gover: "+f, a...) }

// printing -------------------------------------------------------------------------

func smtName(s string) string {
	ok := true
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_!.$%&*+-/<=>?@^~", r)) {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(s) + "|"
}

func smtInt(k int64) string {
	if k < 0 {
		b := new(big.Int).Neg(big.NewInt(k))
		return "(- " + b.String() + ")"
	}
	return strconv.FormatInt(k, 10)
}

// Printer prints a set of terms as SMT-LIB with sharing of closed subterms.
type Printer struct {
	c     *Ctx
	refs  map[*Term]int
	names map[*Term]string
	defs  []string
	vars  map[*Term]bool
	vord  []*Term
	funs  map[string]bool
	sorts map[string]bool
	ctors map[string]bool
	lits  []*Term
	litm  map[*Term]bool
	stk   bool
}

func NewPrinter(c *Ctx) *Printer {
	return &Printer{c: c, refs: map[*Term]int{}, names: map[*Term]string{}, vars: map[*Term]bool{}, funs: map[string]bool{}, sorts: map[string]bool{}, ctors: map[string]bool{}, litm: map[*Term]bool{}}
}

func (p *Printer) noteSort(s *Sort) {
	if s.dom != nil {
		p.noteSort(s.dom)
		p.noteSort(s.rng)
		return
	}
	p.sorts[s.name] = true
}

func (p *Printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	p.noteSort(t.sort)
	switch t.op {
	case OVar:
		if !t.isB && !p.vars[t] {
			p.vars[t] = true
			p.vord = append(p.vord, t)
		}
	case OStr:
		if !p.litm[t] {
			p.litm[t] = true
			p.lits = append(p.lits, t)
		}
	case OApp:
		p.funs[t.name] = true
	case OCtor, OSel, OTest:
		p.ctors[t.name] = true
	}
	for _, b := range t.bound {
		p.noteSort(b.sort)
	}
	for _, a := range t.args {
		p.count(a)
	}
}

func litName(s string) string {
	var sb strings.Builder
	sb.WriteString("lit!")
	for _, b := range []byte(s) {
		if b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' {
			sb.WriteByte(b)
		} else {
			fmt.Fprintf(&sb, "_%02x", b)
		}
	}
	return sb.String()
}

func (p *Printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.raw(t)
	if (t.op == OIte || t.op == ODiv || t.op == OMod) && t.sort != BoolS && len(t.fv) == 0 {
		// a constant of its own: ite may not occur in triggers
		n := fmt.Sprintf("t!%d", t.id)
		p.defs = append(p.defs, fmt.Sprintf("(declare-fun %s () %s)\n(assert (= %s %s))", n, t.sort.name, n, s))
		p.names[t] = n
		return n
	}
	if p.refs[t] > 1 && len(t.args) > 0 && len(t.fv) == 0 && len(s) > 24 {
		n := fmt.Sprintf("t!%d", t.id)
		p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, t.sort.name, s))
		p.names[t] = n
		return n
	}
	if len(t.fv) == 0 {
		p.names[t] = s
	}
	return s
}

func (p *Printer) list(op string, as []*Term) string {
	var sb strings.Builder
	sb.WriteString("(" + op)
	for _, a := range as {
		sb.WriteByte(' ')
		sb.WriteString(p.str(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func (p *Printer) raw(t *Term) string {
	switch t.op {
	case OVar:
		return smtName(t.name)
	case OInt:
		return smtInt(t.k)
	case OStr:
		return litName(t.name)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OApp:
		return p.list(smtName(t.name), t.args)
	case ONot:
		return p.list("not", t.args)
	case OAnd:
		return p.list("and", t.args)
	case OOr:
		return p.list("or", t.args)
	case OEq:
		return p.list("=", t.args)
	case OGe0:
		e := t.args[0]
		if e.op == OLin {
			// positive side >= negative side
			var pos, neg []string
			for i, a := range e.args {
				f := e.coef[i]
				s := p.str(a)
				g := f
				if g < 0 {
					g = -g
				}
				if g != 1 {
					s = fmt.Sprintf("(* %d %s)", g, s)
				}
				if f > 0 {
					pos = append(pos, s)
				} else {
					neg = append(neg, s)
				}
			}
			if e.k > 0 {
				pos = append(pos, smtInt(e.k))
			}
			if e.k < 0 {
				neg = append(neg, smtInt(-e.k))
			}
			return "(<= " + sum(neg) + " " + sum(pos) + ")"
		}
		return "(<= 0 " + p.str(e) + ")"
	case OLin:
		var xs []string
		for i, a := range t.args {
			s := p.str(a)
			if t.coef[i] == -1 {
				s = "(- " + s + ")"
			} else if t.coef[i] != 1 {
				s = "(* " + smtInt(t.coef[i]) + " " + s + ")"
			}
			xs = append(xs, s)
		}
		if t.k != 0 {
			xs = append(xs, smtInt(t.k))
		}
		return sum(xs)
	case OMul:
		return p.list("mul", t.args)
	case ODiv:
		// truncated division expressed by Euclidean division for a positive constant divisor
		a, b := p.str(t.args[0]), p.str(t.args[1])
		return fmt.Sprintf("(ite (<= 0 %s) (div %s %s) (- (div (- %s) %s)))", a, a, b, a, b)
	case OMod:
		a, b := p.str(t.args[0]), p.str(t.args[1])
		return fmt.Sprintf("(ite (<= 0 %s) (mod %s %s) (- (mod (- %s) %s)))", a, a, b, a, b)
	case OIte:
		return p.list("ite", t.args)
	case OSelect:
		return p.list("select", t.args)
	case OStore:
		return p.list("store", t.args)
	case OConstArr:
		return "((as const " + t.sort.name + ") " + p.str(t.args[0]) + ")"
	case OCtor:
		if len(t.args) == 0 {
			return smtName(t.name)
		}
		return p.list(smtName(t.name), t.args)
	case OSel:
		return p.list(smtName(fmt.Sprintf("%s.%d", t.name, t.k)), t.args)
	case OTest:
		return "((_ is " + smtName(t.name) + ") " + p.str(t.args[0]) + ")"
	case OTrig:
		return p.str(t.args[0])
	case OForall, OExists:
		var sb strings.Builder
		if t.op == OForall {
			sb.WriteString("(forall (")
		} else {
			sb.WriteString("(exists (")
		}
		for _, b := range t.bound {
			fmt.Fprintf(&sb, "(%s %s)", smtName(b.name), b.sort.name)
		}
		sb.WriteString(") ")
		pats := p.c.patterns(t)
		body := p.str(t.args[0])
		if len(pats) > 0 {
			sb.WriteString("(! " + body)
			for _, ps := range pats {
				sb.WriteString(" :pattern (")
				for i, x := range ps {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(p.str(x))
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		} else {
			sb.WriteString(body)
		}
		sb.WriteString(")")
		return sb.String()
	}
	panic(bug("print op %d", t.op))
}

func sum(xs []string) string {
	if len(xs) == 0 {
		return "0"
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return "(+ " + strings.Join(xs, " ") + ")"
}

// show prints a term for humans (debugging and failure reports).
func (c *Ctx) show(t *Term) string {
	p := NewPrinter(c)
	return p.raw2(t, 0)
}
func (p *Printer) raw2(t *Term, d int) string {
	if d > 12 {
		return "..."
	}
	q := NewPrinter(p.c)
	s := q.raw(t)
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

// cleanPat: usable inside a trigger, no logical or arithmetic operators over bound variables.
func cleanPat(t *Term) bool {
	if len(t.fv) == 0 {
		return true
	}
	switch t.op {
	case OVar:
		return true
	case OSelect, OApp, OCtor, OSel:
		for _, a := range t.args {
			if !cleanPat(a) {
				return false
			}
		}
		return true
	}
	return false
}

// patterns chooses E-matching triggers: function or select terms whose arguments carry the bound
// variables directly.
func (c *Ctx) patterns(q *Term) [][]*Term {
	if b := q.args[0]; b.op == OTrig {
		ok := true
		for _, t := range b.args[1:] {
			ok = ok && (t.op == OSelect || t.op == OApp) && cleanPat(t)
		}
		if ok {
			return [][]*Term{b.args[1:]}
		}
	}
	bs := map[*Term]bool{}
	for _, b := range q.bound {
		bs[b] = true
	}
	outer := map[*Term]bool{}
	for _, v := range q.fv {
		outer[v] = true
	}
	type cand struct {
		t    *Term
		vars map[*Term]bool
		sz   int
	}
	var cands []cand
	seen := map[*Term]bool{}
	size := func(t *Term) int { return termSize(t, 0) }
	var walk func(t *Term)
	walk = func(t *Term) {
		if len(t.fv) == 0 || seen[t] {
			return
		}
		seen[t] = true
		if (t.op == OSelect || t.op == OApp) && cleanPat(t) {
			vs := map[*Term]bool{}
			foreign := false
			for _, v := range t.fv {
				if bs[v] {
					vs[v] = true
				} else if !outer[v] {
					foreign = true // bound by an inner quantifier
				}
			}
			if len(vs) > 0 && !foreign {
				cands = append(cands, cand{t, vs, size(t)})
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(q.args[0])
	if strings.HasPrefix(q.bound[0].name, "qd") {
		// a definition: triggered by the defined array only
		var cs []cand
		for _, x := range cands {
			if len(x.t.args) > 0 && x.t.args[0].defd {
				cs = append(cs, x)
			}
		}
		cands = cs
	}
	if len(cands) == 0 {
		return nil
	}
	sort.SliceStable(cands, func(i, j int) bool { return cands[i].sz < cands[j].sz })
	// single-term triggers covering all variables
	var out [][]*Term
	var full []cand
	for _, x := range cands {
		if len(x.vars) == len(q.bound) {
			// skip if it contains an already chosen trigger as a subterm
			sub := false
			for _, f := range full {
				if contains(x.t, f.t) {
					sub = true
				}
			}
			if !sub {
				full = append(full, x)
			}
		}
	}
	for _, x := range full {
		if len(out) < 4 {
			out = append(out, []*Term{x.t})
		}
	}
	if len(out) > 0 {
		return out
	}
	// one multi-trigger per greedy cover
	cov := map[*Term]bool{}
	var mt []*Term
	for _, x := range cands {
		add := false
		for v := range x.vars {
			if !cov[v] {
				add = true
			}
		}
		if add {
			mt = append(mt, x.t)
			for v := range x.vars {
				cov[v] = true
			}
		}
	}
	if len(cov) == len(q.bound) {
		return [][]*Term{mt}
	}
	return nil
}

func termSize(t *Term, d int) int {
	if d > 30 {
		return 1
	}
	n := 1
	for _, a := range t.args {
		n += termSize(a, d+1)
		if n > 10000 {
			return n
		}
	}
	return n
}

func contains(t, s *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == s {
			return true
		}
		if t.id < s.id || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

type compWF struct {
	name  string
	alloc *Term
	inner bool // the content of one object
}

// wfFacts: references stored in a heap component point to allocated objects.
func (c *Ctx) wfFacts(t *Term, w compWF) []*Term {
	kind := c.G.compKind(w.name)
	if kind == 0 {
		return nil
	}
	var bs []*Term
	v := t
	for i := 0; v.sort.dom != nil; i++ {
		b := c.BVar(fmt.Sprintf("w%d", i), v.sort.dom)
		bs = append(bs, b)
		v = c.Select(v, b)
	}
	bound := func(r *Term) *Term {
		t := c.And(c.Ge(r, c.Int(0)), c.Lt(r, w.alloc))
		if !w.inner && len(bs) > 0 {
			t = c.Imp(c.Lt(bs[0], w.alloc), t) // what is not allocated yet is not constrained
		}
		return t
	}
	switch {
	case kind == 'r' && v.sort == IntS:
		return []*Term{c.Forall(bs, bound(v))}
	case kind == 'v' && v.sort == ValS:
		var out []*Term
		for _, n := range c.ptrCtors() {
			out = append(out, c.Forall(bs, c.Imp(c.Test(n, v), bound(c.Sel(n, 0, IntS, v)))))
		}
		return out
	}
	return nil
}
