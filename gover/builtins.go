package main

import (
	"fmt"
	"sort"
	"strings"
)

// Theory of the uninterpreted string functions and a few helpers.

type axiom struct {
	keys []string // present if all of these functions occur
	uses []string // functions it mentions besides the keys
	text string
}

func (g *Global) initBuiltins() {
	A := "(Array Int Str)"
	_ = A
	g.builtinFuns = map[string]*FunDecl{}
	d := func(n string, res *Sort, args ...*Sort) { g.builtinFuns[n] = &FunDecl{n, args, res} }
	d("strlen", IntS, StrS)
	d("cat", StrS, StrS, StrS)
	d("substr", StrS, StrS, IntS, IntS)
	d("strat", IntS, StrS, IntS)
	d("strindex", IntS, StrS, StrS)
	d("splitlen", IntS, StrS, StrS)
	d("dropcr", StrS, StrS)
	d("splitat", StrS, StrS, StrS, IntS)
	d("splitfrom", StrS, StrS, StrS, IntS)
	d("spush", StkS, ValS, StkS)
	d("stop", ValS, StkS)
	d("srest", StkS, StkS)
	d("bagE", BagS, (&Sort{name: A, dom: IntS, rng: StrS}), IntS, IntS)
	d("sjoin", StrS, BagS, StrS)
	g.axioms = []axiom{
		{[]string{"strlen"}, nil, "(assert (forall ((s Str)) (! (and (>= (strlen s) 0) (=> (= (strlen s) 0) (= s lit!))) :pattern ((strlen s)))))"},
		{[]string{"cat"}, nil, "(assert (forall ((s Str)) (! (= (cat lit! s) s) :pattern ((cat lit! s)))))\n(assert (forall ((s Str)) (! (= (cat s lit!) s) :pattern ((cat s lit!)))))\n(assert (forall ((a Str) (b Str) (c Str)) (! (= (cat (cat a b) c) (cat a (cat b c))) :pattern ((cat (cat a b) c)))))"},
		{[]string{"cat", "strlen"}, nil, "(assert (forall ((a Str) (b Str)) (! (= (strlen (cat a b)) (+ (strlen a) (strlen b))) :pattern ((cat a b)))))"},
		{[]string{"substr"}, []string{"strlen"}, "(assert (forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (strlen s))) (= (strlen (substr s a b)) (- b a))) :pattern ((substr s a b)))))\n(assert (forall ((s Str) (b Int)) (! (=> (= b (strlen s)) (= (substr s 0 b) s)) :pattern ((substr s 0 b)))))"},
		{[]string{"strindex"}, []string{"strlen"}, "(assert (forall ((s Str) (x Str)) (! (and (>= (strindex s x) (- 1)) (=> (>= (strindex s x) 0) (<= (+ (strindex s x) (strlen x)) (strlen s)))) :pattern ((strindex s x)))))"},
		{[]string{"joinE"}, nil, "(assert (forall ((a (Array Int Str)) (j Int) (v Str) (o Int) (n Int) (s Str)) (! (=> (or (< j o) (>= j (+ o n))) (= (joinE (store a j v) o n s) (joinE a o n s))) :pattern ((joinE (store a j v) o n s)))))"},
		{[]string{"bagE"}, nil, "(assert (forall ((a (Array Int Str)) (j Int) (v Str) (o Int) (n Int)) (! (=> (or (< j o) (>= j (+ o n))) (= (bagE (store a j v) o n) (bagE a o n))) :pattern ((bagE (store a j v) o n)))))"},
		// sorting keeps the pieces; what a sorted list joins to depends on the pieces only
		{[]string{"sortedArr", "bagE"}, nil, "(assert (forall ((a (Array Int Str)) (o Int) (n Int)) (! (= (bagE (sortedArr a o n) o n) (bagE a o n)) :pattern ((bagE (sortedArr a o n) o n)))))"},
		{[]string{"sortedArr", "joinE"}, []string{"bagE", "sjoin"}, "(assert (forall ((a (Array Int Str)) (o Int) (n Int) (s Str)) (! (= (joinE (sortedArr a o n) o n s) (sjoin (bagE a o n) s)) :pattern ((joinE (sortedArr a o n) o n s)))))"},
		{[]string{"sortedArr"}, nil, "(assert (forall ((a (Array Int Str)) (o Int) (n Int) (i Int)) (! (=> (or (< i o) (>= i (+ o n))) (= (select (sortedArr a o n) i) (select a i))) :pattern ((select (sortedArr a o n) i)))))"},
		{[]string{"splitlen"}, []string{"strindex"}, "(assert (forall ((s Str) (x Str)) (! (and (>= (splitlen s x) 1) (= (> (splitlen s x) 1) (>= (strindex s x) 0))) :pattern ((splitlen s x)))))"},
		{[]string{"splitat"}, []string{"strindex", "substr", "splitlen"}, "(assert (forall ((s Str) (x Str)) (! (= (splitat s x 0) (ite (< (strindex s x) 0) s (substr s 0 (strindex s x)))) :pattern ((splitat s x 0)))))"},
		// splitfrom s x i: the text from the i-th piece on; it is what joining the pieces i.. with x gives back
		{[]string{"splitfrom"}, []string{"splitat", "splitlen"}, "(assert (forall ((s Str) (x Str)) (! (= (splitfrom s x 0) s) :pattern ((splitfrom s x 0)))))\n(assert (forall ((s Str) (x Str) (i Int)) (! (=> (and (<= 0 i) (= (+ i 1) (splitlen s x))) (= (splitfrom s x i) (splitat s x i))) :pattern ((splitfrom s x i)))))"},
		{[]string{"dropcr"}, []string{"strlen", "strat", "substr"}, "(assert (forall ((s Str)) (! (and (or (= (dropcr s) s) (= (strlen (dropcr s)) (- (strlen s) 1))) (>= (strlen s) (strlen (dropcr s)))) :pattern ((dropcr s)))))\n(assert (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (strlen (dropcr s)))) (= (strat (dropcr s) i) (strat s i))) :pattern ((strat (dropcr s) i)))))\n(assert (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (<= i (strlen (dropcr s)))) (= (substr (dropcr s) 0 i) (substr s 0 i))) :pattern ((substr (dropcr s) 0 i)))))"},
		{[]string{"dropcr", "strindex"}, nil, "(assert (forall ((s Str) (x Str)) (! (=> (>= (strindex (dropcr s) x) 0) (= (strindex (dropcr s) x) (strindex s x))) :pattern ((strindex (dropcr s) x)))))"},
		{[]string{"splitfrom", "strindex"}, []string{"substr", "strlen"}, "(assert (forall ((s Str) (x Str)) (! (=> (>= (strindex s x) 0) (= (splitfrom s x 1) (substr s (+ (strindex s x) (strlen x)) (strlen s)))) :pattern ((splitfrom s x 1)))))"},
	}
	for _, srt := range []*Sort{StrS} {
		_ = srt
	}
	g.commonFun = map[string]bool{"strlen": true, "cat": true, "substr": true, "strat": true, "strindex": true}
	g.appSimp = map[string]func(c *Ctx, as []*Term) *Term{
		"cat":    func(c *Ctx, as []*Term) *Term { return c.Cat(as[0], as[1]) },
		"strlen": func(c *Ctx, as []*Term) *Term { return c.StrLen(as[0]) },
		"substr": func(c *Ctx, as []*Term) *Term { return c.Substr(as[0], as[1], as[2]) },
		"stop":   func(c *Ctx, as []*Term) *Term { return c.STop(as[0]) },
		"srest":  func(c *Ctx, as []*Term) *Term { return c.SRest(as[0]) },
	}
	// joinE(A, off, n, sep): the pieces A[off..off+n) joined by sep
	// splitting is described piece by piece: the text before the first separator, then the pieces of the rest
	rest := func(c *Ctx, s, sep *Term) (*Term, *Term) {
		i := c.StrIndex(s, sep)
		return i, c.Substr(s, c.Add(i, c.StrLen(sep)), c.StrLen(s))
	}
	g.defs = map[string]func(c *Ctx, t *Term) []*Term{
		"splitlen": func(c *Ctx, t *Term) []*Term {
			i, r := rest(c, t.args[0], t.args[1])
			return []*Term{c.Eq(t, c.Ite(c.Lt(i, c.Int(0)), c.Int(1), c.Add(c.Int(1), c.App("splitlen", IntS, r, t.args[1]))))}
		},
		"splitat": func(c *Ctx, t *Term) []*Term {
			n := t.args[2]
			if n.op != OInt || n.k < 0 || n.k > 4 {
				return nil
			}
			i, r := rest(c, t.args[0], t.args[1])
			if n.k == 0 {
				return []*Term{c.Eq(t, c.Ite(c.Lt(i, c.Int(0)), t.args[0], c.Substr(t.args[0], c.Int(0), i)))}
			}
			return []*Term{c.Imp(c.Ge(i, c.Int(0)), c.Eq(t, c.App("splitat", StrS, r, t.args[1], c.Int(n.k-1))))}
		},
		"splitfrom": func(c *Ctx, t *Term) []*Term {
			n := t.args[2]
			if n.op != OInt || n.k <= 0 || n.k > 4 {
				return nil
			}
			i, r := rest(c, t.args[0], t.args[1])
			return []*Term{c.Eq(t, c.Ite(c.Ge(i, c.Int(0)), c.SplitFrom(r, t.args[1], c.Int(n.k-1)), c.Str("")))}
		},
		"bagE": func(c *Ctx, t *Term) []*Term {
			A, off, n := t.args[0], t.args[1], t.args[2]
			n1 := c.Sub(n, c.Int(1))
			return []*Term{
				c.Imp(c.Le(n, c.Int(0)), c.Eq(t, c.Var("bnone", BagS))),
				c.Imp(c.Ge(n, c.Int(1)), c.Eq(t, c.App("badd", BagS, c.BagE(A, off, n1), c.Select(A, c.Add(off, n1))))),
			}
		},
		"joinE": func(c *Ctx, t *Term) []*Term {
			A, off, n, sep := t.args[0], t.args[1], t.args[2], t.args[3]
			n1 := c.Sub(n, c.Int(1))
			prev := c.JoinE(A, off, n1, sep)
			last := c.Select(A, c.Add(off, n1))
			step := c.Cat(c.Cat(prev, sep), last)
			return []*Term{
				c.Imp(c.Le(n, c.Int(0)), c.Eq(t, c.Str(""))),
				c.Imp(c.Eq(n, c.Int(1)), c.Eq(t, last)),
				c.Imp(c.Gt(n, c.Int(1)), c.Eq(t, step)),
			}
		},
	}
}

func (c *Ctx) JoinE(A, off, n, sep *Term) *Term {
	if n.op == OInt && n.k <= 0 {
		return c.Str("")
	}
	if n.op == OInt && n.k <= 8 {
		r := c.Select(A, off)
		for i := int64(1); i < n.k; i++ {
			r = c.Cat(c.Cat(r, sep), c.Select(A, c.Add(off, c.Int(i))))
		}
		return r
	}
	// stores beyond the joined range do not matter
	for A.op == OStore {
		d := c.Sub(A.args[1], c.Add(off, n))
		if d.op == OInt && d.k >= 0 {
			A = A.args[0]
			continue
		}
		break
	}
	return c.App("joinE", StrS, A, off, n, sep)
}

// BagE(A, off, n): the pieces A[off..off+n) as a bag
func (c *Ctx) BagE(A, off, n *Term) *Term {
	if n.op == OInt && n.k <= 0 {
		return c.Var("bnone", BagS)
	}
	return c.App("bagE", BagS, A, off, n)
}

// unfoldBag: the bag of the entries of a set of keys, key by key.
func (c *Ctx) unfoldBag(t *Term) []*Term {
	f := c.bagBody[strings.TrimPrefix(t.name, "bag!")]
	V := t.args[0]
	switch {
	case f == nil:
	case V.op == OConstArr && V.args[0] == c.F:
		return []*Term{c.Eq(t, c.Var("bnone", BagS))}
	case V.op == OStore && V.args[2] == c.T:
		return []*Term{c.Imp(c.Not(c.Select(V.args[0], V.args[1])), c.Eq(t, c.App("badd", BagS, c.App(t.name, BagS, V.args[0]), f(V.args[1]))))}
	}
	return nil
}

func (c *Ctx) Cat(a, b *Term) *Term {
	var parts []*Term
	var fl func(t *Term)
	fl = func(t *Term) {
		if t.op == OApp && t.name == "cat" {
			fl(t.args[0])
			fl(t.args[1])
			return
		}
		if t.op == OStr {
			if t.name == "" {
				return
			}
			if n := len(parts); n > 0 && parts[n-1].op == OStr {
				parts[n-1] = c.Str(parts[n-1].name + t.name)
				return
			}
		}
		parts = append(parts, t)
	}
	fl(a)
	fl(b)
	if len(parts) == 0 {
		return c.Str("")
	}
	r := parts[len(parts)-1]
	for i := len(parts) - 2; i >= 0; i-- {
		r = c.App("cat", StrS, parts[i], r)
	}
	return r
}

func (c *Ctx) StrLen(s *Term) *Term {
	if s.op == OStr {
		return c.Int(int64(len(s.name)))
	}
	if s.op == OApp && s.name == "cat" {
		return c.Add(c.StrLen(s.args[0]), c.StrLen(s.args[1]))
	}
	return c.App("strlen", IntS, s)
}

func (c *Ctx) Substr(s, a, b *Term) *Term {
	if a.op == OInt && a.k == 0 && b == c.StrLen(s) {
		return s
	}
	if s.op == OStr && a.op == OInt && b.op == OInt && 0 <= a.k && a.k <= b.k && b.k <= int64(len(s.name)) {
		return c.Str(s.name[a.k:b.k])
	}
	if a == b {
		return c.Str("")
	}
	if s.op == OApp && s.name == "substr" {
		return c.Substr(s.args[0], c.Add(s.args[1], a), c.Add(s.args[1], b))
	}
	return c.App("substr", StrS, s, a, b)
}

func (c *Ctx) StrAt(s, i *Term) *Term {
	if s.op == OStr && i.op == OInt && 0 <= i.k && i.k < int64(len(s.name)) {
		return c.Int(int64(s.name[i.k]))
	}
	if s.op == OApp && s.name == "substr" {
		return c.StrAt(s.args[0], c.Add(s.args[1], i))
	}
	return c.App("strat", IntS, s, i)
}

// StrIndex is strings.Index; an empty separator is found at 0.
func (c *Ctx) StrIndex(s, x *Term) *Term {
	if s.op == OStr && x.op == OStr {
		return c.Int(int64(strings.Index(s.name, x.name)))
	}
	return c.App("strindex", IntS, s, x)
}

func (c *Ctx) SPush(v, s *Term) *Term { return c.App("spush", StkS, v, s) }
func (c *Ctx) STop(s *Term) *Term {
	if s.op == OApp && s.name == "spush" {
		return s.args[0]
	}
	return c.App("stop", ValS, s)
}
func (c *Ctx) SRest(s *Term) *Term {
	if s.op == OApp && s.name == "spush" {
		return s.args[1]
	}
	return c.App("srest", StkS, s)
}

// Pos(A, off, n, k) is the smallest j in [0,n) with A[off+j] = k, or -1.
func (c *Ctx) Pos(A, off, n, k *Term) *Term {
	return c.App("pos!"+sortTag(k.sort), IntS, A, off, n, k)
}

func (g *Global) builtinAxioms(p *Printer) (texts []string, more []string) {
	used := map[int]bool{}
	have := func(f string) bool { return p.funs[f] }
	for {
		n := 0
		for i, ax := range g.axioms {
			if used[i] {
				continue
			}
			ok := true
			for _, k := range ax.keys {
				if !have(k) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			used[i] = true
			n++
			for _, u := range ax.uses {
				p.funs[u] = true
			}
			if strings.Contains(ax.text, "lit!") {
				p.count(p.c.Str(""))
			}
		}
		if n == 0 {
			break
		}
	}
	for i, ax := range g.axioms {
		if used[i] {
			texts = append(texts, ax.text)
		}
	}
	if have("strlen") {
		for _, l := range p.lits {
			texts = append(texts, fmt.Sprintf("(assert (= (strlen %s) %d))", litName(l.name), len(l.name)))
		}
	}
	if have("strat") {
		for _, l := range p.lits {
			for i := 0; i < len(l.name) && i < 4; i++ {
				texts = append(texts, fmt.Sprintf("(assert (= (strat %s %d) %d))", litName(l.name), i, l.name[i]))
			}
		}
	}
	var fns []string
	for f := range p.funs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	for _, f := range fns {
		if strings.HasPrefix(f, "inj!") {
			d := p.c.funDecl(f)
			texts = append(texts, strings.NewReplacer("INV", smtName("inv"+f), "SKA", smtName("ska"+f), "SKB", smtName("skb"+f), "INJ", smtName(f), "KK", d.args[0].dom.name, "DD", d.args[0].name, "VR", d.args[1].rng.name, "VV", d.args[1].name).Replace(
				"(declare-fun INV (DD VV VR) KK)\n(declare-fun SKA (DD VV) KK)\n(declare-fun SKB (DD VV) KK)\n"+
					"(assert (forall ((d DD) (v VV) (k KK)) (! (=> (and (INJ d v) (select d k)) (= (INV d v (select v k)) k)) :pattern ((INJ d v) (select v k)))))\n"+
					"(assert (forall ((d DD) (v VV)) (! (or (INJ d v) (and (not (= (SKA d v) (SKB d v))) (select d (SKA d v)) (select d (SKB d v)) (= (select v (SKA d v)) (select v (SKB d v))))) :pattern ((INJ d v)))))"))
		}
		if strings.HasPrefix(f, "pos!") {
			d := p.c.funDecl(f)
			k := d.args[3].name
			F := smtName(f)
			texts = append(texts, strings.NewReplacer("F", F, "K", k).Replace(
				"(assert (forall ((a (Array Int K)) (o Int) (n Int) (k K)) (! (and (>= (F a o n k) (- 1)) (=> (>= (F a o n k) 0) (and (< (F a o n k) n) (= (select a (+ o (F a o n k))) k)))) :pattern ((F a o n k)))))\n"+
					"(assert (forall ((a (Array Int K)) (o Int) (n Int) (i Int)) (! (=> (and (<= o i) (< i (+ o n))) (and (<= 0 (F a o n (select a i))) (<= (+ o (F a o n (select a i))) i))) :pattern ((F a o n (select a i))))))\n"+
					"(assert (forall ((a (Array Int K)) (j Int) (v K) (o Int) (n Int) (k K)) (! (and (=> (or (< j o) (>= j (+ o n))) (= (F (store a j v) o n k) (F a o n k))) (=> (and (>= n 1) (= j (+ o n (- 1)))) (= (F (store a j v) o n k) (ite (>= (F a o (- n 1) k) 0) (F a o (- n 1) k) (ite (= v k) (- n 1) (- 1)))))) :pattern ((F (store a j v) o n k)))))\n"+
					"(assert (forall ((a (Array Int K)) (o Int) (n Int) (m Int) (k K)) (! (=> (<= m n) (= (F a o m k) (ite (< (F a o n k) m) (F a o n k) (- 1)))) :pattern ((F a o n k) (F a o m k)))))"))
		}
	}
	return
}

// unfoldDefs adds ground instances of the defining equations of recursive functions.
func (g *Global) unfoldDefs(c *Ctx, asserts []*Term) []*Term {
	seen := map[*Term]bool{}
	done := map[*Term]bool{}
	var apps []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OApp && len(t.fv) == 0 && (g.defs[t.name] != nil || g.recs[t.name] != nil || strings.HasPrefix(t.name, "bag!")) && !done[t] {
			done[t] = true
			apps = append(apps, t)
		}
	}
	for _, t := range asserts {
		walk(t)
	}
	out := asserts
	facts := map[*Term]bool{}
	for _, t := range asserts {
		facts[t] = true
	}
	for round := 0; round < 2 && len(apps) > 0; round++ {
		cur := apps
		apps = nil
		for _, t := range cur {
			if m, ok := c.unfoldMax[t.name]; ok && round >= m {
				continue
			}
			var fs []*Term
			if f := g.defs[t.name]; f != nil {
				fs = f(c, t)
			} else if strings.HasPrefix(t.name, "bag!") {
				fs = c.unfoldBag(t)
			} else if c.unfoldRec != nil {
				fs = c.unfoldRec(t)
				if facts[t] {
					// known to hold: so does what it stands for
					fs = c.conjuncts(c.unfoldRec2(t))
					for _, f := range fs {
						facts[f] = true
					}
				}
			}
			for _, f := range fs {
				if f != c.T {
					out = append(out, f)
					walk(f)
				}
			}
		}
	}
	return out
}

// SplitFrom(s, sep, i): s from its i-th piece on.
func (c *Ctx) SplitFrom(s, sep, i *Term) *Term {
	if i.op == OInt && i.k == 0 {
		return s
	}
	return c.App("splitfrom", StrS, s, sep, i)
}

// Join is strings.Join; joining the tail of a split gives back the tail of the text.
func (c *Ctx) Join(A, off, n, sep *Term) *Term {
	if A.op == OApp && A.name == "splitarr" && A.args[1] == sep && off.op == OInt && off.k >= 0 {
		if c.Add(off, n) == c.App("splitlen", IntS, A.args[0], sep) {
			return c.SplitFrom(A.args[0], sep, off)
		}
	}
	return c.JoinE(A, off, n, sep)
}

func (c *Ctx) Itoa(t *Term) *Term {
	if t.op == OInt {
		return c.Str(fmt.Sprint(t.k))
	}
	return c.App("itoa", StrS, t)
}

func (c *Ctx) conjuncts(t *Term) []*Term {
	if t.op != OAnd {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.args {
		out = append(out, c.conjuncts(a)...)
	}
	return out
}
