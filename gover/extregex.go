package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Assumed contracts of regular expressions: a pattern is identified by its text, the matches it finds in a
// text are functions of both.  rx!n: how many, rx!s, rx!e: where the i-th begins and ends, rx!g: the text of
// its k-th group.  What a pattern matches is said by axioms in the contracts, where needed.

func (c *Ctx) Rx(pat *Term) *Term      { return c.App("rx!", IntS, pat) }
func (c *Ctx) RxN(r, s *Term) *Term    { return c.App("rx!n", IntS, r, s) }
func (c *Ctx) RxS(r, s, i *Term) *Term { return c.App("rx!s", IntS, r, s, i) }
func (c *Ctx) RxE(r, s, i *Term) *Term { return c.App("rx!e", IntS, r, s, i) }
func (c *Ctx) RxG(r, s, i, k *Term) *Term {
	return c.App("rx!g", StrS, r, s, i, k)
}

func (x *Exec) rxRef(st *State, pat string) (*Term, bool) {
	if _, err := regexp.Compile(pat); err != nil {
		return nil, false
	}
	c := x.c
	r := c.Rx(c.Str(pat))
	st.assume(c.Ge(r, c.Int(1)))
	return r, true
}

// rxMatches: the list of matches, each the row of one flat array.
func (x *Exec) rxMatches(st *State, rt types.Type, r, s *Term, width int, cell func(i *Term, k int) *Term) Value {
	c := x.c
	n := c.RxN(r, s)
	st.assume(c.Ge(n, c.Int(0)))
	it := rt.Underlying().(*types.Slice).Elem()
	et := it.Underlying().(*types.Slice).Elem()
	es := x.leafSorts(et)[0]
	flatRef := st.newRef()
	flat := c.Fresh("rxflat", c.ArrS(IntS, es))
	offs := c.Fresh("rxoff", c.ArrS(IntS, IntS))
	ek := x.g.elemKey(et) + ":0"
	st.initComp(ek, c.Store(st.comp(ek, c.ArrS(IntS, flat.sort)), flatRef, flat), flatRef)
	q := c.BVar("q6", IntS)
	fs := []*Term{c.Ge(c.Select(offs, q), c.Int(0))}
	for k := 0; k < width; k++ {
		fs = append(fs, c.Eq(c.Select(flat, c.Add(c.Select(offs, q), c.Int(int64(k)))), cell(q, k)))
	}
	st.assume(c.Forall([]*Term{q}, c.Imp(c.And(c.Ge(q, c.Int(0)), c.Lt(q, n)), c.And(fs...))))
	ref := st.newRef()
	w := c.Int(int64(width))
	for j, row := range []*Term{flatRef, offs, w, w} {
		nm := fmt.Sprintf("%s:%d", x.g.elemKey(it), j)
		as := c.ArrS(IntS, IntS)
		if j != 1 {
			row = c.ConstArr(as, row)
		}
		st.initComp(nm, c.Store(st.comp(nm, c.ArrS(IntS, as)), ref, row), ref)
	}
	x.nilIf(ref, c.Eq(n, c.Int(0)))
	return Value{t: rt, l: []*Term{ref, c.Int(0), n, n}}
}

// nilIf: the slice with this array is in fact nil under a condition.
func (x *Exec) nilIf(ref, cond *Term) {
	if x.maybeNil == nil {
		x.maybeNil = map[*Term]*Term{}
	}
	x.maybeNil[ref] = cond
}

func init() {
	reg := func(n string, f extModel) { externTab[n] = f }
	reg("regexp.MustCompile", func(x *Exec, fr *Frame, fn *ssa.Function, a []Value, pos token.Pos, st *State, k cont) {
		if p := a[0].l[0]; p.op == OStr {
			if r, ok := x.rxRef(st, p.name); ok {
				k(st, Value{t: fn.Signature.Results().At(0).Type(), l: []*Term{r}})
				return
			}
		}
		x.unsup("regular expression at %s", x.pos(pos))
	})
	reg("regexp.Compile", func(x *Exec, fr *Frame, fn *ssa.Function, a []Value, pos token.Pos, st *State, k cont) {
		if p := a[0].l[0]; p.op == OStr {
			if r, ok := x.rxRef(st, p.name); ok {
				res := fn.Signature.Results()
				k(st, resultValue(fn.Signature, []Value{{t: res.At(0).Type(), l: []*Term{r}}, {t: res.At(1).Type(), l: []*Term{x.c.Nil()}}}))
				return
			}
		}
		x.unsup("regular expression at %s", x.pos(pos))
	})
	all := func(width func(pat string) int, cell func(c *Ctx, r, s, i *Term, k int) *Term) extModel {
		return func(x *Exec, fr *Frame, fn *ssa.Function, a []Value, pos token.Pos, st *State, k cont) {
			r, s, n := a[0].l[0], a[1].l[0], a[2].l[0]
			if r.op != OApp || r.name != "rx!" || r.args[0].op != OStr || n.op != OInt || n.k >= 0 {
				x.unsup("matches of an unknown regular expression at %s", x.pos(pos))
			}
			v := x.rxMatches(st, fn.Signature.Results().At(0).Type(), r, s, width(r.args[0].name), func(i *Term, j int) *Term { return cell(x.c, r, s, i, j) })
			k(st, v)
		}
	}
	groups := func(pat string) int { return regexp.MustCompile(pat).NumSubexp() + 1 }
	reg("(*regexp.Regexp).FindAllStringIndex", all(func(string) int { return 2 }, func(c *Ctx, r, s, i *Term, k int) *Term {
		if k == 0 {
			return c.RxS(r, s, i)
		}
		return c.RxE(r, s, i)
	}))
	reg("(*regexp.Regexp).FindAllStringSubmatch", all(groups, func(c *Ctx, r, s, i *Term, k int) *Term {
		return c.RxG(r, s, i, c.Int(int64(k)))
	}))
}

// globInit: the pattern of a package variable that is set once, at start, to a compiled regular expression.
func (g *Global) globInit(v *ssa.Global) (string, bool) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.rxGlobs == nil {
		g.rxGlobs = map[*ssa.Global]string{}
		bad := map[*ssa.Global]bool{}
		for fn := range ssautil.AllFunctions(g.prog) {
			if fn.Pkg != g.spkg {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					if s, ok := in.(*ssa.Store); ok {
						if gl, ok := s.Addr.(*ssa.Global); ok {
							if _, dup := g.rxGlobs[gl]; !dup && fn.Name() == "init" {
								if cl, ok := s.Val.(*ssa.Call); ok {
									if f := cl.Call.StaticCallee(); f != nil && f.RelString(nil) == "regexp.MustCompile" {
										if k, ok := cl.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
											g.rxGlobs[gl] = constant.StringVal(k.Value)
											continue
										}
									}
								}
							}
							bad[gl] = true
							continue
						}
					}
					for _, op := range in.Operands(nil) {
						if gl, ok := (*op).(*ssa.Global); ok {
							bad[gl] = true
						}
					}
				}
			}
		}
		for gl := range bad {
			delete(g.rxGlobs, gl)
		}
	}
	p, ok := g.rxGlobs[v]
	return p, ok
}
