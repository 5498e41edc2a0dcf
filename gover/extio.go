package main

import (
	"go/token"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// Assumed contracts of readers, line scanners, files and XML decoding.  Their hidden state lives in ghost
// components named "X:...", indexed by the reference of the object.

func (x *Exec) ghost(st *State, n string, s *Sort, ref *Term) *Term {
	return x.c.Select(st.comp("X:"+n, x.c.ArrS(IntS, s)), ref)
}
func (x *Exec) setGhost(st *State, n string, ref, v *Term) {
	cc := st.comp("X:"+n, x.c.ArrS(IntS, v.sort))
	st.setComp("X:"+n, x.c.Store(cc, ref, v), ref)
}

// boxedRef: the reference inside a boxed pointer of the given type.
func boxedRef(v *Term, ctor string) *Term {
	if v.op == OCtor && v.name == ctor {
		return v.args[0]
	}
	return nil
}

// LineCount and Line: bufio.ScanLines, that is the pieces between line feeds without a final empty one and
// without a trailing carriage return.
func (c *Ctx) LineCount(s *Term) *Term {
	nl := c.Str("\n")
	n := c.App("splitlen", IntS, s, nl)
	last := c.App("splitat", StrS, s, nl, c.Sub(n, c.Int(1)))
	return c.Ite(c.Eq(last, c.Str("")), c.Sub(n, c.Int(1)), n)
}
func (c *Ctx) Line(s, i *Term) *Term {
	return c.App("dropcr", StrS, c.App("splitat", StrS, s, c.Str("\n"), i))
}

func (x *Exec) errVal(st *State, ok *Term, what string) *Term {
	c := x.c
	return c.Ite(ok, c.Nil(), c.Ctor("vother", c.Int(int64(x.typeID("error:"+what))), st.newRef()))
}

// fileBytes: a newly allocated byte slice holding a text.
func (x *Exec) fileBytes(st *State, t types.Type, s *Term) Value {
	c := x.c
	ref := st.newRef()
	key := x.g.elemKey(t.Underlying().(*types.Slice).Elem()) + ":0"
	as := c.ArrS(IntS, IntS)
	st.initComp(key, c.Store(st.comp(key, c.ArrS(IntS, as)), ref, c.App("bytesOf", as, s)), ref)
	ln := c.StrLen(s)
	return Value{t: t, l: []*Term{ref, c.Int(0), ln, ln}}
}

func init() {
	type F = extModel
	tup := func(fn *ssa.Function, vs ...Value) Value {
		for i := range vs {
			if vs[i].t == nil {
				vs[i].t = fn.Signature.Results().At(i).Type()
			}
		}
		return resultValue(fn.Signature, vs)
	}
	one := func(t *Term) Value { return Value{l: []*Term{t}} }
	reg := func(n string, f F) { externTab[n] = f }
	reg("strings.NewReader", func(x *Exec, fr *Frame, fn *ssa.Function, a []Value, pos token.Pos, st *State, k cont) {
		r := st.newRef()
		x.setGhost(st, "rd", r, a[0].l[0])
		k(st, tup(fn, one(r)))
	})
	reg("bufio.NewScanner", func(x *Exec, fr *Frame, fn *ssa.Function, a []Value, pos token.Pos, st *State, k cont) {
		c := x.c
		src := boxedRef(a[0].l[0], "v:*strings.Reader")
		var text *Term
		if src != nil {
			text = x.ghost(st, "rd", StrS, src)
		} else if src = boxedRef(a[0].l[0], "v:*os.File"); src != nil {
			text = c.App("filedata", StrS, x.ghost(st, "fname", StrS, src))
		} else {
			x.unsup("scanner over an unknown reader at %s", x.pos(pos))
		}
		r := st.newRef()
		x.setGhost(st, "scsrc", r, text)
		x.setGhost(st, "scpos", r, c.Int(0))
		x.setGhost(st, "scmax", r, c.Int(64*1024))
		x.setGhost(st, "scerr", r, c.F)
		k(st, tup(fn, one(r)))
	})
	reg("(*bufio.Scanner).Buffer", func(x *Exec, fr *Frame, fn *ssa.Function, a []Value, pos token.Pos, st *State, k cont) {
		x.setGhost(st, "scmax", a[0].l[0], a[2].l[0])
		k(st, Value{})
	})
	reg("(*bufio.Scanner).Scan", func(x *Exec, fr *Frame, fn *ssa.Function, a []Value, pos token.Pos, st *State, k cont) {
		c := x.c
		r := a[0].l[0]
		src, p, mx, er := x.ghost(st, "scsrc", StrS, r), x.ghost(st, "scpos", IntS, r), x.ghost(st, "scmax", IntS, r), x.ghost(st, "scerr", BoolS, r)
		left := c.Lt(p, c.LineCount(src))
		// a line may not fit unless the whole text does
		long := c.And(c.Le(mx, c.StrLen(src)), c.App("linetoolong", BoolS, src, p, mx))
		ok := st.decide(c.And(left, c.Not(long), c.Not(er)))
		x.setGhost(st, "scpos", r, c.Ite(ok, c.Add(p, c.Int(1)), p))
		x.setGhost(st, "scerr", r, c.Or(er, c.And(left, long)))
		k(st, tup(fn, one(ok)))
	})
	reg("(*bufio.Scanner).Text", func(x *Exec, fr *Frame, fn *ssa.Function, a []Value, pos token.Pos, st *State, k cont) {
		c := x.c
		r := a[0].l[0]
		k(st, tup(fn, one(c.Line(x.ghost(st, "scsrc", StrS, r), c.Sub(x.ghost(st, "scpos", IntS, r), c.Int(1))))))
	})
	reg("(*bufio.Scanner).Err", func(x *Exec, fr *Frame, fn *ssa.Function, a []Value, pos token.Pos, st *State, k cont) {
		k(st, tup(fn, one(x.errVal(st, x.c.Not(x.ghost(st, "scerr", BoolS, a[0].l[0])), "scan"))))
	})
	reg("os.Open", func(x *Exec, fr *Frame, fn *ssa.Function, a []Value, pos token.Pos, st *State, k cont) {
		c := x.c
		ok := c.App("openok", BoolS, a[0].l[0])
		r := st.newRef()
		x.setGhost(st, "fname", r, a[0].l[0])
		k(st, tup(fn, one(c.Ite(ok, r, c.Int(0))), one(x.errVal(st, ok, "open"))))
	})
	reg("(*os.File).Close", func(x *Exec, fr *Frame, fn *ssa.Function, a []Value, pos token.Pos, st *State, k cont) {
		x.notes["closing a file that was read succeeds"] = true
		k(st, tup(fn, one(x.c.Nil())))
	})
	readAll := func(x *Exec, fr *Frame, fn *ssa.Function, a []Value, pos token.Pos, st *State, k cont) {
		c := x.c
		v := a[0].l[0]
		if v.op == OCtor && v.name == "v:*strings.Reader" {
			k(st, tup(fn, x.fileBytes(st, fn.Signature.Results().At(0).Type(), x.ghost(st, "rd", StrS, v.args[0])), one(c.Nil())))
			return
		}
		r := boxedRef(v, "v:*os.File")
		if r == nil {
			x.unsup("reading an unknown reader at %s", x.pos(pos))
		}
		if r.op == OIte && st.decide(r.args[0]) == c.T {
			r = r.args[1]
		}
		n := x.ghost(st, "fname", StrS, r)
		k(st, tup(fn, x.fileBytes(st, fn.Signature.Results().At(0).Type(), c.App("filedata", StrS, n)), one(x.errVal(st, c.App("readok", BoolS, n), "read"))))
	}
	reg("io/ioutil.ReadAll", readAll)
	reg("io.ReadAll", readAll)
	readFile := func(x *Exec, fr *Frame, fn *ssa.Function, a []Value, pos token.Pos, st *State, k cont) {
		c := x.c
		n := a[0].l[0]
		ok := c.And(c.App("openok", BoolS, n), c.App("readok", BoolS, n))
		k(st, tup(fn, x.fileBytes(st, fn.Signature.Results().At(0).Type(), c.App("filedata", StrS, n)), one(x.errVal(st, ok, "read"))))
	}
	reg("io/ioutil.ReadFile", readFile)
	reg("os.ReadFile", readFile)
	reg("encoding/xml.Unmarshal", func(x *Exec, fr *Frame, fn *ssa.Function, a []Value, pos token.Pos, st *State, k cont) {
		x.xmlUnmarshal(fr, fn, a, pos, st, k)
	})
}

// xmlUnmarshal: whether the text decodes and what every field receives is a function of the text and of the
// field's xml tag.
func (x *Exec) xmlUnmarshal(fr *Frame, fn *ssa.Function, a []Value, pos token.Pos, st *State, k cont) {
	c := x.c
	bt := a[0].t.Underlying().(*types.Slice).Elem()
	data := x.strOfBytes(st, a[0], bt)
	v := a[1].l[0]
	if v.op != OCtor {
		x.unsup("xml.Unmarshal into an unknown target at %s", x.pos(pos))
	}
	pt, ok := x.boxTy[v.name].(*types.Pointer)
	if !ok {
		x.unsup("xml.Unmarshal into %s at %s", v.name, x.pos(pos))
	}
	stt, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		x.unsup("xml.Unmarshal into %s at %s", v.name, x.pos(pos))
	}
	ref := v.args[0]
	good := c.App("xmlok", BoolS, data)
	key := x.g.objKey(pt.Elem())
	tag := func(s *types.Struct, i int) string {
		if t := reflect.StructTag(s.Tag(i)).Get("xml"); t != "" {
			return t
		}
		return s.Field(i).Name()
	}
	for i := 0; i < stt.NumFields(); i++ {
		lo, n := x.g.fieldRange(pt.Elem(), i)
		ft := stt.Field(i).Type()
		p := tag(stt, i)
		var vals []*Term
		if sl, ok := ft.Underlying().(*types.Slice); ok {
			es, ok := sl.Elem().Underlying().(*types.Struct)
			if !ok {
				x.unsup("xml field %s", stt.Field(i).Name())
			}
			r := st.newRef()
			for j := 0; j < es.NumFields(); j++ {
				l2, m := x.g.fieldRange(sl.Elem(), j)
				if m != 1 || x.leafSorts(es.Field(j).Type())[0] != StrS {
					x.unsup("xml field %s", es.Field(j).Name())
				}
				_, nm := x.innerArr(st, sl.Elem(), l2, r)
				as := c.ArrS(IntS, StrS)
				st.initComp(nm, c.Store(st.comp(nm, c.ArrS(IntS, as)), r, c.App("xmlarr", as, data, c.Str(p+"/"+tag(es, j)))), r)
			}
			ln := c.App("xmllen", IntS, data, c.Str(p))
			st.assume(c.Ge(ln, c.Int(0)))
			vals = []*Term{r, c.Int(0), ln, ln}
		} else if n == 1 && x.leafSorts(ft)[0] == StrS {
			vals = []*Term{c.App("xmlstr", StrS, data, c.Str(p))}
		} else {
			x.unsup("xml field %s", stt.Field(i).Name())
		}
		for j, t := range vals {
			nm := keyIdx(key, lo+j)
			cc := st.comp(nm, c.ArrS(IntS, t.sort))
			st.setComp(nm, c.Store(cc, ref, t), ref)
		}
	}
	k(st, resultValue(fn.Signature, []Value{{t: fn.Signature.Results().At(0).Type(), l: []*Term{x.errVal(st, good, "xml")}}}))
}
