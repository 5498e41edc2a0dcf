package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Assumed contracts of external functions.  Everything listed here is part of the trusted base and is
// reported as such when a proof uses it.

func (x *Exec) note(name string) { x.notes["external "+name] = true }

func (x *Exec) extern(fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, st *State, k cont) {
	c := x.c
	name := fn.RelString(nil)
	name = strings.ReplaceAll(name, "(*sync.RWMutex)", "sync")
	name = strings.ReplaceAll(name, "(*sync.Mutex)", "sync")
	sig := fn.Signature
	ret := func(vals ...Value) {
		for i := range vals {
			if vals[i].t == nil && i < sig.Results().Len() {
				vals[i].t = sig.Results().At(i).Type()
			}
		}
		k(st, resultValue(sig, vals))
	}
	T := func(i int) *Term { return args[i].l[0] }
	one := func(t *Term) Value { return Value{l: []*Term{t}} }
	switch name {
	case "sync.Lock", "sync.Unlock", "sync.RLock", "sync.RUnlock", "sync.TryLock", "sync.TryRLock":
		x.lockOp(fr, st, args[0], strings.TrimPrefix(name, "sync."), pos, k)
		return
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "log" {
		ret()
		return
	}
	x.note(name)
	switch name {
	case "time.Now":
		ret(one(x.tick(st)))
		return
	case "(time.Time).Add":
		ret(one(c.Add(T(0), T(1))))
		return
	case "(time.Time).Sub":
		ret(one(c.Sub(T(0), T(1))))
		return
	case "(time.Time).Before":
		ret(one(c.Lt(T(0), T(1))))
		return
	case "(time.Time).After":
		ret(one(c.Gt(T(0), T(1))))
		return
	case "(time.Time).Equal":
		ret(one(c.Eq(T(0), T(1))))
		return
	case "(time.Time).Compare":
		ret(one(c.Ite(c.Lt(T(0), T(1)), c.Int(-1), c.Ite(c.Gt(T(0), T(1)), c.Int(1), c.Int(0)))))
		return
	case "(time.Time).IsZero":
		ret(one(c.Eq(T(0), c.Int(0))))
		return
	case "(time.Time).Unix":
		ret(one(c.App("unixOf", IntS, T(0))))
		return
	case "time.Since":
		n := x.tick(st)
		ret(one(c.Sub(n, T(0))))
		return
	case "time.Until":
		n := x.tick(st)
		ret(one(c.Sub(T(0), n)))
		return
	case "strings.Index":
		ret(one(c.StrIndex(T(0), T(1))))
		return
	case "strings.IndexByte", "strings.IndexRune":
		if T(1).op == OInt {
			ret(one(c.StrIndex(T(0), c.Str(string(rune(T(1).k))))))
			return
		}
	case "strings.Contains":
		ret(one(c.Ge(c.StrIndex(T(0), T(1)), c.Int(0))))
		return
	case "strings.ContainsRune":
		if T(1).op == OInt {
			ret(one(c.Ge(c.StrIndex(T(0), c.Str(string(rune(T(1).k)))), c.Int(0))))
			return
		}
	case "strings.Cut":
		i := c.StrIndex(T(0), T(1))
		fd := st.decide(c.Ge(i, c.Int(0)))
		l := c.StrLen(T(0))
		ret(one(c.Ite(fd, c.Substr(T(0), c.Int(0), i), T(0))), one(c.Ite(fd, c.Substr(T(0), c.Add(i, c.StrLen(T(1))), l), c.Str(""))), one(fd))
		return
	case "strings.Split":
		if T(1).op == OStr && T(1).name != "" {
			x.newSplit(st, T(0), T(1), sig.Results().At(0).Type(), k)
			return
		}
	case "strings.SplitN":
		if T(1).op == OStr && T(1).name != "" && T(2).op == OInt && 2 <= T(2).k && T(2).k <= 4 {
			A := c.ConstArr(c.ArrS(IntS, StrS), c.Str(""))
			last := T(2).k - 1
			ln := c.Int(T(2).k)
			for i := int64(0); i < last; i++ {
				at := c.App("splitat", StrS, T(0), T(1), c.Int(i))
				A = c.Store(A, c.Int(i), at)
				f := c.SplitFrom(T(0), T(1), c.Int(i))
				st.assume(c.Imp(c.Ge(c.StrIndex(f, T(1)), c.Int(0)), c.Eq(f, c.Cat(c.Cat(at, T(1)), c.SplitFrom(T(0), T(1), c.Int(i+1))))))
			}
			A = c.Store(A, c.Int(last), c.SplitFrom(T(0), T(1), c.Int(last)))
			for i := last; i > 0; i-- {
				// no separator in what is left after i-1 of them
				ln = c.Ite(c.Ge(c.StrIndex(c.SplitFrom(T(0), T(1), c.Int(i-1)), T(1)), c.Int(0)), ln, c.Int(i))
			}
			ref := st.newRef()
			n := "E:string:0"
			st.initComp(n, c.Store(st.comp(n, c.ArrS(IntS, A.sort)), ref, A), ref)
			ret(Value{l: []*Term{ref, c.Int(0), ln, ln}})
			return
		}
	case "strings.Join":
		x.raceSlice(fr, st, args[0], false, pos)
		A, _ := x.innerArr(st, types.Typ[types.String], 0, args[0].l[0])
		ret(one(c.Join(A, args[0].l[1], args[0].l[2], T(1))))
		return
	case "strings.HasPrefix":
		if T(1).op == OStr {
			l := c.StrLen(T(0))
			n := c.StrLen(T(1))
			cond := []*Term{c.Ge(l, n)}
			for i := 0; i < len(T(1).name); i++ {
				cond = append(cond, c.Eq(c.StrAt(T(0), c.Int(int64(i))), c.Int(int64(T(1).name[i]))))
			}
			if len(T(1).name) <= 4 {
				ret(one(c.And(cond...)))
				return
			}
		}
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		b := x.load(fr, st, args[0], pos)
		x.store(fr, st, args[0], Value{t: b.t, l: []*Term{c.Cat(b.l[0], T(1))}}, pos)
		ret(one(c.StrLen(T(1))), one(c.Nil()))
		return
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		b := x.load(fr, st, args[0], pos)
		ch := c.App("chr", StrS, T(1))
		if T(1).op == OInt {
			ch = c.Str(string([]byte{byte(T(1).k)}))
		}
		x.store(fr, st, args[0], Value{t: b.t, l: []*Term{c.Cat(b.l[0], ch)}}, pos)
		ret(one(c.Nil()))
		return
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		b := x.load(fr, st, args[0], pos)
		ch := c.App("runestr", StrS, T(1))
		if T(1).op == OInt {
			ch = c.Str(string(rune(T(1).k)))
		}
		x.store(fr, st, args[0], Value{t: b.t, l: []*Term{c.Cat(b.l[0], ch)}}, pos)
		ret(one(c.StrLen(ch)), one(c.Nil()))
		return
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		b := x.load(fr, st, args[0], pos)
		ret(one(b.l[0]))
		return
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		b := x.load(fr, st, args[0], pos)
		ret(one(c.StrLen(b.l[0])))
		return
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		ret()
		return
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		b := x.load(fr, st, args[0], pos)
		x.store(fr, st, args[0], Value{t: b.t, l: []*Term{c.Str("")}}, pos)
		ret()
		return
	case "strconv.Itoa":
		ret(one(c.Itoa(T(0))))
		return
	case "strconv.FormatInt":
		if T(1) == c.Int(10) {
			ret(one(c.Itoa(T(0))))
			return
		}
	case "strconv.ParseInt":
		if T(1) == c.Int(10) && (T(2) == c.Int(0) || T(2) == c.Int(64)) {
			ret(one(c.App("ext!strconv.Atoi!0", IntS, T(0))), one(c.App("ext!strconv.Atoi!1", ValS, T(0))))
			return
		}
	case "fmt.Sprint":
		if v := x.variadic(st, args[0]); v != nil && len(v) == 1 {
			ret(one(x.sprint(st, v[0], "v")))
			return
		}
	case "fmt.Sprintf":
		if v := x.variadic(st, args[1]); v != nil && T(0).op == OStr {
			if r := x.sprintf(st, T(0).name, v); r != nil {
				ret(one(r))
				return
			}
		}
	case "errors.New", "fmt.Errorf":
		ret(one(c.Ctor("vother", c.Int(int64(x.typeID("error:"+name))), st.newRef())))
		return
	case "sort.Strings", "slices.Sort":
		x.sortStrings(fr, st, args[0], pos)
		ret()
		return
	}
	if f := externTab[name]; f != nil {
		f(x, fr, fn, args, pos, st, k)
		return
	}
	if x.pureExtern(fn) {
		x.genericPure(fr, fn, name, args, pos, st, k)
		return
	}
	x.unsup("external function %s at %s", name, x.pos(pos))
}

type extModel func(x *Exec, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, st *State, k cont)

var externTab = map[string]extModel{}

func (x *Exec) pureExtern(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	switch fn.Pkg.Pkg.Path() {
	case "strings", "strconv", "unicode", "unicode/utf8", "math", "path", "path/filepath", "html", "time":
		if fn.Signature.Recv() != nil {
			if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
				return false
			}
		}
		switch fn.Name() {
		case "Sleep", "NewTimer", "NewTicker", "After", "AfterFunc", "Tick", "NewReader", "NewReplacer", "Map", "FieldsFunc":
			return false
		}
		return true
	case "fmt":
		return strings.HasPrefix(fn.Name(), "Sprint")
	case "golang.org/x/text/language":
		return fn.Name() == "Parse" || fn.Name() == "Make" || fn.Name() == "String"
	}
	return false
}

// genericPure: a deterministic function of its arguments.
func (x *Exec) genericPure(fr *Frame, fn *ssa.Function, name string, args []Value, pos token.Pos, st *State, k cont) {
	c := x.c
	var as []*Term
	world := false
	for _, a := range args {
		switch u := a.t.Underlying().(type) {
		case *types.Slice:
			for j := range x.leafSorts(u.Elem()) {
				in, _ := x.innerArr(st, u.Elem(), j, a.l[0])
				as = append(as, in)
			}
			as = append(as, a.l[1], a.l[2])
			if types.IsInterface(u.Elem()) {
				world = true
			}
		case *types.Interface:
			world = true
			as = append(as, a.l...)
		case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
			x.unsup("external function %s with reference argument at %s", name, x.pos(pos))
		default:
			as = append(as, a.l...)
		}
	}
	if world {
		as = append(as, st.comp("W", WorldS))
	}
	var vals []Value
	n := 0
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		t := fn.Signature.Results().At(i).Type()
		v := Value{t: t}
		if sl, ok := t.Underlying().(*types.Slice); ok {
			// a newly allocated slice with unknown content
			ref := st.newRef()
			for j, s := range x.leafSorts(sl.Elem()) {
				_, nm := x.innerArr(st, sl.Elem(), j, ref)
				as2 := c.ArrS(IntS, s)
				cc := st.comp(nm, c.ArrS(IntS, as2))
				st.initComp(nm, c.Store(cc, ref, c.App(fmt.Sprintf("ext!%s!%d", name, n), as2, as...)), ref)
				n++
			}
			ln := c.App(fmt.Sprintf("ext!%s!%d", name, n), IntS, as...)
			n++
			st.assume(c.Ge(ln, c.Int(0)))
			v.l = []*Term{ref, c.Int(0), ln, ln}
			vals = append(vals, v)
			continue
		}
		for _, s := range x.leafSorts(t) {
			if len(as) == 0 {
				v.l = append(v.l, c.Fresh("ext!"+name, s))
				continue
			}
			v.l = append(v.l, c.App(fmt.Sprintf("ext!%s!%d", name, n), s, as...))
			n++
		}
		vals = append(vals, v)
	}
	k(st, resultValue(fn.Signature, vals))
}

func (x *Exec) typeID(s string) int {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return int(h & 0xffffff)
}

func (x *Exec) newSplit(st *State, s, sep *Term, t types.Type, k cont) {
	c := x.c
	ref := st.newRef()
	n := "E:string:0"
	A := c.App("splitarr", c.ArrS(IntS, StrS), s, sep)
	st.initComp(n, c.Store(st.comp(n, c.ArrS(IntS, A.sort)), ref, A), ref)
	ln := c.App("splitlen", IntS, s, sep)
	st.assume(c.Ge(ln, c.Int(1)))
	k(st, Value{t: t, l: []*Term{ref, c.Int(0), ln, ln}})
}

// variadic returns the elements of a freshly built argument list of known length.
func (x *Exec) variadic(st *State, s Value) []*Term {
	c := x.c
	if len(s.l) != 4 || s.l[2].op != OInt || s.l[2].k > 32 {
		return nil
	}
	et := s.t.Underlying().(*types.Slice).Elem()
	A, _ := x.innerArr(st, et, 0, s.l[0])
	out := []*Term{}
	for i := int64(0); i < s.l[2].k; i++ {
		out = append(out, c.Select(A, c.Add(s.l[1], c.Int(i))))
	}
	return out
}

// sprint: the text fmt produces for one operand.  Strings render as themselves, integers in decimal.
func (x *Exec) sprint(st *State, v *Term, verb string) *Term {
	c := x.c
	if v.op == OIte {
		return c.Ite(v.args[0], x.sprint(st, v.args[1], verb), x.sprint(st, v.args[2], verb))
	}
	if v.op == OCtor {
		switch v.name {
		case "v:string":
			if verb == "v" {
				return v.args[0]
			}
		case "v:int", "v:int8", "v:int16", "v:int32", "v:int64", "v:uint", "v:uint16", "v:uint32", "v:uint64":
			if verb == "v" || !strings.HasPrefix(v.name, "v:u") {
				return c.Itoa(v.args[0])
			}
		case "v:bool":
			return c.Ite(v.args[0], c.Str("true"), c.Str("false"))
		case "vnil":
			return c.Str("<nil>")
		}
	}
	r := c.App("sprint!"+verb, StrS, st.comp("W", WorldS), v)
	if verb == "v" && v.op != OCtor && x.root != nil && x.root.opts["textvalues"] != "" {
		c.declCtor("v:string", []*Sort{StrS})
		r = c.Ite(c.Test("v:string", v), c.Sel("v:string", 0, StrS, v), r)
	}
	return r
}

func (x *Exec) sprintf(st *State, f string, vs []*Term) *Term {
	c := x.c
	r := c.Str("")
	k := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			r = c.Cat(r, c.Str(f[i:j]))
			i = j
			continue
		}
		if i+1 >= len(f) {
			return nil
		}
		switch {
		case f[i+1] == '%':
			r = c.Cat(r, c.Str("%"))
			i += 2
			continue
		case strings.HasPrefix(f[i:], "%#v"):
			if k >= len(vs) {
				return nil
			}
			r = c.Cat(r, x.sprint(st, vs[k], "#v"))
			k++
			i += 3
		case f[i+1] == 'v':
			if k >= len(vs) {
				return nil
			}
			r = c.Cat(r, x.sprint(st, vs[k], "v"))
			k++
			i += 2
		case f[i+1] == 's':
			if k >= len(vs) || vs[k].op != OCtor || vs[k].name != "v:string" {
				return nil
			}
			r = c.Cat(r, vs[k].args[0])
			k++
			i += 2
		case f[i+1] == 'd':
			if k >= len(vs) || vs[k].op != OCtor || !strings.HasPrefix(vs[k].name, "v:int") {
				return nil
			}
			r = c.Cat(r, c.Itoa(vs[k].args[0]))
			k++
			i += 2
		default:
			return nil
		}
	}
	if k != len(vs) {
		return nil
	}
	return r
}

// sortStrings: the slice holds a sorted permutation of what it held.
func (x *Exec) sortStrings(fr *Frame, st *State, s Value, pos token.Pos) {
	c := x.c
	x.raceSlice(fr, st, s, true, pos)
	A, n := x.innerArr(st, types.Typ[types.String], 0, s.l[0])
	B := c.App("sortedArr", A.sort, A, s.l[1], s.l[2])
	cc := st.comp(n, c.ArrS(IntS, A.sort))
	st.setComp(n, c.Store(cc, s.l[0], B), s.l[0])
}
