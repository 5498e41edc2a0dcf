package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// Specification files (*.gspec): definitions, contracts, candidate invariants, monitors.

type Param struct {
	name string
	typ  string
}

type Macro struct {
	name   string
	params []Param
	res    string
	body   *Expr
	rec    bool
	file   string
	line   int
}

type Clause struct {
	tags  []string
	label string
	e     *Expr
	src   string
	line  int
}

type Contract struct {
	name     string // short function name, e.g. (*XCache).Set
	params   []string
	results  []string
	requires []*Clause
	ensures  []*Clause
	yields   []*Clause
	panics   []*Clause // concurrent mode: a run-time panic happens only then (atacq: when the lock was taken)
	guar     []*Clause // at every release of an exclusive lock; old() is the state at its acquisition
	modifies []*Clause // e.e is a call obj(..), elems(..), map(..), ghost(..)
	lets     []*Clause // label = name
	bagdefs  []*Clause
	bagvars  []Param
	uses     []string
	modular  bool // calls use the contract instead of the body
	aux      bool
	pure     bool
	seq      bool // verify sequentially
	conc     bool
	tags     []string // properties this contract as a whole belongs to (safety, frames)
	trusted  bool
	file     string
	line     int
	opts     map[string]string
}

type CandTmpl struct {
	tags  []string
	grp   string   // group the candidate belongs to
	deps  []string // groups whose members may be used to show it
	metas []Param
	e     *Expr
	src   string
}

type Monitor struct {
	typ     string // struct type name
	lock    string
	self    string
	owns    []*Clause
	inv     []*Clause
	guar    []*Clause
	imm     []string
	entries []string
	file    string
	line    int
	extra   map[string]string
}

type Spec struct {
	macros    map[string]*Macro
	ufuns     map[string]*Macro
	contracts map[string]*Contract
	ifaces    map[string]*Contract
	axioms    []*Clause
	candsets  map[string][]*CandTmpl
	monitors  map[string]*Monitor
	order     []string
}

// ---- expressions ---------------------------------------------------------------------------

type Expr struct {
	op   string // int str id call field index slice un bin cond forall exists let typ
	s    string
	k    int64
	args []*Expr
	vars []Param
	typ  string
	line int
	file string
}

type tok struct {
	k    byte // 'i' ident, 'n' int, 's' string, 'o' operator, 0 eof
	s    string
	pos  int
	line int
}

func lex(s string, line int) ([]tok, error) {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "(", ")", "[", "]", "{", "}", ",", ".", ":", "?", "+", "-", "*", "/", "%", "<", ">", "!", "=", "@"}
	for i < len(s) {
		ch := s[i]
		if ch == '\n' {
			line++
			i++
			continue
		}
		if ch == ' ' || ch == '\t' || ch == '\r' {
			i++
			continue
		}
		if unicode.IsLetter(rune(ch)) || ch == '_' || ch == '\'' {
			j := i + 1
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '\'') {
				j++
			}
			out = append(out, tok{'i', s[i:j], i, line})
			i = j
			continue
		}
		if unicode.IsDigit(rune(ch)) {
			j := i + 1
			for j < len(s) && unicode.IsDigit(rune(s[j])) {
				j++
			}
			out = append(out, tok{'n', s[i:j], i, line})
			i = j
			continue
		}
		if ch == '"' {
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("line %d: unterminated string", line)
			}
			u, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				return nil, fmt.Errorf("line %d: %v", line, err)
			}
			out = append(out, tok{'s', u, i, line})
			i = j + 1
			continue
		}
		found := false
		for _, o := range ops {
			if strings.HasPrefix(s[i:], o) {
				out = append(out, tok{'o', o, i, line})
				i += len(o)
				found = true
				break
			}
		}
		if !found {
			return nil, fmt.Errorf("line %d: unexpected character %q", line, ch)
		}
	}
	out = append(out, tok{0, "", len(s), line})
	return out, nil
}

type parser struct {
	src  string
	toks []tok
	p    int
	file string
}

func (p *parser) cur() tok { return p.toks[p.p] }
func (p *parser) fail(f string, a ...any) {
	panic(fmt.Errorf("%s:%d: %s (near %q)", p.file, p.cur().line, fmt.Sprintf(f, a...), p.cur().s))
}
func (p *parser) is(s string) bool { t := p.cur(); return (t.k == 'o' || t.k == 'i') && t.s == s }
func (p *parser) acc(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) exp(s string) {
	if !p.acc(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	t := p.cur()
	if t.k != 'i' {
		p.fail("expected identifier")
	}
	p.p++
	return t.s
}

// typeText reads raw type text up to one of the given terminators at nesting depth 0.
func (p *parser) typeText(stops ...string) string {
	start := p.cur().pos
	d := 0
	for {
		t := p.cur()
		if t.k == 0 {
			p.fail("unterminated type")
		}
		if d == 0 && (t.k == 'o' || t.s == "by") {
			for _, s := range stops {
				if t.s == s {
					return strings.TrimSpace(p.src[start:t.pos])
				}
			}
		}
		if t.k == 'o' {
			switch t.s {
			case "(", "[", "{":
				d++
			case ")", "]", "}":
				d--
			}
		}
		p.p++
	}
}

func (p *parser) params(stops ...string) []Param {
	var out []Param
	for {
		n := p.ident()
		t := p.typeText(append([]string{","}, stops...)...)
		out = append(out, Param{n, t})
		if !p.acc(",") {
			break
		}
	}
	// "a, b T" style: an empty type takes the next one
	for i := len(out) - 2; i >= 0; i-- {
		if out[i].typ == "" {
			out[i].typ = out[i+1].typ
		}
	}
	return out
}

func (p *parser) mk(op string, args ...*Expr) *Expr {
	return &Expr{op: op, args: args, line: p.cur().line, file: p.file}
}

func (p *parser) expr() *Expr {
	if p.is("forall") || p.is("exists") {
		op := p.ident()
		vs := p.params("::", "by")
		var by []*Expr
		if p.is("by") {
			p.p++
			for {
				by = append(by, p.expr())
				if !p.acc(",") {
					break
				}
			}
		}
		p.exp("::")
		b := p.expr()
		e := p.mk(op, append([]*Expr{b}, by...)...)
		e.vars = vs
		return e
	}
	if p.is("let") {
		p.p++
		n := p.ident()
		p.exp("=")
		v := p.expr()
		p.exp("::")
		b := p.expr()
		e := p.mk("let", v, b)
		e.s = n
		return e
	}
	c := p.iff()
	if p.acc("?") {
		a := p.expr()
		p.exp(":")
		b := p.expr()
		return p.mk("cond", c, a, b)
	}
	return c
}
func (p *parser) sub() *Expr {
	if p.is("forall") || p.is("exists") || p.is("let") {
		return p.expr()
	}
	return nil
}
func (p *parser) bin(op string, a, b *Expr) *Expr {
	e := p.mk("bin", a, b)
	e.s = op
	return e
}
func (p *parser) iff() *Expr {
	a := p.imp()
	for p.acc("<==>") {
		a = p.bin("<==>", a, p.imp())
	}
	return a
}
func (p *parser) imp() *Expr {
	a := p.or()
	if p.acc("==>") {
		if e := p.sub(); e != nil {
			return p.bin("==>", a, e)
		}
		return p.bin("==>", a, p.imp())
	}
	return a
}
func (p *parser) or() *Expr {
	a := p.and()
	for p.acc("||") {
		if e := p.sub(); e != nil {
			return p.bin("||", a, e)
		}
		a = p.bin("||", a, p.and())
	}
	return a
}
func (p *parser) and() *Expr {
	a := p.cmp()
	for p.acc("&&") {
		if e := p.sub(); e != nil {
			return p.bin("&&", a, e)
		}
		a = p.bin("&&", a, p.cmp())
	}
	return a
}
func (p *parser) cmp() *Expr {
	a := p.add()
	var res *Expr
	for {
		t := p.cur()
		op := ""
		if t.k == 'o' {
			switch t.s {
			case "==", "!=", "<", "<=", ">", ">=":
				op = t.s
			}
		} else if t.k == 'i' && t.s == "in" {
			op = "in"
		}
		if op == "" {
			break
		}
		p.p++
		b := p.add()
		e := p.bin(op, a, b)
		if res == nil {
			res = e
		} else {
			res = p.bin("&&", res, e)
		}
		a = b
	}
	if res == nil {
		return a
	}
	return res
}
func (p *parser) add() *Expr {
	a := p.mul()
	for p.is("+") || p.is("-") {
		op := p.cur().s
		p.p++
		a = p.bin(op, a, p.mul())
	}
	return a
}
func (p *parser) mul() *Expr {
	a := p.un()
	for p.is("*") || p.is("/") || p.is("%") {
		op := p.cur().s
		p.p++
		a = p.bin(op, a, p.un())
	}
	return a
}
func (p *parser) un() *Expr {
	for _, o := range []string{"!", "-", "*"} {
		if p.is(o) {
			p.p++
			e := p.mk("un", p.un())
			e.s = o
			return e
		}
	}
	return p.post()
}

var typeCalls = map[string]bool{"is": true, "as": true, "zero": true, "box": true, "conv": true, "ext": true, "mcall": true, "wafter": true, "nalloc": true, "allocd": true}

func (p *parser) post() *Expr {
	var a *Expr
	t := p.cur()
	switch {
	case t.k == 'n':
		p.p++
		a = p.mk("int")
		a.k, _ = strconv.ParseInt(t.s, 10, 64)
	case t.k == 's':
		p.p++
		a = p.mk("str")
		a.s = t.s
	case p.acc("("):
		a = p.expr()
		p.exp(")")
	case t.k == 'i':
		p.p++
		if typeCalls[t.s] && p.is("(") {
			p.p++
			e := p.mk("call")
			e.s = t.s
			if t.s == "ext" || t.s == "mcall" || t.s == "wafter" {
				// mcall(I.Method, result, receiver, args...), wafter(I.Method, receiver, args...)
				// ext(T, "function", leaf, args...)
				e.typ = p.typeText(",")
				for p.acc(",") {
					e.args = append(e.args, p.expr())
				}
				p.exp(")")
				a = e
				break
			}
			if t.s != "zero" && t.s != "nalloc" {
				e.args = append(e.args, p.expr())
				p.exp(",")
			}
			e.typ = p.typeText(")")
			p.exp(")")
			a = e
		} else {
			a = p.mk("id")
			a.s = t.s
		}
	default:
		p.fail("unexpected token")
	}
	for {
		switch {
		case p.acc("."):
			e := p.mk("field", a)
			e.s = p.ident()
			a = e
		case p.acc("["):
			if p.acc(":") {
				h := p.expr()
				p.exp("]")
				a = p.mk("slice", a, nil, h)
				continue
			}
			i := p.expr()
			if p.acc(":") {
				if p.acc("]") {
					a = p.mk("slice", a, i, nil)
					continue
				}
				h := p.expr()
				p.exp("]")
				a = p.mk("slice", a, i, h)
				continue
			}
			p.exp("]")
			a = p.mk("index", a, i)
		case p.is("(") && a.op == "id":
			p.p++
			e := p.mk("call")
			e.s = a.s
			for !p.is(")") {
				e.args = append(e.args, p.expr())
				if !p.acc(",") {
					break
				}
			}
			p.exp(")")
			a = e
		default:
			return a
		}
	}
}

// ---- files ----------------------------------------------------------------------------------

var keywords = map[string]bool{"def": true, "rec": true, "ufun": true, "axiom": true, "func": true, "iface": true, "requires": true, "bagdef": true, "ensures": true, "yields": true, "panics": true, "modifies": true,
	"candidate": true, "candset": true, "use": true, "letv": true, "modular": true, "aux": true, "pure": true, "conc": true, "seq": true, "property": true, "monitor": true, "owns": true,
	"invariant": true, "guarantee": true, "immutable": true, "entries": true, "trusted": true, "option": true, "end": true}

func LoadSpecs(dir string) (sp *Spec, err error) {
	sp = &Spec{macros: map[string]*Macro{}, ufuns: map[string]*Macro{}, contracts: map[string]*Contract{}, ifaces: map[string]*Contract{}, candsets: map[string][]*CandTmpl{}, monitors: map[string]*Monitor{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gspec"))
	sort.Strings(fs)
	if len(fs) == 0 {
		return nil, fmt.Errorf("no contracts in %s", dir)
	}
	for _, f := range fs {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		if e := sp.parse(filepath.Base(f), string(b)); e != nil {
			return nil, e
		}
	}
	return sp, nil
}

type rawClause struct {
	kw   string
	text string
	line int
}

func splitClauses(src string) []rawClause {
	var out []rawClause
	for i, l := range strings.Split(src, "\n") {
		// comments
		if k := strings.Index(l, "//"); k >= 0 && strings.Count(l[:k], "\"")%2 == 0 {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			if len(out) > 0 {
				out[len(out)-1].text += "\n"
			}
			continue
		}
		w := t
		for k, r := range t {
			if !unicode.IsLetter(r) {
				w = t[:k]
				break
			}
		}
		if keywords[w] {
			out = append(out, rawClause{w, strings.TrimPrefix(t, w), i + 1})
		} else if len(out) > 0 {
			out[len(out)-1].text += "\n" + l
		}
	}
	return out
}

func (sp *Spec) parse(file, src string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	var ct *Contract
	var mon *Monitor
	cs := ""
	for _, rc := range splitClauses(src) {
		toks, e := lex(rc.text, rc.line)
		if e != nil {
			return fmt.Errorf("%s: %v", file, e)
		}
		p := &parser{src: rc.text, toks: toks, file: file}
		tagsLabel := func() ([]string, string) {
			var tags []string
			if p.acc("[") {
				for !p.acc("]") {
					tags = append(tags, p.ident())
					p.acc(",")
				}
			}
			label := ""
			if p.cur().k == 'i' && p.toks[p.p+1].s == ":" && p.toks[p.p+1].k == 'o' {
				label = p.ident()
				p.p++
			}
			return tags, label
		}
		clause := func() *Clause {
			tags, label := tagsLabel()
			st := p.cur().pos
			c := &Clause{tags: tags, label: label, line: rc.line, e: p.expr()}
			c.src = strings.Join(strings.Fields(rc.text[st:]), " ")
			if p.cur().k != 0 {
				p.fail("trailing text")
			}
			return c
		}
		switch rc.kw {
		case "def", "rec", "ufun":
			m := &Macro{name: p.ident(), file: file, line: rc.line, rec: rc.kw == "rec"}
			if sp.macros[m.name] != nil || sp.ufuns[m.name] != nil {
				p.fail(m.name + " is already defined")
			}
			if p.acc("(") {
				if !p.is(")") {
					m.params = p.params(")")
				}
				p.exp(")")
			}
			if rc.kw == "ufun" {
				m.res = strings.TrimSpace(rc.text[p.cur().pos:])
				sp.ufuns[m.name] = m
				continue
			}
			if !p.is("=") {
				m.res = p.typeText("=")
			}
			p.exp("=")
			m.body = p.expr()
			if p.cur().k != 0 {
				p.fail("trailing text")
			}
			sp.macros[m.name] = m
		case "axiom":
			sp.axioms = append(sp.axioms, clause())
		case "func", "iface":
			// func (*T).M(a, b) (r, s)   |   func F(a)   |   iface T.M(a) (r)
			ct = &Contract{file: file, line: rc.line, opts: map[string]string{}}
			mon = nil
			cs = ""
			txt := strings.TrimSpace(rc.text)
			if rc.kw == "func" && strings.HasPrefix(txt, "(") {
				k := strings.Index(txt, ")")
				ct.name = txt[:k+1]
				txt = txt[k+1:]
			}
			k := strings.Index(txt, "(")
			if k < 0 {
				return fmt.Errorf("%s:%d: bad function header", file, rc.line)
			}
			ct.name += txt[:k]
			rest := txt[k:]
			e1 := strings.Index(rest, ")")
			for _, a := range strings.Split(rest[1:e1], ",") {
				if a = strings.TrimSpace(a); a != "" {
					ct.params = append(ct.params, a)
				}
			}
			rest = strings.TrimSpace(rest[e1+1:])
			if strings.HasPrefix(rest, "(") {
				e2 := strings.Index(rest, ")")
				for _, a := range strings.Split(rest[1:e2], ",") {
					if a = strings.TrimSpace(a); a != "" {
						ct.results = append(ct.results, a)
					}
				}
			}
			if rc.kw == "func" {
				if sp.contracts[ct.name] != nil {
					return fmt.Errorf("%s:%d: second contract for %s", file, rc.line, ct.name)
				}
				sp.contracts[ct.name] = ct
				sp.order = append(sp.order, ct.name)
			} else {
				sp.ifaces[ct.name] = ct
			}
		case "requires":
			ct.requires = append(ct.requires, clause())
		case "panics":
			ct.panics = append(ct.panics, clause())
		case "yields":
			ct.yields = append(ct.yields, clause())
		case "ensures":
			ct.ensures = append(ct.ensures, clause())
		case "modifies":
			tags, _ := tagsLabel()
			for {
				st := p.cur().pos
				e := p.expr()
				ct.modifies = append(ct.modifies, &Clause{tags: tags, e: e, line: rc.line, src: strings.TrimSpace(rc.text[st:p.cur().pos])})
				if !p.acc(",") {
					break
				}
			}
			if ct.opts["modifies"] == "" {
				ct.opts["modifies"] = "yes"
			}
		case "letv":
			n := p.ident()
			p.exp("=")
			ct.lets = append(ct.lets, &Clause{label: n, e: p.expr(), line: rc.line})
		case "bagdef":
			// bagdef f(k K) = e: f(S) is the bag of the texts e for the keys k in S
			n := p.ident()
			p.exp("(")
			ps := p.params(")")
			p.exp(")")
			p.exp("=")
			ct.bagdefs = append(ct.bagdefs, &Clause{label: n, e: p.expr(), line: rc.line})
			ct.bagvars = append(ct.bagvars, ps[0])
		case "use":
			for p.cur().k == 'i' {
				ct.uses = append(ct.uses, p.ident())
				p.acc(",")
			}
		case "modular":
			ct.modular = true
		case "aux":
			ct.aux = true
			ct.modular = true
		case "pure":
			ct.pure = true
			if ct.opts["modifies"] == "" {
				ct.opts["modifies"] = "yes"
			}
		case "trusted":
			ct.trusted = true
		case "seq":
			ct.seq = true
			for p.cur().k == 'i' {
				ct.tags = append(ct.tags, p.ident())
				p.acc(",")
			}
		case "conc":
			ct.conc = true
			for p.cur().k == 'i' {
				ct.opts["conc:"+p.ident()] = "yes"
				p.acc(",")
			}
		case "option":
			n := p.ident()
			ct.opts[n] = strings.TrimSpace(rc.text[p.cur().pos:])
			if ct.opts[n] == "" {
				ct.opts[n] = "yes"
			}
		case "candset":
			cs = p.ident()
			if _, ok := sp.candsets[cs]; !ok {
				sp.candsets[cs] = nil
			}
			ct = nil
		case "candidate":
			cd := &CandTmpl{}
			for p.acc("@") {
				cd.tags = append(cd.tags, p.ident())
			}
			if p.acc("<") {
				cd.grp = p.ident()
				for !p.acc(">") {
					cd.deps = append(cd.deps, p.ident())
				}
			}
			if p.acc("[") {
				cd.metas = p.params("]")
				p.exp("]")
			}
			st := p.cur().pos
			cd.e = p.expr()
			cd.src = strings.Join(strings.Fields(rc.text[st:]), " ")
			if p.cur().k != 0 {
				p.fail("trailing text")
			}
			name := cs
			if ct != nil {
				name = "@" + ct.name
				have := false
				for _, u := range ct.uses {
					if u == name {
						have = true
					}
				}
				if !have {
					ct.uses = append(ct.uses, name)
				}
			}
			sp.candsets[name] = append(sp.candsets[name], cd)
		case "monitor":
			// monitor T(self) lock field
			mon = &Monitor{file: file, line: rc.line, extra: map[string]string{}}
			mon.typ = p.ident()
			p.exp("(")
			mon.self = p.ident()
			p.exp(")")
			mon.lock = p.ident()
			sp.monitors[mon.typ] = mon
			ct = nil
		case "owns":
			for {
				mon.owns = append(mon.owns, &Clause{e: p.expr(), line: rc.line})
				if !p.acc(",") {
					break
				}
			}
		case "entries":
			for p.cur().k == 'i' {
				mon.entries = append(mon.entries, p.ident())
				p.acc(",")
			}
		case "immutable":
			for p.cur().k == 'i' {
				a := p.ident()
				for p.acc(".") {
					a += "." + p.ident()
				}
				mon.imm = append(mon.imm, a)
				p.acc(",")
			}
		case "invariant":
			mon.inv = append(mon.inv, clause())
		case "guarantee":
			if ct != nil {
				ct.guar = append(ct.guar, clause())
			} else {
				mon.guar = append(mon.guar, clause())
			}
		case "end":
			ct, mon = nil, nil
		default:
			return fmt.Errorf("%s:%d: unexpected %s", file, rc.line, rc.kw)
		}
	}
	return nil
}
