package xcore_test

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/webability-go/xcore/v2"
	"golang.org/x/text/language"
)

// A model of templates next to the real ones --------------------------------------

type tel struct {
	kind int
	data string
}

type tn struct {
	els    []tel
	subs   map[string]*tn
	father *tn
	real   *xcore.XTemplate
}

func (n *tn) look(name string) *tn {
	for ; n != nil; n = n.father {
		if s := n.subs[name]; s != nil {
			return s
		}
	}
	return nil
}

func (n *tn) String() string {
	s := "{"
	for _, e := range n.els {
		s += fmt.Sprintf("%s%q ", []string{"text", "comment", "##", "&&", "@@", "??", "!!", "var"}[e.kind], e.data)
	}
	for _, k := range tnames(n.subs) {
		s += fmt.Sprintf("[[%s]]%s ", k, n.subs[k])
	}
	return strings.TrimSpace(s) + "}"
}

func tnames(m map[string]*tn) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// build makes the real template tree.
func (n *tn) build(rng *rand.Rand, father *xcore.XTemplate) *xcore.XTemplate {
	if n.real != nil {
		return n.real
	}
	var root xcore.XTemplateData
	for _, e := range n.els {
		root = append(root, xcore.XTemplateParam{ParamType: e.kind, Data: e.data})
	}
	n.real = &xcore.XTemplate{Name: "n" + strconv.Itoa(rng.Intn(100)), Root: &root, Father: father}
	if len(n.subs) > 0 || rng.Intn(4) == 0 {
		n.real.SubTemplates = map[string]*xcore.XTemplate{}
	}
	for _, k := range tnames(n.subs) {
		n.real.SubTemplates[k] = n.subs[k].build(rng, n.real)
	}
	return n.real
}

// snap describes everything reachable from a template, identities included.
func snap(t *xcore.XTemplate) string {
	s := fmt.Sprintf("%p %q father %p root %p ", t, t.Name, t.Father, t.Root)
	if t.Root != nil {
		s += fmt.Sprintf("%v ", []xcore.XTemplateParam(*t.Root))
	}
	if t.SubTemplates == nil {
		return s + "no map"
	}
	var ks []string
	for k := range t.SubTemplates {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if t.SubTemplates[k] == nil {
			s += fmt.Sprintf("%q:nil ", k)
			continue
		}
		s += fmt.Sprintf("%q:(%s) ", k, snap(t.SubTemplates[k]))
	}
	return s
}

// C15 -----------------------------------------------------------------------------

func inClass(c byte, more string) bool {
	return c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || strings.IndexByte(more, c) >= 0
}

const upper = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

// scanTag recognises the tag that starts at p: kind, text inside and where it ends.
func scanTag(s string, p int) (kind int, inner string, end int, ok bool) {
	eol := func(q int) int {
		if q < len(s) && (s[q] == '\n' || s[q] == '\r') {
			return q + 1
		}
		return q
	}
	if strings.HasPrefix(s[p:], "%--") {
		q := strings.Index(s[p+3:], "--%")
		if q < 0 {
			return
		}
		return xcore.MetaComment, s[p+3 : p+3+q], eol(p + 3 + q + 3), true
	}
	if strings.HasPrefix(s[p:], "[[]]") {
		return xcore.MetaTemplateEnd, "", eol(p + 4), true
	}
	for _, k := range []struct {
		open, close, class string
		kind               int
	}{
		{"##", "##", upper + "-_.", xcore.MetaLanguage},
		{"&&", "&&", upper + "-_=>:|.", xcore.MetaReference},
		{"@@", "@@", upper + "-_=>:|.", xcore.MetaRange},
		{"??", "??", upper + "-_=>:|.", xcore.MetaCondition},
		{"!!", "!!", upper + "-_=>:|.", xcore.MetaDump},
		{"{{", "}}", upper + "-_=>:|.", xcore.MetaVariable},
		{"[[", "]]", "|.-_", xcore.MetaTemplateStart},
	} {
		if !strings.HasPrefix(s[p:], k.open) {
			continue
		}
		q := p + 2
		for q < len(s) && inClass(s[q], k.class) {
			q++
		}
		if q == p+2 || !strings.HasPrefix(s[q:], k.close) {
			return
		}
		end := q + 2
		if k.kind == xcore.MetaTemplateStart {
			end = eol(end)
		}
		return k.kind, s[p+2 : q], end, true
	}
	return
}

// parse is the meaning of a template text; nil: the section marks do not match.
func parse(s string) *tn {
	root := &tn{}
	cur := root
	type open struct {
		n    *tn
		name string
	}
	var stack []open
	text := ""
	flush := func() {
		if text != "" {
			cur.els = append(cur.els, tel{xcore.MetaString, text})
			text = ""
		}
	}
	for p := 0; p < len(s); {
		kind, inner, end, ok := scanTag(s, p)
		if !ok {
			text += s[p : p+1]
			p++
			continue
		}
		flush()
		p = end
		switch kind {
		case xcore.MetaTemplateStart:
			stack = append(stack, open{cur, inner})
			cur = &tn{father: cur}
		case xcore.MetaTemplateEnd:
			if len(stack) == 0 {
				return nil
			}
			o := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			ids := []string{}
			for _, id := range strings.Split(o.name, "|") {
				if id != "" {
					ids = append(ids, id)
				}
			}
			for _, id := range ids {
				if o.n.subs == nil {
					o.n.subs = map[string]*tn{}
				}
				o.n.subs[id] = cur
			}
			cur = o.n
		default:
			cur.els = append(cur.els, tel{kind, inner})
		}
	}
	flush()
	if len(stack) > 0 {
		return nil
	}
	return root
}

// tidy joins neighbouring pieces of text: how text is cut into pieces does not matter.
func tidy(l []tel) []tel {
	var out []tel
	for _, e := range l {
		if e.kind == xcore.MetaString {
			if e.data == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].kind == xcore.MetaString {
				out[n-1].data += e.data
				continue
			}
		}
		out = append(out, e)
	}
	return out
}

func sameTree(where string, t *xcore.XTemplate, n *tn) string {
	if t == nil {
		return where + " is nil"
	}
	if t.Root == nil {
		return where + " has no elements list"
	}
	var got []tel
	for _, p := range *t.Root {
		got = append(got, tel{p.ParamType, p.Data})
	}
	g, w := fmt.Sprintf("%q", tidy(got)), fmt.Sprintf("%q", tidy(n.els))
	if g != w {
		return fmt.Sprintf("%s has the elements %s instead of %s", where, g, w)
	}
	for k := range t.SubTemplates {
		if n.subs[k] == nil {
			return fmt.Sprintf("%s has a sub template %q", where, k)
		}
	}
	for _, k := range tnames(n.subs) {
		if t.SubTemplates[k] == nil {
			return fmt.Sprintf("%s has no sub template %q", where, k)
		}
		if f := sameTree(fmt.Sprintf("%s[%q]", where, k), t.SubTemplates[k], n.subs[k]); f != "" {
			return f
		}
	}
	return ""
}

func checkCompile(s string, file bool) string {
	want := parse(s)
	var t *xcore.XTemplate
	var err error
	how := "NewXTemplateFromString"
	if file {
		how = "NewXTemplateFromFile"
		f, e := ioutil.TempFile("", "verif-template-")
		if e != nil {
			return ""
		}
		defer os.Remove(f.Name())
		f.WriteString(s)
		f.Close()
		t, err = xcore.NewXTemplateFromFile(f.Name())
	} else {
		t, err = xcore.NewXTemplateFromString(s)
	}
	if (err != nil) != (want == nil) {
		return fmt.Sprintf("%s(%q): error %v, but the section marks match: %v", how, s, err, want != nil)
	}
	if want == nil {
		return ""
	}
	if f := sameTree("the template", t, want); f != "" {
		return fmt.Sprintf("%s(%q): %s", how, s, f)
	}
	return ""
}

var tsoup = []string{"[[", "]]", "[[]]", "[[a]]", "[[b]]", "[[a|b]]", "[[a||c]]", "[[|]]", "[[|a]]", "[[A]]", "[[a b]]", "[[a.b-c_1]]", "[", "]", "{{", "}}", "{{a}}", "{{a>b}}", "{{a=b:c|d.e}}", "{{}}", "{", "}", "##", "##a##", "##A.b-c_9##", "##a>b##", "#", "&&", "&&a&&", "&&a:b:c&&", "&", "@@", "@@a:b@@", "@", "??", "??a??", "?", "!!", "!!dump!!", "!!list!!", "!", "%--", "--%", "%--x--%", "%----%", "%--[[a]]--%", "%", "--", "-", "\n", "\r", "\r\n", "\n\r", " ", "a", "b", "x", "text", "é", "\xff", "\x00", "|", ".", ":", ">", "%--\n\r--%", "%s", "\\"}

func soup(rng *rand.Rand) (string, string) {
	s := ""
	for i := rng.Intn(14); i >= 0; i-- {
		s += tsoup[rng.Intn(len(tsoup))]
	}
	return fmt.Sprintf("%q", s), checkCompile(s, rng.Intn(100) == 0)
}

func ttext(rng *rand.Rand, depth int) string {
	s := ""
	for i := rng.Intn(6); i >= 0; i-- {
		switch {
		case depth > 0 && rng.Intn(3) == 0:
			name := []string{"a", "b", "c", "a|b", "b|c|a", "a.none", "l.first|l.key.0", "a||b", "|"}[rng.Intn(9)]
			s += "[[" + name + "]]" + []string{"", "\n", "\r", "\r\n", " \n"}[rng.Intn(5)] + ttext(rng, depth-1) + "[[]]" + []string{"", "\n", "\r", "\r\n", " "}[rng.Intn(5)]
		case rng.Intn(3) == 0:
			s += []string{"text", " \n", "é", "x < y", "a%b", "#", "[", "{x}"}[rng.Intn(8)]
		default:
			s += []string{"%-- a [[x]] --%", "%-- b\n --%\n", "##k.1##", "&&a&&", "&&a:b&&", "&&a:b:c&&", "@@l@@", "@@l:a@@", "??a??", "??a:b??", "!!dump!!", "{{a}}", "{{a>b>0>c}}", "{{.counter}}"}[rng.Intn(14)]
		}
	}
	return s
}

func nested(rng *rand.Rand) (string, string) {
	s := ttext(rng, 4)
	switch rng.Intn(6) {
	case 0:
		s = "[[]]" + s
	case 1:
		s += "[[x]]"
	case 2:
		if p := strings.Index(s, "[[]]"); p >= 0 {
			s = s[:p] + s[p+4:]
		}
	}
	return fmt.Sprintf("%q", s), checkCompile(s, false)
}

func TestVerifC15(t *testing.T) {
	var fixed []func() (string, string)
	for _, a := range tsoup {
		for _, b := range append([]string{""}, tsoup...) {
			for _, c := range []string{"", "x", "[[]]", "##", "]]"} {
				s := a + b + c
				fixed = append(fixed, func() (string, string) { return fmt.Sprintf("%q", s), checkCompile(s, false) })
			}
		}
	}
	vrun(t, "all pairs of marks and random texts of marks, tags, sections and pieces of them, compiled and compared with an independent scanner", "15 pieces or 4 levels of sections", fixed, soup, nested)
}

// C16 -----------------------------------------------------------------------------

func names(rng *rand.Rand) (string, string) {
	pool := []string{"a", "b", "c", "", "a.none", "b|c"}
	var real []*xcore.XTemplate
	subs := []map[string]int{}
	father := []int{}
	for i := 2 + rng.Intn(6); i > 0; i-- {
		x := xcore.NewXTemplate()
		x.Name = "t" + strconv.Itoa(len(real))
		real = append(real, x)
		subs = append(subs, map[string]int{})
		father = append(father, -1)
	}
	hist := fmt.Sprintf("%d templates", len(real))
	below := func(i, j int) bool { // is i below or equal to j?
		for ; i >= 0; i = father[i] {
			if i == j {
				return true
			}
		}
		return false
	}
	check := func() string {
		for i := range real {
			for _, n := range pool {
				w := -1
				for j := i; j >= 0 && w < 0; j = father[j] {
					if k, ok := subs[j][n]; ok {
						w = k
					}
				}
				g := real[i].GetTemplate(n)
				if (g == nil) != (w < 0) || w >= 0 && g != real[w] {
					got, want := "nil", "nil"
					if g != nil {
						got = g.Name
					}
					if w >= 0 {
						want = real[w].Name
					}
					return fmt.Sprintf("%s: %s.GetTemplate(%q) = %s, expected %s", hist, real[i].Name, n, got, want)
				}
			}
			if real[i].Name != "t"+strconv.Itoa(i) || real[i].Root != nil {
				return fmt.Sprintf("%s: name or elements of t%d changed", hist, i)
			}
			if (real[i].Father == nil) != (father[i] < 0) || father[i] >= 0 && real[i].Father != real[father[i]] {
				return fmt.Sprintf("%s: t%d is not linked to its parent", hist, i)
			}
			for n := range real[i].SubTemplates {
				if _, ok := subs[i][n]; !ok {
					return fmt.Sprintf("%s: t%d got a sub template %q", hist, i, n)
				}
			}
		}
		return ""
	}
	for k := 2 + rng.Intn(10); k > 0; k-- {
		i, j := rng.Intn(len(real)), rng.Intn(len(real))
		if below(i, j) {
			continue
		}
		n := pool[rng.Intn(len(pool))]
		hist += fmt.Sprintf(", t%d.AddTemplate(%q, t%d)", i, n, j)
		real[i].AddTemplate(n, real[j])
		subs[i][n] = j
		father[j] = i
		if f := check(); f != "" {
			return hist, f
		}
	}
	return hist, ""
}

// the sections of a text resolve names as their nesting says
func sections(rng *rand.Rand) (string, string) {
	s := ttext(rng, 4)
	n := parse(s)
	t, err := xcore.NewXTemplateFromString(s)
	if n == nil || err != nil || sameTree("t", t, n) != "" {
		return "", "" // not compiled as it should: another property
	}
	n.real = t
	all := []*tn{n}
	var pair func(n *tn)
	pair = func(n *tn) {
		for _, k := range tnames(n.subs) {
			c := n.subs[k]
			if c.real == nil {
				c.real = n.real.SubTemplates[k]
				all = append(all, c)
				pair(c)
			}
		}
	}
	pair(n)
	for _, c := range all {
		for _, k := range []string{"a", "b", "c", "a.none", "l.first", "l.key.0", "x", ""} {
			w := c.look(k)
			g := c.real.GetTemplate(k)
			if (w == nil) != (g == nil) || w != nil && w.real != g {
				return fmt.Sprintf("%q", s), fmt.Sprintf("%q: from section %s the name %q resolves to %v, expected %v", s, c, k, g, w)
			}
		}
	}
	return fmt.Sprintf("%q", s), ""
}

func TestVerifC16(t *testing.T) {
	vrun(t, "histories of AddTemplate on several templates, and nested sections of compiled texts, with every name looked up from everywhere", "7 templates, 12 steps, 6 names", nil, names, sections)
}

// C17, C18 ------------------------------------------------------------------------

var tkeys = []string{"a", "b", "c", "l", "m"}

// few: names are taken from small pools, so that they meet more often
func tset(rng *rand.Rand, depth int, few bool) *dm {
	n := newSet([]string{"", "", "", "ts", "own"}[rng.Intn(5)])
	keys := tkeys
	if few {
		keys = []string{"a", "l"}
	}
	for i := rng.Intn(5); i >= 0; i-- {
		k := keys[rng.Intn(len(keys))]
		if rng.Intn(30) == 0 {
			k = ".counter"
		}
		if k == "l" && depth > 0 || k == "m" && depth > 0 && rng.Intn(2) == 0 {
			n.put(k, tcoll(rng, depth-1, few))
			continue
		}
		switch rng.Intn(5) {
		case 0, 1, 2:
			n.put(k, []interface{}{"x", "", "y", 1, 0, true, nil, "b", "none", "a"}[rng.Intn(10)])
		case 3:
			if depth > 0 {
				n.put(k, tset(rng, depth-1, few))
			}
		default:
			n.put(k, dleaf(rng))
		}
	}
	return n
}

func tcoll(rng *rand.Rand, depth int, few bool) *dc {
	c := newColl([]string{"", "", "ts"}[rng.Intn(3)])
	for i := rng.Intn(5); i > 0; i-- {
		c.push(tset(rng, depth, few))
	}
	return c
}

var tpaths = []string{"a", "b", "c", "l", "m", "a", "l", "m", "a>b", "l>0", "l>0>a", "m>1>l", "a>l", ".counter", "zz", "", "a>"}
var tbase = []string{"a", "b", "l", "x", "m"}
var tsuffix = []string{"", "", "", ".none", ".first", ".last", ".even", ".key.0", ".key.1", ".key.2", ".x", ".y", ".array", ".1", ".true", ".0", "x", "1", ".odd", ".key.01"}

func ttree(rng *rand.Rand, depth int, father *tn, few bool) *tn {
	n := &tn{father: father}
	tpaths, tbase := tpaths, tbase
	if few {
		tpaths, tbase = []string{"a", "a", "a", "l", "a>a", "l>0", ".counter", "zz"}, []string{"a", "l"}
	}
	pick := func(l []string) string { return l[rng.Intn(len(l))] }
	for i := rng.Intn(5); i > 0; i-- {
		kind := rng.Intn(8)
		if father != nil && (kind == 3 || kind == 4 || kind == 5) && rng.Intn(3) > 0 {
			kind = 7 // few references below the top, they may be circular
		}
		e := tel{kind: kind}
		switch kind {
		case xcore.MetaString, xcore.MetaComment:
			e.data = pick([]string{"<", "text", "", " ", "%s", "é"})
		case xcore.MetaLanguage:
			e.data = pick([]string{"k1", "k2", "zz", ""})
		case xcore.MetaVariable:
			e.data = pick(tpaths)
		case xcore.MetaDump:
			e.data = pick([]string{"dump", "list", "other", "DUMP"})
		case xcore.MetaReference:
			e.data = pick([]string{pick(tbase), pick(tbase) + ":" + pick(tpaths), "q:" + pick(tpaths) + ":" + pick(tbase), pick(tbase) + ":a:b:c", ":", ""})
		default:
			e.data = pick([]string{pick(tbase), pick(tbase), pick(tpaths) + ":" + pick(tbase), pick(tpaths) + ":" + pick(tbase), "l:x:y", ":" + pick(tbase), "l:"})
		}
		n.els = append(n.els, e)
	}
	if depth > 0 {
		for i := rng.Intn(9); i > 0; i-- {
			if n.subs == nil {
				n.subs = map[string]*tn{}
			}
			name := pick(tbase) + pick(tsuffix)
			c := ttree(rng, depth-1-rng.Intn(depth), n, few)
			if rng.Intn(3) > 0 {
				c.els = append([]tel{{xcore.MetaString, "<" + name + ">"}}, c.els...)
			}
			n.subs[name] = c
			if rng.Intn(3) == 0 {
				n.subs[pick(tbase)+pick(tsuffix)] = c
			}
		}
	}
	return n
}

// tplain: a small template over few names, where most combinations mean something
func tplain(rng *rand.Rand) *tn {
	n := &tn{subs: map[string]*tn{}}
	top := []tel{
		{0, "-"}, {1, "c"}, {2, "k1"}, {3, "s"}, {3, "s:d"}, {3, "s:a"}, {3, "e:d"}, {3, "e:d"}, {3, "q:a:s"}, {3, "q:no:s"}, {3, "no"}, {3, "s:d:s:s"},
		{4, "l"}, {4, "l:s"}, {4, "no:l"}, {4, "a:l"}, {4, "d>l:l"}, {4, "l:e"}, {4, "l:no"},
		{5, "a"}, {5, "a:s"}, {5, "no:s"}, {5, "d:s"}, {5, "d:e"}, {5, "l:s"}, {5, "a:no"}, {5, "l>0:s"},
		{6, "dump"}, {6, "list"}, {6, "x"}, {7, "a"}, {7, "a"}, {7, "d>a"}, {7, "b"}, {7, ".counter"}, {7, "l>1>a"},
	}
	for i := 1 + rng.Intn(3); i > 0; i-- {
		n.els = append(n.els, top[rng.Intn(len(top))])
	}
	body := [][]tel{{}, {{7, "a"}}, {{7, "a"}, {7, "b"}}, {{7, ".counter"}}, {{7, "no"}}, {{2, "k1"}}, {{6, "dump"}}, {{3, "e:d"}, {7, "a"}}, {{5, "a:e"}, {7, "a"}}, {{4, "l:e"}, {7, "a"}}}
	for _, b := range []string{"s", "l", "a", "d"} {
		for _, x := range []string{"", "", ".none", ".first", ".last", ".even", ".key.0", ".key.1", ".x", ".1", ".array", "x", "1"} {
			p := 3
			if x == "" {
				p = 1
			}
			if rng.Intn(2+p) > 1 {
				continue
			}
			c := &tn{father: n, els: body[rng.Intn(len(body))]}
			if rng.Intn(2) == 0 {
				c.els = append([]tel{{0, "<" + b + x + ">"}}, c.els...)
			}
			n.subs[b+x] = c
		}
	}
	n.subs["e"] = &tn{father: n}
	if rng.Intn(2) == 0 {
		n.subs["e"].els = []tel{{7, "b"}}
	}
	return n
}

func tplainData(rng *rand.Rand, depth int) *dm {
	n := newSet([]string{"", "", "", "ts", "own"}[rng.Intn(5)])
	if rng.Intn(5) > 0 {
		n.put("a", []interface{}{"x", "y", "", 1, 0, nil, true}[rng.Intn(7)])
	}
	if rng.Intn(3) == 0 {
		n.put("b", []interface{}{"B", "", nil, 2}[rng.Intn(4)])
	}
	if depth > 0 && rng.Intn(3) > 0 {
		n.put("d", tplainData(rng, depth-1))
	}
	if depth > 0 && rng.Intn(3) > 0 {
		c := newColl([]string{"", "", "ts"}[rng.Intn(3)])
		for i := rng.Intn(5); i > 0; i-- {
			c.push(tplainData(rng, depth-1))
		}
		n.put("l", c)
	}
	return n
}

// orc renders according to the documentation, on its own copy of the data.
type orc struct {
	lang  map[string]string
	left  int
	depth int
}

type tooLong struct{}

func (o *orc) get(scope []*dm, key string) interface{} {
	for i := len(scope) - 1; i >= 0; i-- {
		if v, ok := scope[i].get(key); ok {
			return v
		}
	}
	return nil
}
func (o *orc) str(v interface{}) string {
	if v == nil {
		return ""
	}
	return fmt.Sprint(dreal(v))
}

func (o *orc) render(n *tn, scope []*dm) string {
	o.depth++
	defer func() { o.depth-- }()
	out := ""
	for _, e := range n.els {
		if o.left--; o.left < 0 || o.depth > 30 || len(out) > 100000 {
			panic(tooLong{})
		}
		parts := strings.Split(e.data, ":")
		id, sub := parts[0], parts[0]
		if len(parts) > 1 {
			sub = parts[1]
		}
		switch e.kind {
		case xcore.MetaString:
			out += e.data
		case xcore.MetaLanguage:
			out += o.lang[e.data]
		case xcore.MetaVariable:
			out += o.str(o.get(scope, e.data))
		case xcore.MetaDump:
			if len(scope) > 0 && (e.data == "dump" || e.data == "list") {
				out += scope[0].real.GoString()
			}
		case xcore.MetaReference:
			sc := scope
			var s *tn
			if len(parts) == 3 {
				s = n.look(parts[2] + o.str(o.get(scope, parts[1])))
				if s == nil {
					s = n.look(parts[2])
				}
			} else {
				s = n.look(parts[0])
				if len(parts) == 2 {
					if d, ok := o.get(scope, parts[1]).(*dm); ok {
						sc = append(append([]*dm{}, scope...), d)
					}
				}
			}
			if s != nil {
				out += o.render(s, sc)
			}
		case xcore.MetaRange:
			plain := n.look(sub)
			if plain == nil || len(scope) == 0 {
				continue
			}
			c, _ := o.get(scope, id).(*dc)
			if c == nil || len(c.l) == 0 {
				if s := n.look(sub + ".none"); s != nil {
					plain = s
				}
				out += o.render(plain, scope)
				continue
			}
			for i, d := range c.l {
				try := []string{sub + ".key." + strconv.Itoa(i)}
				if i == 0 {
					try = append(try, sub+".first")
				}
				if i == len(c.l)-1 {
					try = append(try, sub+".last")
				}
				if i%2 == 0 {
					try = append(try, sub+".even")
				}
				s := plain
				for _, t := range try {
					if x := n.look(t); x != nil {
						s = x
						break
					}
				}
				d.put(".counter", i+1)
				out += o.render(s, append(append([]*dm{}, scope...), d))
			}
		case xcore.MetaCondition:
			v := o.get(scope, id)
			s := n.look(sub)
			if v == nil || o.str(v) == "" {
				if x := n.look(sub + ".none"); x != nil {
					s = x
				}
				if s != nil {
					out += o.render(s, scope)
				}
				continue
			}
			if s == nil {
				continue
			}
			sc, name := scope, o.str(v)
			if d, ok := v.(*dm); ok {
				sc, name = append(append([]*dm{}, scope...), d), "array"
			}
			if x := n.look(sub + "." + name); x != nil {
				s = x
			}
			out += o.render(s, sc)
		}
	}
	return out
}

// a case: a template tree, data (nil sometimes), what it must render to; ok false: too long or circular
type tcase struct {
	tree  *tn
	data  *dm // given to Execute
	model *dm // its twin, after the rendering
	want  string
	desc  string
}

func tmake(rng *rand.Rand) (c tcase, ok bool) {
	few := rng.Intn(2) == 0
	plain := rng.Intn(2) == 0
	if plain {
		c.tree = tplain(rng)
	} else {
		c.tree = ttree(rng, 1+rng.Intn(2), nil, few)
	}
	c.tree.build(rng, nil)
	seed := rng.Int63()
	lang := map[string]string{}
	mk := func() *dm {
		r := rand.New(rand.NewSource(seed))
		if r.Intn(12) == 0 {
			return nil
		}
		var d *dm
		if plain {
			d = tplainData(r, 2)
		} else {
			d = tset(r, 1+r.Intn(3), few)
		}
		switch r.Intn(4) {
		case 0:
			l := xcore.NewXLanguage("x", language.English)
			for _, k := range []string{"k1", "k2", ""} {
				if r.Intn(2) == 0 {
					lang[k] = "L" + k
					l.Set(k, lang[k])
				}
			}
			d.put("#", tlang{l})
		case 1:
			d.put("#", dleaf(r))
		}
		return d
	}
	c.data, c.model = mk(), mk()
	c.desc = fmt.Sprintf("template %s, data %s", c.tree, c.data.show())
	var scope []*dm
	if c.model != nil {
		scope = []*dm{c.model}
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(tooLong); !is {
				panic(r)
			}
			ok = false
		}
	}()
	c.want = (&orc{lang: lang, left: 2000}).render(c.tree, scope)
	return c, true
}

// tlang stands for a language table among the values.
type tlang struct{ l *xcore.XLanguage }

func (d *dm) show() string {
	if d == nil {
		return "nil"
	}
	return d.String()
}

func (c *tcase) exec() string {
	if c.data == nil {
		return c.tree.real.Execute(nil)
	}
	return c.tree.real.Execute(c.data.real)
}

func rendering(rng *rand.Rand) (string, string) {
	c, ok := tmake(rng)
	if !ok {
		return "", ""
	}
	got := ""
	if p := vcall(func() { got = c.exec() }); p != "" {
		return c.desc, c.desc + ": Execute: " + p
	}
	if got != c.want {
		return c.desc, fmt.Sprintf("%s: Execute = %q, expected %q", c.desc, got, c.want)
	}
	return c.desc, ""
}

func TestVerifC17(t *testing.T) {
	vrun(t, "random template trees rendered with random nested data, or none, against an independent interpreter of the meta language", "3 levels of sub templates, data of depth 4, 2000 element renderings", nil, rendering)
}

// sameData: the data are what they were, but for the counters of its twin.
func sameData(a, b *dm) string {
	for k, v := range a.m {
		w := b.m[k]
		if k == ".counter" {
			continue
		}
		g, ok := a.real.Get(k)
		if strings.Contains(k, ">") {
			continue
		}
		if !ok || !same(g, v) {
			return fmt.Sprintf("%q became %s, was %s", k, dshow(g), dshow(v))
		}
		switch x := v.(type) {
		case *dm:
			if f := sameData(x, w.(*dm)); f != "" {
				return k + ">" + f
			}
		case *dc:
			y := w.(*dc)
			if x.real.Count() != len(x.l) {
				return fmt.Sprintf("%q has %d elements, had %d", k, x.real.Count(), len(x.l))
			}
			for i, e := range x.l {
				if g, ok := x.real.Get(i); !ok || g != e.real {
					return fmt.Sprintf("element %d of %q was replaced", i, k)
				}
				if f := sameData(e, y.l[i]); f != "" {
					return fmt.Sprintf("%s>%d>%s", k, i, f)
				}
			}
		}
	}
	gv, gok := a.real.Get(".counter")
	wv, wok := b.m[".counter"]
	if _, is := wv.(int); !is {
		wv = a.m[".counter"] // not set by a loop
	}
	if gok != wok || !same(gv, wv) {
		return fmt.Sprintf(".counter is %s, %v; expected %s, %v", dshow(gv), gok, dshow(wv), wok)
	}
	if x, ok := a.real.(*xcore.XDataset); ok && len(*x) != len(b.m) {
		return fmt.Sprintf("%d keys instead of %d", len(*x), len(b.m))
	}
	return ""
}

func harmless(rng *rand.Rand) (string, string) {
	c, ok := tmake(rng)
	if !ok {
		return "", ""
	}
	before := snap(c.tree.real)
	got := ""
	if p := vcall(func() { got = c.exec() }); p != "" {
		return c.desc, c.desc + ": Execute: " + p
	}
	if after := snap(c.tree.real); after != before {
		return c.desc, fmt.Sprintf("%s: Execute changed the template from %s to %s", c.desc, before, after)
	}
	if c.data != nil {
		if f := sameData(c.data, c.model); f != "" {
			return c.desc, c.desc + ": Execute changed the data: " + f
		}
	}
	_ = got
	return c.desc, ""
}

// one template executed by many goroutines, each with its own data
func together(rng *rand.Rand) (string, string) {
	few := rng.Intn(2) == 0
	tree := ttree(rng, 2, nil, few)
	tree.build(rng, nil)
	before := snap(tree.real)
	var cs []*dm
	var want []string
	for i := 0; i < 4; i++ {
		seed := rng.Int63()
		a, b := tset(rand.New(rand.NewSource(seed)), 2, few), tset(rand.New(rand.NewSource(seed)), 2, few)
		w, ok := "", false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(tooLong); !is {
						panic(r)
					}
				}
			}()
			w = (&orc{left: 500}).render(tree, []*dm{b})
			ok = true
		}()
		if ok {
			cs = append(cs, a)
			want = append(want, w)
		}
	}
	got := make([]string, len(cs))
	fails := make([]string, len(cs))
	var wg sync.WaitGroup
	for i := range cs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if p := vcall(func() { got[i] = tree.real.Execute(cs[i].real) }); p != "" {
				fails[i] = "Execute: " + p
			}
		}(i)
	}
	wg.Wait()
	desc := "template " + tree.String() + " executed by " + strconv.Itoa(len(cs)) + " goroutines"
	for i := range cs {
		if fails[i] != "" {
			return desc, desc + " with " + cs[i].String() + ": " + fails[i]
		}
		if got[i] != want[i] {
			return desc, fmt.Sprintf("%s: with %s one got %q, expected %q", desc, cs[i], got[i], want[i])
		}
	}
	if after := snap(tree.real); after != before {
		return desc, fmt.Sprintf("%s: the template changed from %s to %s", desc, before, after)
	}
	return desc, ""
}

func TestVerifC18(t *testing.T) {
	vrun(t, "random template trees rendered with random nested data, or none: no panic, template and data (but the loop counters) unchanged; and executed by several goroutines", "3 levels of sub templates, data of depth 4, 4 goroutines", nil, harmless, harmless, together)
}

// C19 -----------------------------------------------------------------------------

// alike: the clone tree matches the original's model and shares nothing with it.
func alike(where string, c *xcore.XTemplate, n *tn, old map[interface{}]bool) string {
	if c == nil {
		return where + " is nil"
	}
	if old[c] {
		return where + " is an object of the original"
	}
	if c.Name != n.real.Name {
		return fmt.Sprintf("%s is named %q instead of %q", where, c.Name, n.real.Name)
	}
	if (c.Root == nil) != (n.real.Root == nil) {
		return where + ": elements list missing or made up"
	}
	if c.Root != nil {
		if old[c.Root] {
			return where + " shares its elements list"
		}
		if g, w := fmt.Sprintf("%q", *c.Root), fmt.Sprintf("%q", *n.real.Root); g != w {
			return fmt.Sprintf("%s has the elements %s instead of %s", where, g, w)
		}
		for i := range *c.Root {
			if old[&(*c.Root)[i]] {
				return where + " shares its elements"
			}
		}
	}
	if len(c.SubTemplates) != len(n.subs) {
		return fmt.Sprintf("%s has %d sub templates instead of %d", where, len(c.SubTemplates), len(n.subs))
	}
	for _, k := range tnames(n.subs) {
		s := c.SubTemplates[k]
		if f := alike(fmt.Sprintf("%s[%q]", where, k), s, n.subs[k], old); f != "" {
			return f
		}
		if s.Father != c {
			return fmt.Sprintf("%s[%q] is not linked to its parent", where, k)
		}
	}
	return ""
}

func olds(n *tn, old map[interface{}]bool) {
	old[n.real] = true
	if n.real.Root != nil {
		old[n.real.Root] = true
		for i := range *n.real.Root {
			old[&(*n.real.Root)[i]] = true
		}
	}
	for _, c := range n.subs {
		olds(c, old)
	}
}

func treeCloning(rng *rand.Rand) (string, string) {
	tree := ttree(rng, 3, nil, false)
	tree.build(rng, nil)
	var trim func(n *tn)
	trim = func(n *tn) {
		if rng.Intn(10) == 0 {
			n.real.Root = nil
			n.els = nil
		} else if rng.Intn(10) == 0 {
			n.real.Root = &xcore.XTemplateData{}
			n.els = nil
		}
		for _, k := range tnames(n.subs) {
			trim(n.subs[k])
		}
	}
	trim(tree)
	var outer *xcore.XTemplate
	if rng.Intn(3) == 0 {
		outer = xcore.NewXTemplate()
		outer.AddTemplate("outer", tree.real)
	}
	desc := "template " + tree.String()
	before := snap(tree.real)
	cl := tree.real.Clone()
	if after := snap(tree.real); after != before {
		return desc, fmt.Sprintf("%s: Clone changed the original from %s to %s", desc, before, after)
	}
	old := map[interface{}]bool{}
	olds(tree, old)
	if f := alike("the clone", cl, tree, old); f != "" {
		return desc, desc + ": " + f
	}
	if cl.Father != outer {
		return desc, desc + ": the clone is not linked to the enclosing template of the original"
	}
	// what is done to the clone stays there
	var scribble func(t *xcore.XTemplate)
	scribble = func(t *xcore.XTemplate) {
		if t.Root != nil {
			for i := range *t.Root {
				(*t.Root)[i].Data += "!"
			}
			*t.Root = append(*t.Root, xcore.XTemplateParam{Data: "more"})
		}
		for _, s := range t.SubTemplates {
			if len(s.Name) > 0 && s.Name[0] != '*' {
				s.Name = "*" + s.Name
				scribble(s)
			}
		}
		t.AddTemplate("new", &xcore.XTemplate{})
	}
	scribble(cl)
	if after := snap(tree.real); after != before {
		return desc, fmt.Sprintf("%s: changing the clone changed the original from %s to %s", desc, before, after)
	}
	cl = tree.real.Clone()
	b := snap(cl)
	scribble(tree.real)
	if after := snap(cl); after != b {
		return desc, fmt.Sprintf("%s: changing the original changed the clone from %s to %s", desc, b, after)
	}
	return desc, ""
}

func TestVerifC19(t *testing.T) {
	vrun(t, "random template trees cloned; structure, links and independence compared, then each of the two changed all over", "4 levels of sub templates", nil, treeCloning)
}

// C20 -----------------------------------------------------------------------------

func printedSet(n *dm, verb string) string {
	var l []string
	for k, v := range n.m {
		l = append(l, k+":"+fmt.Sprintf(verb, dreal(v)))
	}
	sort.Strings(l)
	s := "xcore.XDataset{" + strings.Join(l, " ") + "}"
	if verb == "%#v" {
		s = "#" + s
	}
	return s
}

// dtext: a value with a printed form of its own, the same for both verbs
type dtext string

func (t dtext) String() string   { return string(t) }
func (t dtext) GoString() string { return string(t) }

func printing(rng *rand.Rand) (string, string) {
	n := dset(rng, 2)
	for i := rng.Intn(8); i > 0; i-- {
		k := string(rune('a'+rng.Intn(6))) + []string{"", " ", ":", "é", "#"}[rng.Intn(5)]
		if rng.Intn(3) == 0 {
			n.put(k, dtext([]string{"", " ", "x ", " x", "a  b", "\n", "}", "{a:1}", ":", "%d", "é "}[rng.Intn(11)]))
			continue
		}
		n.put(k, dvalue(rng, 1))
	}
	desc := n.String()
	for i := 0; i < 3; i++ {
		if g, w := n.real.String(), printedSet(n, "%v"); g != w {
			return desc, fmt.Sprintf("%s: String() = %q, expected %q", desc, g, w)
		}
		if g, w := n.real.GoString(), printedSet(n, "%#v"); g != w {
			return desc, fmt.Sprintf("%s: GoString() = %q, expected %q", desc, g, w)
		}
	}
	// the same content entered in another order
	m := newSet(n.kind)
	var ks []string
	for k := range n.m {
		ks = append(ks, k)
	}
	rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	for _, k := range ks {
		m.put(k, n.m[k])
	}
	if g, w := m.real.String(), n.real.String(); g != w {
		return desc, fmt.Sprintf("%s: equal contents print %q and %q", desc, g, w)
	}
	if g, w := m.real.GoString(), n.real.GoString(); g != w {
		return desc, fmt.Sprintf("%s: equal contents print %q and %q", desc, g, w)
	}
	return desc, ""
}

func printingList(rng *rand.Rand) (string, string) {
	c := newColl([]string{"", "ts"}[rng.Intn(2)])
	for i := rng.Intn(14); i > 0; i-- {
		c.push(dset(rng, 1))
	}
	desc := c.String()
	w := "XDatasetCollection["
	if c.kind == "ts" {
		w = "XDatasetCollectionTS["
	}
	for i, e := range c.l {
		w += strconv.Itoa(i) + ":" + printedSet(e, "%v") + " "
	}
	w += "]"
	type printer interface {
		String() string
		GoString() string
	}
	p := c.real.(printer)
	if g := p.String(); g != w {
		return desc, fmt.Sprintf("%s: String() = %q, expected %q", desc, g, w)
	}
	if g := p.GoString(); g != w {
		return desc, fmt.Sprintf("%s: GoString() = %q, expected %q", desc, g, w)
	}
	return desc, ""
}

func printingTable(rng *rand.Rand) (string, string) {
	lg := []language.Tag{language.English, language.Spanish, language.MustParse("es-MX")}[rng.Intn(3)]
	name := []string{"x", "", "a b"}[rng.Intn(3)]
	l := xcore.NewXLanguage(name, lg)
	ents, sts := map[string]string{}, map[string]string{}
	for i := rng.Intn(9); i > 0; i-- {
		k := []string{"a", "b", "c", "a b", "a:", "", "é", "k1", "k10", "k2"}[rng.Intn(10)]
		v := []string{"", "v", "w x", "\"q\"", "<b>", "é\n", " v ", "%d"}[rng.Intn(8)]
		ents[k] = v
		l.Set(k, v)
		if rng.Intn(2) == 0 {
			sts[k] = []string{"ok", "new", ""}[rng.Intn(3)]
			l.SetStatus(k, sts[k])
		}
		if rng.Intn(6) == 0 {
			delete(ents, k)
			delete(sts, k)
			l.Del(k)
		}
	}
	if rng.Intn(4) == 0 {
		sts["only"] = "x"
		l.SetStatus("only", "x")
	}
	desc := fmt.Sprintf("table %q %v entries %q status %q", name, lg, ents, sts)
	var x, s, g []string
	for k, v := range ents {
		x = append(x, "  <entry id=\""+k+"\" status=\""+sts[k]+"\"><![CDATA["+v+"]]></entry>")
		s = append(s, k+":"+v)
		g = append(g, k+":"+fmt.Sprintf("%#v", v))
	}
	sort.Strings(x)
	sort.Strings(s)
	sort.Strings(g)
	for i := 0; i < 3; i++ {
		if got, w := l.String(), "xcore.XLanguage{"+strings.Join(s, " ")+"}"; got != w {
			return desc, fmt.Sprintf("%s: String() = %q, expected %q", desc, got, w)
		}
		if got, w := l.GoString(), "#xcore.XLanguage{"+strings.Join(g, " ")+"}"; got != w {
			return desc, fmt.Sprintf("%s: GoString() = %q, expected %q", desc, got, w)
		}
		if got, w := l.GetXML(), "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n<language id=\""+name+"\" lang=\""+fmt.Sprint(lg)+"\">\n"+strings.Join(x, "\n")+"\n</language>"; got != w {
			return desc, fmt.Sprintf("%s: GetXML() = %q, expected %q", desc, got, w)
		}
	}
	return desc, ""
}

func TestVerifC20(t *testing.T) {
	vrun(t, "random data sets, collections and language tables printed several times and from contents entered in another order, against an independent rendering", "13 entries or elements, depth 3", nil, printing, printingList, printingTable)
}
