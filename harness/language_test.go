package xcore_test

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/text/language"

	xcore "github.com/webability-go/xcore/v2"
)

// lmodel is what a language table should hold.
type lmodel struct {
	name    string
	lang    language.Tag
	e, s    map[string]string
	touched map[string]bool
}

func newLmodel() *lmodel {
	return &lmodel{e: map[string]string{}, s: map[string]string{}, touched: map[string]bool{}}
}

func (m *lmodel) check(l *xcore.XLanguage) string {
	if l.GetName() != m.name || l.Name != m.name {
		return fmt.Sprintf("the name is %q, want %q", l.GetName(), m.name)
	}
	if l.GetLanguage() != m.lang || l.Language != m.lang {
		return fmt.Sprintf("the language is %v, want %v", l.GetLanguage(), m.lang)
	}
	for k := range m.touched {
		if g := l.Get(k); g != m.e[k] {
			return fmt.Sprintf("Get(%q) = %q, want %q", k, g, m.e[k])
		}
		if g := l.GetStatus(k); g != m.s[k] {
			return fmt.Sprintf("GetStatus(%q) = %q, want %q", k, g, m.s[k])
		}
	}
	for _, k := range []string{"never", " ", "\t", "=", "#"} {
		if m.touched[k] {
			continue
		}
		if g := l.Get(k); g != "" {
			return fmt.Sprintf("Get(%q) = %q, which was never set", k, g)
		}
		if g := l.GetStatus(k); g != "" {
			return fmt.Sprintf("GetStatus(%q) = %q, which was never set", k, g)
		}
	}
	es := l.GetEntries()
	if !reflect.DeepEqual(es, m.e) {
		return fmt.Sprintf("GetEntries = %q, want %q", es, m.e)
	}
	return ""
}

func lkey(rng *rand.Rand) string {
	return []string{"a", "b", "", "key", "Key", "k1", "k2", "k 3", "ñ", "a=b"}[rng.Intn(10)]
}
func lval(rng *rand.Rand) string {
	return []string{"", "v", "text", " spaced ", "<b>&amp;</b>", "á", "1", "x=y", fmt.Sprint(rng.Intn(1000))}[rng.Intn(9)]
}

var ltags = []language.Tag{language.Und, language.English, language.Spanish, language.MustParse("es-MX"), language.French}

func langHistory(rng *rand.Rand) (string, string) {
	m := newLmodel()
	var l *xcore.XLanguage
	var desc string
	switch rng.Intn(3) {
	case 0:
		m.name, m.lang = lval(rng), ltags[rng.Intn(len(ltags))]
		l = xcore.NewXLanguage(m.name, m.lang)
		desc = fmt.Sprintf("l := NewXLanguage(%q, %v)", m.name, m.lang)
	case 1:
		l, _ = xcore.NewXLanguageFromString("")
		desc = `l, _ := NewXLanguageFromString("")`
	case 2:
		x := `<language id="n" lang="fr"></language>`
		l, _ = xcore.NewXLanguageFromXMLString(x)
		m.name, m.lang = "n", language.French
		desc = fmt.Sprintf("l, _ := NewXLanguageFromXMLString(%q)", x)
	}
	if l == nil {
		return desc, "no table"
	}
	n := 1 + rng.Intn(14)
	var held []map[string]string
	var want []map[string]string
	for i := 0; i < n; i++ {
		k, v := lkey(rng), lval(rng)
		switch rng.Intn(9) {
		case 0, 1, 2:
			desc += fmt.Sprintf("; Set(%q, %q)", k, v)
			l.Set(k, v)
			m.e[k] = v
			m.touched[k] = true
		case 3, 4:
			desc += fmt.Sprintf("; SetStatus(%q, %q)", k, v)
			l.SetStatus(k, v)
			m.s[k] = v
			m.touched[k] = true
		case 5:
			desc += fmt.Sprintf("; Del(%q)", k)
			l.Del(k)
			delete(m.e, k)
			delete(m.s, k)
			m.touched[k] = true
		case 6:
			desc += fmt.Sprintf("; SetName(%q)", v)
			l.SetName(v)
			m.name = v
		case 7:
			t := ltags[rng.Intn(len(ltags))]
			desc += fmt.Sprintf("; SetLanguage(%v)", t)
			l.SetLanguage(t)
			m.lang = t
		case 8:
			desc += fmt.Sprintf("; e := GetEntries(); e[%q] = %q; delete(e, %q)", k, "new", v)
			e := l.GetEntries()
			if e == nil {
				return desc, "GetEntries returned nil"
			}
			e[k] = "new"
			delete(e, v)
			for x := range m.e {
				e[x] += "!"
			}
			m.touched[k], m.touched[v] = true, true
			held = append(held, e)
			c := map[string]string{}
			for x, y := range e {
				c[x] = y
			}
			want = append(want, c)
		}
		if f := m.check(l); f != "" {
			return desc, "after " + desc + ": " + f
		}
		for i := range held {
			if !reflect.DeepEqual(held[i], want[i]) {
				return desc, "after " + desc + ": an earlier result of GetEntries changed with the table"
			}
		}
	}
	return desc, ""
}

// two tables never share anything
func langTwo(rng *rand.Rand) (string, string) {
	a := xcore.NewXLanguage("a", language.English)
	b := xcore.NewXLanguage("b", language.French)
	k := lkey(rng)
	a.Set(k, "1")
	a.SetStatus(k, "s")
	if b.Get(k) != "" || b.GetStatus(k) != "" || b.GetName() != "b" || b.GetLanguage() != language.French {
		return "", "an operation on one table changed another"
	}
	return fmt.Sprintf("two tables, key %q", k), ""
}

func TestVerifC12(t *testing.T) {
	vrun(t, "random histories of table operations against two maps, a name and a tag, compared after every step", "up to 14 operations, 10 keys", nil, langHistory, langTwo)
}

// C13 ---------------------------------------------------------------------------

func isSp(r rune) bool {
	switch r {
	case '\t', '\n', '\v', '\f', '\r', ' ', 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000:
		return true
	}
	return r >= 0x2000 && r <= 0x200a
}

func ltrim(s string) string {
	r := []rune(s)
	for len(r) > 0 && isSp(r[0]) {
		r = r[1:]
	}
	for len(r) > 0 && isSp(r[len(r)-1]) {
		r = r[:len(r)-1]
	}
	return string(r)
}

func (m *lmodel) loadText(text string) {
	for len(text) > 0 {
		line := text
		if p := strings.IndexByte(text, '\n'); p >= 0 {
			line, text = text[:p], text[p+1:]
		} else {
			text = ""
		}
		line = strings.TrimSuffix(line, "\r")
		if line == "" || line[0] == '#' || line[0] == ';' {
			continue
		}
		p := strings.IndexByte(line, '=')
		if p < 0 {
			continue
		}
		k := ltrim(line[:p])
		if k == "" {
			continue
		}
		m.e[k] = ltrim(line[p+1:])
		m.touched[k] = true
	}
}

func ltext(rng *rand.Rand) string {
	var b strings.Builder
	n := rng.Intn(8)
	for i := 0; i < n; i++ {
		switch rng.Intn(12) {
		case 0:
			b.WriteString("#" + lkey(rng) + "=" + lval(rng))
		case 1:
			b.WriteString(";" + lkey(rng) + "=" + lval(rng))
		case 2:
			b.WriteString(lval(rng))
		case 3:
			b.WriteString([]string{"", " ", "\t", "=", " = x", "#", ";", " #a=b", " ;a=c"}[rng.Intn(9)])
		case 4:
			b.WriteString("  " + lkey(rng) + "\t=\t" + lval(rng) + " = more\v")
		case 5:
			b.WriteString(lkey(rng) + "=")
		case 6:
			b.WriteString(lkey(rng) + "=" + strings.Repeat("x", []int{10, 4096, 65534, 65535, 65536, 65537, 200000}[rng.Intn(1+6*rng.Intn(2))]))
		default:
			b.WriteString(lkey(rng) + "=" + lval(rng))
		}
		if i+1 < n || rng.Intn(2) == 0 {
			b.WriteString([]string{"\n", "\n", "\n", "\r\n", "\n\n", "\r"}[rng.Intn(6)])
		}
	}
	return b.String()
}

func xesc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;").Replace(s)
}

type lxml struct {
	text string
	bad  bool
	name string
	lang string
	ents [][3]string
}

func lxmlGen(rng *rand.Rand) lxml {
	x := lxml{name: lval(rng), lang: []string{"en", "es", "es-MX", "fr", "", "zz-notatag-x"}[rng.Intn(6)]}
	var b strings.Builder
	if rng.Intn(2) == 0 {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	fmt.Fprintf(&b, `<language id="%s" lang="%s">`, xesc(x.name), xesc(x.lang))
	n := rng.Intn(6)
	for i := 0; i < n; i++ {
		e := [3]string{lkey(rng), lval(rng), ""}
		st := ""
		if rng.Intn(2) == 0 {
			e[2] = lval(rng)
			st = fmt.Sprintf(` status="%s"`, xesc(e[2]))
		}
		t := xesc(e[1])
		if rng.Intn(2) == 0 {
			t = "<![CDATA[" + e[1] + "]]>"
		}
		fmt.Fprintf(&b, "\n  <entry id=\"%s\"%s>%s</entry>", xesc(e[0]), st, t)
		x.ents = append(x.ents, e)
		if rng.Intn(5) == 0 {
			b.WriteString("<other id=\"zz\">no</other><!-- <entry id=\"c\">no</entry> -->")
		}
	}
	b.WriteString("\n</language>")
	x.text = b.String()
	if rng.Intn(4) == 0 {
		x.bad = true
		switch rng.Intn(3) {
		case 0:
			x.text = x.text[:len(x.text)-2-rng.Intn(8)]
		case 1:
			x.text = strings.Replace(x.text, "</language>", "<entry id=\"late\">v</entri></language>", 1)
		case 2:
			x.text = []string{"", "no xml", "<language"}[rng.Intn(3)]
		}
	}
	return x
}

func (m *lmodel) loadXML(x lxml) {
	m.name = x.name
	m.lang, _ = language.Parse(x.lang)
	for _, e := range x.ents {
		m.e[e[0]], m.s[e[0]] = e[1], e[2]
		m.touched[e[0]] = true
	}
}

var ldir string

func langLoad(rng *rand.Rand) (string, string) {
	m := newLmodel()
	var l *xcore.XLanguage
	desc := ""
	seq := rng.Int63()
	file := func(text string) string {
		p := filepath.Join(ldir, fmt.Sprintf("f%d", seq))
		ioutil.WriteFile(p, []byte(text), 0600)
		return p
	}
	var err error
	expect := "" // table or error
	switch rng.Intn(7) {
	case 0:
		m.name, m.lang = "n", language.English
		l = xcore.NewXLanguage("n", language.English)
		desc = `l := NewXLanguage("n", en)`
	case 1:
		t := ltext(rng)
		l, err = xcore.NewXLanguageFromString(t)
		m.loadText(t)
		desc = fmt.Sprintf("l, err := NewXLanguageFromString(%q)", t)
	case 2:
		t := ltext(rng)
		p := file(t)
		l, err = xcore.NewXLanguageFromFile(p)
		os.Remove(p)
		m.loadText(t)
		desc = fmt.Sprintf("l, err := NewXLanguageFromFile(file holding %q)", t)
	case 3, 4:
		x := lxmlGen(rng)
		if rng.Intn(2) == 0 {
			l, err = xcore.NewXLanguageFromXMLString(x.text)
			desc = fmt.Sprintf("l, err := NewXLanguageFromXMLString(%q)", x.text)
		} else {
			p := file(x.text)
			l, err = xcore.NewXLanguageFromXMLFile(p)
			os.Remove(p)
			desc = fmt.Sprintf("l, err := NewXLanguageFromXMLFile(file holding %q)", x.text)
		}
		if x.bad {
			expect = "error"
		} else {
			m.loadXML(x)
		}
	case 5:
		l, err = xcore.NewXLanguageFromFile(filepath.Join(ldir, "none"))
		desc, expect = "l, err := NewXLanguageFromFile(missing file)", "error"
	case 6:
		l, err = xcore.NewXLanguageFromXMLFile(filepath.Join(ldir, "none"))
		desc, expect = "l, err := NewXLanguageFromXMLFile(missing file)", "error"
	}
	if expect == "error" {
		if err == nil || l != nil {
			return desc, fmt.Sprintf("%s: err = %v, table = %v; want an error and no table", desc, err, l)
		}
		return desc, ""
	}
	if err != nil || l == nil {
		return desc, fmt.Sprintf("%s: err = %v, table = %v", desc, err, l)
	}
	if f := m.check(l); f != "" {
		return desc, "after " + desc + ": " + f
	}
	n := rng.Intn(5)
	for i := 0; i < n; i++ {
		switch rng.Intn(6) {
		case 0:
			k, v := lkey(rng), lval(rng)
			l.Set(k, v)
			l.SetStatus(k, v+"s")
			m.e[k], m.s[k], m.touched[k] = v, v+"s", true
			desc += fmt.Sprintf("; Set(%q, %q); SetStatus(%q, %q)", k, v, k, v+"s")
		case 1, 2:
			t := ltext(rng)
			if rng.Intn(2) == 0 {
				err = l.LoadString(t)
				desc += fmt.Sprintf("; LoadString(%q)", t)
			} else {
				p := file(t)
				err = l.LoadFile(p)
				os.Remove(p)
				desc += fmt.Sprintf("; LoadFile(file holding %q)", t)
			}
			m.loadText(t)
			if err != nil {
				return desc, desc + ": " + err.Error()
			}
		case 3, 4:
			x := lxmlGen(rng)
			if rng.Intn(2) == 0 {
				err = l.LoadXMLString(x.text)
				desc += fmt.Sprintf("; LoadXMLString(%q)", x.text)
			} else {
				p := file(x.text)
				err = l.LoadXMLFile(p)
				os.Remove(p)
				desc += fmt.Sprintf("; LoadXMLFile(file holding %q)", x.text)
			}
			if !x.bad {
				m.loadXML(x)
			}
			if (err != nil) != x.bad {
				return desc, fmt.Sprintf("%s: err = %v", desc, err)
			}
		case 5:
			e1, e2 := l.LoadFile(filepath.Join(ldir, "none")), l.LoadXMLFile(filepath.Join(ldir, "none"))
			desc += "; LoadFile(missing); LoadXMLFile(missing)"
			if e1 == nil || e2 == nil {
				return desc, desc + ": no error"
			}
		}
		if f := m.check(l); f != "" {
			return desc, "after " + desc + ": " + f
		}
	}
	return desc, ""
}

func TestVerifC13(t *testing.T) {
	d, err := ioutil.TempDir("", "verif")
	if err != nil {
		t.Skip(err)
	}
	ldir = d
	defer os.RemoveAll(d)
	vrun(t, "random text and XML sources (comments, missing keys, long lines, line ends, malformed XML, missing files) against an independent parser", "up to 8 lines or 6 entries per source, up to 5 loads", nil, langLoad)
}

// C14 ---------------------------------------------------------------------------

var lfile, lxfile string

func langMethods(l *xcore.XLanguage) map[string]func(i int) {
	k := func(i int) string { return fmt.Sprint("k", i%5) }
	return map[string]func(i int){
		"Set": func(i int) { l.Set(k(i), "v") }, "Get": func(i int) { l.Get(k(i)) },
		"SetStatus": func(i int) { l.SetStatus(k(i), "v") }, "GetStatus": func(i int) { l.GetStatus(k(i)) },
		"Del": func(i int) { l.Del(k(i)) }, "GetEntries": func(i int) {
			e := l.GetEntries()
			e["x"] = "y"
		},
		"SetName": func(i int) { l.SetName(k(i)) }, "GetName": func(i int) { l.GetName() },
		"SetLanguage": func(i int) { l.SetLanguage(ltags[i%len(ltags)]) }, "GetLanguage": func(i int) { l.GetLanguage() },
		"LoadString": func(i int) { l.LoadString("k1=a\nk9=b\n" + k(i) + "=c") },
		"LoadXMLString": func(i int) {
			l.LoadXMLString(`<language id="n" lang="en"><entry id="k1" status="s">v</entry></language>`)
		},
		"LoadFile":    func(i int) { l.LoadFile(lfile) },
		"LoadXMLFile": func(i int) { l.LoadXMLFile(lxfile) },
		"GetXML":      func(i int) { l.GetXML() }, "String": func(i int) { _ = l.String() }, "GoString": func(i int) { _ = l.GoString() },
	}
}

func langStress(rng *rand.Rand) (string, string) {
	l := xcore.NewXLanguage("n", language.English)
	for i := 0; i < 5; i++ {
		l.Set(fmt.Sprint("k", i), "v")
		l.SetStatus(fmt.Sprint("k", i), "s")
	}
	ms := langMethods(l)
	var names []string
	for n := range ms {
		names = append(names, n)
	}
	var picks []string
	for g := 0; g < 6; g++ {
		picks = append(picks, names[rng.Intn(len(names))])
	}
	desc := "goroutines calling " + strings.Join(picks, ", ")
	var wg sync.WaitGroup
	var mu sync.Mutex
	fail := ""
	for g, n := range picks {
		wg.Add(1)
		go func(g int, n string) {
			defer wg.Done()
			if p := vcall(func() {
				for i := 0; i < 25; i++ {
					ms[n](i + g)
				}
			}); p != "" {
				mu.Lock()
				fail = desc + ": " + n + ": " + p
				mu.Unlock()
			}
		}(g, n)
	}
	wg.Wait()
	if fail != "" {
		return desc, fail
	}
	// every call left the table unlocked
	done := make(chan bool, 1)
	go func() { l.Set("z", "1"); done <- l.Get("z") == "1" }()
	select {
	case ok := <-done:
		if !ok {
			return desc, desc + ": the table lost an entry"
		}
	case <-time.After(10 * time.Second):
		buf := make([]byte, 1<<15)
		return desc, desc + ": the table stays locked\n" + string(buf[:runtime.Stack(buf, true)])
	}
	return desc, ""
}

// langPairs: every pair of methods, concurrently.
func langPairs() (string, string) {
	l := xcore.NewXLanguage("n", language.English)
	ms := langMethods(l)
	for a, fa := range ms {
		for b, fb := range ms {
			for i := 0; i < 5; i++ {
				l.Set(fmt.Sprint("k", i), "v")
			}
			var wg sync.WaitGroup
			wg.Add(2)
			fail := make(chan string, 2)
			go func() {
				defer wg.Done()
				if p := vcall(func() {
					for i := 0; i < 12; i++ {
						fa(i)
					}
				}); p != "" {
					fail <- a + " next to " + b + ": " + p
				}
			}()
			go func() {
				defer wg.Done()
				if p := vcall(func() {
					for i := 0; i < 12; i++ {
						fb(i + 1)
					}
				}); p != "" {
					fail <- b + " next to " + a + ": " + p
				}
			}()
			wg.Wait()
			select {
			case f := <-fail:
				return "all pairs", f
			default:
			}
		}
	}
	return "every pair of methods concurrently", ""
}

func TestVerifC14(t *testing.T) {
	d, err := ioutil.TempDir("", "verif")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(d)
	lfile, lxfile = filepath.Join(d, "a"), filepath.Join(d, "b")
	ioutil.WriteFile(lfile, []byte("k2=x\nk3=y\n"), 0600)
	ioutil.WriteFile(lxfile, []byte(`<language id="m" lang="fr"><entry id="k2" status="s">v</entry></language>`), 0600)
	vrun(t, "race-detector runs of every pair of methods and of random mixes, then a probe that the table is unlocked", "6 goroutines, 25 calls each per case", []func() (string, string){langPairs}, langStress)
}
