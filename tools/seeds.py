"""Planted bugs: edits of /repo that break a property, with a demonstration (a test of the exported API)."""
SEEDS = {}
def seed(id, property, needs, breaks, edits, demo, race=False):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, race=race)
X = 'import (\n"testing"\n\nxcore "github.com/webability-go/xcore/v2"\n)\n'
XT = 'import (\n"testing"\n"time"\n\nxcore "github.com/webability-go/xcore/v2"\n)\n'

seed('c02-ttl-survives-overwrite', 'C02', 'a key with a TTL is stored again and read after the old TTL has elapsed',
     'Set on an existing key refreshes the entry in place and forgets to drop the TTL, so the new value expires early',
     [('v2/xcache.go', '''	_, ok := c.items[key]
	c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}
	if ok {
		c.removeFromPile(key)
	}''', '''	x, ok := c.items[key]
	if ok {
		c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), ttl: x.ttl, data: indata}
		c.removeFromPile(key)
	} else {
		c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}
	}''')],
     XT + '''
func TestDemo(t *testing.T) {
	c := xcore.NewXCache("c", 0, 0)
	c.Set("a", 1)
	c.SetTTL("a", 20*time.Millisecond)
	c.Set("a", 2)
	time.Sleep(50 * time.Millisecond)
	if v, bad := c.Get("a"); v != 2 || bad {
		t.Fatal(v, bad)
	}
}''')

seed('c03-swap-remove', 'C03', 'a key that is not the last used one is touched or deleted, then an eviction happens',
     'taking a key out of the pile moves the last key into its place, so the recency order is lost',
     [('v2/xcache.go', '''				c.pile = append(c.pile[:i], c.pile[i+1:]...)''', '''				last := len(c.pile) - 1
				c.pile[i] = c.pile[last]
				c.pile = c.pile[:last]''')],
     X + '''
func TestDemo(t *testing.T) {
	c := xcore.NewXCache("c", 0, 0)
	for _, k := range []string{"a", "b", "c", "d"} {
		c.Set(k, k)
	}
	c.Del("a")
	c.Clean(34) // one of three: b is the least recently used
	if v, _ := c.Get("b"); v != nil {
		t.Fatal("b is still there")
	}
	if v, _ := c.Get("d"); v != "d" {
		t.Fatal("d was evicted")
	}
}''')

seed('c04-percent-rounding', 'C04', 'Clean(p) on a number of entries that is not a multiple of 100',
     'Clean divides before it multiplies and removes too few entries',
     [('v2/xcache.go', 'num := total * perc / 100', 'num := total / 100 * perc')],
     X + '''
func TestDemo(t *testing.T) {
	c := xcore.NewXCache("c", 0, 0)
	for _, k := range []string{"a", "b", "c", "d"} {
		c.Set(k, k)
	}
	if n := c.Clean(50); n != 2 || c.Count() != 2 {
		t.Fatal(n, c.Count())
	}
}''')

seed('c02-sliding-expiration', 'C02', 'an entry that is read repeatedly for longer than the expiration',
     'the expiration is measured from the last read instead of the storage time, so an entry that is read often never expires',
     [('v2/xcache.go', '''			if x.ctime.Add(c.Expire).Before(time.Now()) {
				if LOG {
					log.Println("Cache timeout Expired: " + key)''', '''			if x.rtime.Add(c.Expire).Before(time.Now()) {
				if LOG {
					log.Println("Cache timeout Expired: " + key)''')],
     XT + '''
func TestDemo(t *testing.T) {
	c := xcore.NewXCache("c", 0, 100*time.Millisecond)
	c.Set("a", 1)
	for i := 0; i < 4; i++ {
		time.Sleep(40 * time.Millisecond)
		c.Get("a")
	}
	if v, _ := c.Get("a"); v != nil {
		t.Fatal(v)
	}
}''')

seed('c01-del-keeps-order', 'C01', 'a key is deleted, stored again, and a cleaning reaches its old place in the order',
     'Del leaves the key in the recency list, so a later cleaning removes the value that was stored again and counts keys that are not there',
     [('v2/xcache.go', '''	// we should check if the entry exists before trying to removing
	c.removeFromPile(key)''', '''	// we should check if the entry exists before trying to removing
	if _, ok := c.items[key]; ok {
		c.removeFromPile(key)
	}''')],
     X + '''
func TestDemo(t *testing.T) {
	c := xcore.NewXCache("c", 0, 0)
	c.Set("a", 1)
	c.Del("a")
	for _, k := range []string{"b", "c", "d", "a"} {
		c.Set(k, k)
	}
	c.Clean(25) // removes b, the least recently used of four
	if c.Count() != 3 {
		t.Fatal(c.Count())
	}
	if v, _ := c.Get("a"); v != "a" {
		t.Fatal(v)
	}
}''')

seed('c05-count-unlocked', 'C05', 'Count runs while another goroutine stores',
     'Count releases the lock before it reads the map',
     [('v2/xcache.go', '''	c.mutex.RLock()
	defer c.mutex.RUnlock()
	x := len(c.items)
	return x''', '''	c.mutex.RLock()
	items := &c.items
	c.mutex.RUnlock()
	return len(*items)''')],
     '''import (
"fmt"
"sync"
"testing"

xcore "github.com/webability-go/xcore/v2"
)

func TestDemo(t *testing.T) {
	c := xcore.NewXCache("c", 0, 0)
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				if w < 2 {
					c.Set(fmt.Sprint(w, i), i)
				} else {
					c.Count()
				}
			}
		}(w)
	}
	wg.Wait()
}''', race=True)

XL = 'import (\n"testing"\n\n"golang.org/x/text/language"\n\nxcore "github.com/webability-go/xcore/v2"\n)\n'

seed('c12-set-drops-status', 'C12', 'an entry that has a status gets a new text',
     'Set throws away the status of the entry',
     [('v2/xlanguage.go', '''	defer l.mutex.Unlock()
	l.entries[entry] = value
}''', '''	defer l.mutex.Unlock()
	l.entries[entry] = value
	delete(l.status, entry)
}''')],
     XL + '''
func TestDemo(t *testing.T) {
	l := xcore.NewXLanguage("n", language.English)
	l.Set("a", "1")
	l.SetStatus("a", "done")
	l.Set("a", "2")
	if l.GetStatus("a") != "done" {
		t.Fatal(l.GetStatus("a"))
	}
}''')

seed('c12-del-unknown-status', 'C12', 'an entry with a status but no text is deleted',
     'Del leaves the status of an entry that has no text',
     [('v2/xlanguage.go', '''	delete(l.entries, entry)
	delete(l.status, entry)''', '''	if _, ok := l.entries[entry]; !ok {
		return
	}
	delete(l.entries, entry)
	delete(l.status, entry)''')],
     XL + '''
func TestDemo(t *testing.T) {
	l := xcore.NewXLanguage("n", language.English)
	l.SetStatus("a", "done")
	l.Del("a")
	if l.GetStatus("a") != "" {
		t.Fatal(l.GetStatus("a"))
	}
}''')

seed('c13-split-last-equal', 'C13', 'a line whose value contains an equal sign',
     'lines are split at the last equal sign',
     [('v2/xlanguage.go', 'posequal := strings.Index(line, "=")', 'posequal := strings.LastIndex(line, "=")')],
     X + '''
func TestDemo(t *testing.T) {
	l, err := xcore.NewXLanguageFromString("a=x=y\\n")
	if err != nil || l.Get("a") != "x=y" {
		t.Fatal(err, l)
	}
}''')

seed('c13-xml-keeps-old-status', 'C13', 'an XML source without a status is loaded over an entry that has one',
     'loading an entry without status keeps the status of the replaced entry',
     [('v2/xlanguage.go', '''		l.status[e.ID] = e.Status
''', '''		if e.Status != "" {
			l.status[e.ID] = e.Status
		}
''')],
     XL + '''
func TestDemo(t *testing.T) {
	l := xcore.NewXLanguage("n", language.English)
	l.SetStatus("a", "old")
	l.LoadXMLString(`<language id="n" lang="en"><entry id="a">v</entry></language>`)
	if l.GetStatus("a") != "" {
		t.Fatal(l.GetStatus("a"))
	}
}''')

seed('c14-status-read-lock', 'C14', 'two goroutines set a status at the same time',
     'SetStatus takes the shared lock only',
     [('v2/xlanguage.go', '''func (l *XLanguage) SetStatus(entry string, value string) {
	l.mutex.Lock()
	defer l.mutex.Unlock()''', '''func (l *XLanguage) SetStatus(entry string, value string) {
	l.mutex.RLock()
	defer l.mutex.RUnlock()''')],
     '''import (
"fmt"
"sync"
"testing"

"golang.org/x/text/language"

xcore "github.com/webability-go/xcore/v2"
)

func TestDemo(t *testing.T) {
	l := xcore.NewXLanguage("n", language.English)
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				l.SetStatus(fmt.Sprint(w, i), "x")
			}
		}(w)
	}
	wg.Wait()
}''', race=True)

seed('c14-entries-unlocked-copy', 'C14', 'GetEntries runs while another goroutine sets an entry',
     'GetEntries copies the entries after it released the lock',
     [('v2/xlanguage.go', '''	clone := map[string]string{}
	l.mutex.RLock()
	defer l.mutex.RUnlock()
	for k, v := range l.entries {''', '''	l.mutex.RLock()
	entries := l.entries
	clone := make(map[string]string, len(entries))
	l.mutex.RUnlock()
	for k, v := range entries {''')],
     '''import (
"fmt"
"sync"
"testing"

"golang.org/x/text/language"

xcore "github.com/webability-go/xcore/v2"
)

func TestDemo(t *testing.T) {
	l := xcore.NewXLanguage("n", language.English)
	for i := 0; i < 500; i++ {
		l.Set(fmt.Sprint(i), "x")
	}
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				if w < 2 {
					l.Set(fmt.Sprint(w, i), "x")
				} else {
					l.GetEntries()
				}
			}
		}(w)
	}
	wg.Wait()
}''', race=True)

seed('c06-deep-collection-path', 'C06', 'a path with more than one component below a collection element (coll>0>a>b)',
     'below a collection element only the next path component is looked up, so deeper paths find the wrong value or nothing',
     [('v2/xdataset.go', 'return ds.Get(strings.Join(xid[2:], ">"))', 'return ds.Get(xid[2])')],
     X + '''
func TestDemo(t *testing.T) {
	d := xcore.NewXDataset(map[string]interface{}{
		"list": []map[string]interface{}{{"user": map[string]interface{}{"name": "ann"}}},
	})
	if v, ok := d.Get("list>0>user>name"); !ok || v != "ann" {
		t.Fatal(v, ok)
	}
}''')

seed('c06-index-prefix', 'C06', 'a path whose collection index has trailing garbage (coll>1x)',
     'the collection index is scanned with Sscanf, which accepts any text after the digits',
     [('v2/xdataset.go', '''			entry, err := strconv.Atoi(xid[1])
			if err != nil {''', '''			entry := 0
			if n, err := fmt.Sscanf(xid[1], "%d", &entry); n != 1 || err != nil {'''),
      ('v2/xdataset.go', '''	"strconv"
''', '')],
     X + '''
func TestDemo(t *testing.T) {
	d := xcore.NewXDataset(map[string]interface{}{"list": []map[string]interface{}{{"a": 1}, {"a": 2}}})
	if v, ok := d.Get("list>1x>a"); ok || v != nil {
		t.Fatal(v, ok)
	}
	if v, ok := d.Get("list>1>a"); !ok || v != 2 {
		t.Fatal(v, ok)
	}
}''')

seed('c07-time-before-epoch', 'C07', 'a time before 1970 read with GetInt',
     'GetInt treats every time before the Unix epoch like the zero time',
     [('v2/xdataset.go', '''			if val2.Equal(time.Time{}) {
				return 0, true
			}
			return int(val2.Unix()), true''', '''			if val2.Before(time.Unix(0, 0)) {
				return 0, true
			}
			return int(val2.Unix()), true''')],
     XT + '''
func TestDemo(t *testing.T) {
	d := &xcore.XDataset{"a": time.Unix(-5, 0)}
	if v, ok := d.GetInt("a"); !ok || v != -5 {
		t.Fatal(v, ok)
	}
}''')

seed('c07-bool-fraction', 'C07', 'a float between -1 and 1 other than 0 read with GetBool',
     'GetBool truncates a float before it compares with zero, so 0.5 is false',
     [('v2/xdataset.go', '''		if val2, ok2 := val.(float64); ok2 {
			return val2 != 0, true
		}''', '''		if val2, ok2 := val.(float64); ok2 {
			return int64(val2) != 0, true
		}''')],
     X + '''
func TestDemo(t *testing.T) {
	d := &xcore.XDataset{"a": 0.5}
	if v, ok := d.GetBool("a"); !ok || !v {
		t.Fatal(v, ok)
	}
}''')

seed('c08-pop-clears-all', 'C08', 'Unshift on a collection that has spare capacity left by Pop or Push',
     'Unshift shifts the elements inside the old array with the wrong bounds and loses the last element',
     [('v2/xdatasetcollection.go', '''	*d = append([]XDatasetDef{data}, (*d)...)''', '''	if n := len(*d); n > 0 && cap(*d) > n {
		*d = (*d)[:n+1]
		copy((*d)[1:n], (*d)[:n])
		(*d)[0] = data
		if (*d)[n] == nil {
			(*d)[n] = (*d)[n-1]
		}
		return
	}
	*d = append([]XDatasetDef{data}, (*d)...)''')],
     X + '''
func TestDemo(t *testing.T) {
	c := &xcore.XDatasetCollection{}
	e := []*xcore.XDataset{{"n": 0}, {"n": 1}, {"n": 2}, {"n": 3}}
	c.Push(e[0])
	c.Push(e[1])
	c.Push(e[2])
	c.Unshift(e[3])
	for i, w := range []int{3, 0, 1, 2} {
		g, ok := c.Get(i)
		if !ok || g != xcore.XDatasetDef(e[w]) {
			t.Fatal(i, g)
		}
	}
}''')

seed('c08-nil-hides', 'C08', 'an inner element has the key with a nil value and an outer one has it too',
     'GetData skips elements whose value for the key is nil, so the outer value shows through',
     [('v2/xdatasetcollection.go', '''		val, ok := (*d)[i].Get(key)
		if ok {
			return val, true''', '''		val, ok := (*d)[i].Get(key)
		if ok && (val != nil || i == 0) {
			return val, true''')],
     X + '''
func TestDemo(t *testing.T) {
	c := &xcore.XDatasetCollection{}
	c.Push(&xcore.XDataset{"a": "outer"})
	c.Push(&xcore.XDataset{"a": nil})
	if v, ok := c.GetData("a"); !ok || v != nil {
		t.Fatal(v, ok)
	}
}''')

seed('c09-nested-collection-shared', 'C09', 'a data set holding a collection is cloned and the collection of one of them changes',
     'Clone of a data set keeps nested collections by reference',
     [('v2/xdataset.go', '''		if cloneable2, ok := val.(interface{ Clone() XDatasetCollectionDef }); ok {
			clonedval = cloneable2.Clone()
		}''', '''		if cloneable2, ok := val.(*XDatasetCollection); ok && len(*cloneable2) > 1 {
			clonedval = cloneable2.Clone()
		}''')],
     X + '''
func TestDemo(t *testing.T) {
	d := xcore.NewXDataset(map[string]interface{}{"list": []map[string]interface{}{{"a": 1}}})
	c := d.Clone()
	l, _ := d.GetCollection("list")
	l.Push(&xcore.XDataset{"a": 2})
	m, _ := c.GetCollection("list")
	if m.Count() != 1 {
		t.Fatal(m.Count())
	}
}''')

seed('c09-ts-clone-shares', 'C09', 'a thread safe data set is cloned and then changed',
     'the clone of a thread safe data set wraps the same data',
     [('v2/xdatasetts.go', '''	cloned.data = ds.data.Clone()''', '''	cloned.data = ds.data
	if inner, ok := ds.data.(*XDataset); ok && len(*inner) == 0 {
		cloned.data = ds.data.Clone()
	}''')],
     X + '''
func TestDemo(t *testing.T) {
	d := xcore.NewXDatasetTS(&xcore.XDataset{"a": 1})
	c := d.Clone()
	d.Set("a", 2)
	if v, _ := c.Get("a"); v != 1 {
		t.Fatal(v)
	}
}''')

seed('c10-generic-slice-nil', 'C10', 'a generic slice with an element that is not a map',
     'a non-map element of a generic slice ends the scan, so later maps are lost',
     [('v2/xdataset.go', '''				if ok {
					dscc := NewXDataset(dscit)
					dsc.Push(dscc)
				}''', '''				if !ok {
					break
				}
				dsc.Push(NewXDataset(dscit))''')],
     X + '''
func TestDemo(t *testing.T) {
	d := xcore.NewXDataset(map[string]interface{}{"l": []interface{}{"x", map[string]interface{}{"a": 1}}})
	l, ok := d.GetCollection("l")
	if !ok || l.Count() != 1 {
		t.Fatal(ok)
	}
}''')

seed('c10-empty-map-kept', 'C10', 'an empty nested map in the source',
     'an empty nested map is stored as it is instead of becoming a data set',
     [('v2/xdataset.go', '''			ds.Set(i, NewXDataset(v.(map[string]interface{})))''', '''			if m := v.(map[string]interface{}); len(m) > 0 {
				ds.Set(i, NewXDataset(m))
			} else {
				ds.Set(i, m)
			}''')],
     X + '''
func TestDemo(t *testing.T) {
	d := xcore.NewXDataset(map[string]interface{}{"m": map[string]interface{}{}})
	if _, ok := d.GetDataset("m"); !ok {
		t.Fatal("not a data set")
	}
}''')

seed('c11-getdataset-unlocked', 'C11', 'GetDataset next to Set on the same thread safe data set',
     'GetDataset reads the wrapped data after it has given the lock back',
     [('v2/xdatasetts.go', '''func (ds *XDatasetTS) GetDataset(key string) (XDatasetDef, bool) {
	ds.mutex.RLock()
	defer ds.mutex.RUnlock()
	return ds.data.GetDataset(key)''', '''func (ds *XDatasetTS) GetDataset(key string) (XDatasetDef, bool) {
	ds.mutex.RLock()
	inner := ds.data
	ds.mutex.RUnlock()
	return inner.GetDataset(key)''')],
     X.replace('"testing"', '"sync"\n"testing"') + '''
func TestDemo(t *testing.T) {
	d := xcore.NewXDatasetTS(&xcore.XDataset{"a": 1})
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				d.Set("a", i)
				d.GetDataset("a")
			}
		}()
	}
	wg.Wait()
}''', race=True)

seed('c11-get-checks-unlocked', 'C11', 'Get on a thread safe collection while another goroutine removes elements',
     'Get checks the index in one section and reads the element in another, so it panics when the collection shrinks in between',
     [('v2/xdatasetcollectionts.go', '''	if index < 0 || index >= len(dc.data) {
		return nil, false
	}
	return dc.data[index], true''', '''	n := len(dc.data)
	dc.mutex.RUnlock()
	found := index >= 0 && index < n
	dc.mutex.RLock()
	if !found {
		return nil, false
	}
	return dc.data[index], true''')],
     X.replace('"testing"', '"sync"\n"testing"') + '''
func TestDemo(t *testing.T) {
	c := &xcore.XDatasetCollectionTS{}
	var wg sync.WaitGroup
	wg.Add(4)
	for g := 0; g < 2; g++ {
		go func() {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				c.Push(&xcore.XDataset{})
				c.Pop()
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				c.Get(0)
			}
		}()
	}
	wg.Wait()
}''')

seed('c15-leading-pipe', 'C15', 'a section whose id list starts with a |',
     'an id list that starts with | is taken as one name, so its ids are not registered',
     [('v2/xtemplate.go', 'if pospipe >= 0 {', 'if pospipe > 0 {')],
     X + '''
func TestDemo(t *testing.T) {
	x, err := xcore.NewXTemplateFromString("[[|a|b]]x[[]]")
	if err != nil || x.GetTemplate("a") == nil || x.GetTemplate("b") == nil {
		t.Fatal("section not registered")
	}
}''')

seed('c16-one-level', 'C16', 'a name defined two levels above the template it is looked up from, the levels between having sub templates of their own',
     'the lookup asks the enclosing template only for its own sub templates and goes no further up',
     [('v2/xtemplate.go', '''	if tmp != nil {
		return tmp
	}
	if t.Father != nil {
		return t.Father.GetTemplate(name)
	}
	return nil''', '''	if tmp != nil {
		return tmp
	}
	if t.Father != nil {
		return t.Father.SubTemplates[name]
	}
	return nil''')],
     X + '''
func TestDemo(t *testing.T) {
	a, b, c, d, e := xcore.NewXTemplate(), xcore.NewXTemplate(), xcore.NewXTemplate(), xcore.NewXTemplate(), xcore.NewXTemplate()
	a.AddTemplate("x", e)
	a.AddTemplate("b", b)
	b.AddTemplate("c", c)
	c.AddTemplate("d", d)
	if c.GetTemplate("x") != e {
		t.Fatal("x not found")
	}
}''')

seed('c16-father-kept', 'C16', 'a template that already has a parent is added to another one',
     'adding a template keeps its first parent, so names inside it resolve in the wrong tree',
     [('v2/xtemplate.go', '''	tmpl.Father = t
	t.SubTemplates[name] = tmpl''', '''	if tmpl.Father == nil {
		tmpl.Father = t
	}
	t.SubTemplates[name] = tmpl''')],
     X + '''
func TestDemo(t *testing.T) {
	a, b, c, d := xcore.NewXTemplate(), xcore.NewXTemplate(), xcore.NewXTemplate(), xcore.NewXTemplate()
	a.AddTemplate("c", c)
	b.AddTemplate("d", d)
	b.AddTemplate("c", c)
	if c.GetTemplate("d") != d {
		t.Fatal("d not found")
	}
}''')

seed('c17-last-wins', 'C17', 'a loop over a collection of one element with both a .first and a .last sub template',
     'the single element of a loop is rendered with .last instead of .first',
     [('v2/xtemplate.go', '''							if tmp == nil && i == 0 {
								tmp = t.GetTemplate(subtemplateid + ".first")
							}
							if tmp == nil && i == cl.Count()-1 {
								tmp = t.GetTemplate(subtemplateid + ".last")
							}''', '''							if tmp == nil && i == cl.Count()-1 {
								tmp = t.GetTemplate(subtemplateid + ".last")
							}
							if tmp == nil && i == 0 {
								tmp = t.GetTemplate(subtemplateid + ".first")
							}''')],
     X + '''
func TestDemo(t *testing.T) {
	x, _ := xcore.NewXTemplateFromString("[[l]]-[[]][[l.first]]F[[]][[l.last]]L[[]]@@l@@")
	if s := x.Execute(&xcore.XDataset{"l": &xcore.XDatasetCollection{&xcore.XDataset{}}}); s != "F" {
		t.Fatal(s)
	}
}''')

seed('c17-scope-left', 'C17', 'a reference with a data set whose sub template renders to nothing, and a later tag that asks for a field both scopes have',
     'the scope entered by &&template:data&& is left only when the sub template rendered something',
     [('v2/xtemplate.go', '''					substr := subt.injector(datacol, language)
					if withds {
						datacol.Pop()
					}
					injected = append(injected, substr)
				}
			}
		case MetaVariable''', '''					substr := subt.injector(datacol, language)
					if substr == "" {
						continue
					}
					if withds {
						datacol.Pop()
					}
					injected = append(injected, substr)
				}
			}
		case MetaVariable''')],
     X + '''
func TestDemo(t *testing.T) {
	x, _ := xcore.NewXTemplateFromString("[[s]]{{no}}[[]]&&s:d&&{{a}}")
	if s := x.Execute(&xcore.XDataset{"a": "out", "d": &xcore.XDataset{"a": "in"}}); s != "out" {
		t.Fatal(s)
	}
}''')

seed('c17-none-ignores-empty-text', 'C17', 'a condition on a field that holds an empty text, with a .none sub template',
     'an empty text counts as absent only when the plain sub template is missing',
     [('v2/xtemplate.go', 'if value == nil || fmt.Sprint(value) == "" {', 'if value == nil || (subt == nil && fmt.Sprint(value) == "") {')],
     X + '''
func TestDemo(t *testing.T) {
	x, _ := xcore.NewXTemplateFromString("[[a]]yes[[]][[a.none]]no[[]]??a??")
	if s := x.Execute(&xcore.XDataset{"a": ""}); s != "no" {
		t.Fatal(s)
	}
}''')

seed('c18-dump-nil', 'C18', 'a dump tag rendered without data',
     'the dump of no data panics',
     [('v2/xtemplate.go', '''			if datacol != nil {
				if v.Data == "dump" || v.Data == "list" {''', '''			if datacol != nil || v.Data == "dump" {
				if v.Data == "dump" || v.Data == "list" {''')],
     X + '''
func TestDemo(t *testing.T) {
	x, _ := xcore.NewXTemplateFromString("a!!dump!!b")
	if s := x.Execute(nil); s != "ab" {
		t.Fatal(s)
	}
}''')

seed('c18-none-cached', 'C18', 'a loop over an empty collection whose template has no .none sub template, on a template that is used again or by several goroutines',
     'the plain sub template is stored as .none in the template while rendering',
     [('v2/xtemplate.go', '''						tmp = t.GetTemplate(subtemplateid + ".none")
						if tmp == nil {
							tmp = subt
						}''', '''						tmp = t.GetTemplate(subtemplateid + ".none")
						if tmp == nil {
							tmp = subt
							t.AddTemplate(subtemplateid+".none", tmp)
						}''')],
     X + '''
func TestDemo(t *testing.T) {
	x, _ := xcore.NewXTemplateFromString("[[l]]-[[]]@@l@@")
	if s := x.Execute(&xcore.XDataset{}); s != "-" || len(x.SubTemplates) != 1 {
		t.Fatal(s, len(x.SubTemplates))
	}
}''')

seed('c19-shared-elements', 'C19', 'an element of the clone or of the original is changed after cloning',
     'the clone shares the array of elements with the original',
     [('v2/xtemplate.go', '''		var newroot XTemplateData
		for _, td := range *t.Root {
			newroot = append(newroot, *td.Clone())
		}
		cloned.Root = &newroot''', '''		newroot := (*t.Root)[:len(*t.Root)]
		cloned.Root = &newroot''')],
     X + '''
func TestDemo(t *testing.T) {
	x, _ := xcore.NewXTemplateFromString("a")
	y := x.Clone()
	(*y.Root)[0].Data = "b"
	if s := x.Execute(nil); s != "a" {
		t.Fatal(s)
	}
}''')

seed('c19-empty-sub-dropped', 'C19', 'a template with a section that has no content',
     'sub templates without elements are not cloned',
     [('v2/xtemplate.go', '''		for id, xt := range t.SubTemplates {
			newsubtemplates''', '''		for id, xt := range t.SubTemplates {
			if xt.Root == nil || len(*xt.Root) == 0 {
				continue
			}
			newsubtemplates''')],
     X + '''
func TestDemo(t *testing.T) {
	x, _ := xcore.NewXTemplateFromString("[[a]]x[[]][[a.none]][[]]??a??")
	if s := x.Clone().Execute(&xcore.XDataset{}); s != "" {
		t.Fatal(s)
	}
}''')

seed('c20-xml-skips-empty', 'C20', 'a language table with an entry whose text is empty',
     'GetXML leaves out entries with an empty text',
     [('v2/xlanguage.go', '''		sdata = append(sdata, "  <entry id''', '''		if val == "" {
			continue
		}
		sdata = append(sdata, "  <entry id''')],
     X.replace('"testing"', '"strings"\n"testing"') .replace('/v2"', '/v2"\n"golang.org/x/text/language"') + '''
func TestDemo(t *testing.T) {
	l := xcore.NewXLanguage("x", language.English)
	l.Set("k", "")
	if s := l.GetXML(); !strings.Contains(s, "id=\\"k\\"") {
		t.Fatal(s)
	}
}''')

seed('c15-stray-end', 'C15', 'a text whose very last mark is an end of section that was never opened',
     'an end mark without a section is ignored at the end of the text instead of being rejected',
     [('v2/xtemplate.go', '''			if last < 0 {
				return errors.New("Error: template mismatch Start/End")''', '''			if last < 0 {
				if i == len(compiled)-1 {
					compiled[i].ParamType = MetaUnused
					break
				}
				return errors.New("Error: template mismatch Start/End")''')],
     X + '''
func TestDemo(t *testing.T) {
	if _, err := xcore.NewXTemplateFromString("[[b]]c[[]][[]]"); err == nil {
		t.Fatal("stray end accepted")
	}
}''')

seed('c15-pipe-in-field', 'C15', 'a field tag whose name contains a |',
     'a field name with a | is no longer recognised and stays in the text',
     [('v2/xtemplate.go', r'`|(\{)\{([a-zA-Z0-9-_\=\>\:\|\.]+?)\}\}` +', r'`|(\{)\{([a-zA-Z0-9-_\=\>\:\.]+?)\}\}` +')],
     X + '''
func TestDemo(t *testing.T) {
	x, err := xcore.NewXTemplateFromString("{{a|b}}")
	if err != nil || len(*x.Root) != 1 || (*x.Root)[0].ParamType != xcore.MetaVariable {
		t.Fatal(err, *x.Root)
	}
}''')

seed('c20-nil-entry-skipped', 'C20', 'a data set with an entry whose value is nil',
     'String leaves out the entries whose value is nil',
     [('v2/xdataset.go', '''		sdata = append(sdata, key+":"+fmt.Sprintf("%v", val))''', '''		if val != nil {
			sdata = append(sdata, key+":"+fmt.Sprintf("%v", val))
		}''')],
     X + '''
func TestDemo(t *testing.T) {
	d := &xcore.XDataset{"a": nil, "b": 2}
	if s := d.String(); s != "xcore.XDataset{a:<nil> b:2}" {
		t.Fatal(s)
	}
}''')

seed('c01-nil-not-counted', 'C01', 'a nil value is stored over an existing value',
     'storing nil on a key that exists keeps the old value',
     [('v2/xcache.go', '''	c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}
''', '''	if !ok || indata != nil {
		c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}
	}
''')],
     X + '''
func TestDemo(t *testing.T) {
	c := xcore.NewXCache("c", 0, 0)
	c.Set("a", 1)
	c.Set("a", nil)
	if v, bad := c.Get("a"); v != nil || bad {
		t.Fatal(v, bad)
	}
}''')

seed('c03-overwrite-keeps-place', 'C03', 'a key is stored again and an eviction follows before it is read',
     'storing an existing key again does not make it the most recently used one',
     [('v2/xcache.go', '''	if ok {
		c.removeFromPile(key)
	}
	c.pile = append(c.pile, key)
	if c.Max''', '''	if !ok {
		c.pile = append(c.pile, key)
	}
	if c.Max''')],
     X + '''
func TestDemo(t *testing.T) {
	c := xcore.NewXCache("c", 0, 0)
	c.Set("a", 1)
	c.Set("b", 2)
	c.Set("a", 3)
	c.Clean(50)
	if v, _ := c.Get("a"); v != 3 {
		t.Fatal("a was evicted", v)
	}
}''')

seed('c03-negative-of-one', 'C03', 'a cache with a maximum of one entry',
     'a cache with a maximum of 1 is never cleaned',
     [('v2/xcache.go', '''c.Maxitems > 0 && len(c.items) >= c.Maxitems''', '''c.Maxitems > 1 && len(c.items) >= c.Maxitems''')],
     X + '''
func TestDemo(t *testing.T) {
	c := xcore.NewXCache("c", 1, 0)
	c.Set("a", 1)
	c.Set("b", 2)
	if c.Count() > 1 {
		t.Fatal(c.Count())
	}
}''')

seed('c04-verify-needs-validator', 'C04', 'Verify on a cache with an expiration and no validator',
     'Verify removes expired entries only when there is a validator',
     [('v2/xcache.go', '''	i := c.Clean(0)
''', '''	i := 0
'''), ('v2/xcache.go', '''	if c.Validator != nil {
		// scan a copy''', '''	if c.Validator != nil {
		i = c.Clean(0)
		// scan a copy''')],
     XT + '''
func TestDemo(t *testing.T) {
	c := xcore.NewXCache("c", 0, 20*time.Millisecond)
	c.Set("a", 1)
	time.Sleep(50 * time.Millisecond)
	if n := c.Verify(); n != 1 || c.Count() != 0 {
		t.Fatal(n, c.Count())
	}
}''')

seed('c04-pile-ignores-case', 'C04', 'two keys that differ only in case, the later one is deleted or touched',
     'taking a key out of the pile compares without case and takes out the wrong key, so a later Clean removes a key that is not there',
     [('v2/xcache.go', '''	"log"
''', '''	"log"
	"strings"
'''), ('v2/xcache.go', '''		if x == key {
''', '''		if strings.EqualFold(x, key) {
''')],
     X + '''
func TestDemo(t *testing.T) {
	c := xcore.NewXCache("c", 0, 0)
	c.Set("a", 1)
	c.Set("A", 2)
	c.Del("A")
	if n := c.Clean(100); n != 1 || c.Count() != 0 {
		t.Fatal(n, c.Count())
	}
}''')

seed('c05-clean-shared-lock', 'C05', 'two cleanings, or a cleaning and a read, at the same time',
     'Clean takes the shared lock, so concurrent calls change the map together',
     [('v2/xcache.go', '''func (c *XCache) Clean(perc int) int {
	c.mutex.Lock()
	defer c.mutex.Unlock()
''', '''func (c *XCache) Clean(perc int) int {
	c.mutex.RLock()
	defer c.mutex.RUnlock()
''')],
     'import (\n"strconv"\n"sync"\n"testing"\n\nxcore "github.com/webability-go/xcore/v2"\n)\n' + '''
func TestDemo(t *testing.T) {
	c := xcore.NewXCache("c", 0, 0)
	for i := 0; i < 2000; i++ {
		c.Set(strconv.Itoa(i), i)
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				c.Clean(1)
			}
		}()
	}
	wg.Wait()
}''', race=True)

seed('c05-flush-unlocked', 'C05', 'Flush while other goroutines use the cache',
     'Flush replaces the map before it takes the lock',
     [('v2/xcache.go', '''func (c *XCache) Flush() {
	c.mutex.Lock()
	defer c.mutex.Unlock()
	// how to really deletes the data ? ( to free memory)
	c.items = make(map[string]*XCacheEntry)
''', '''func (c *XCache) Flush() {
	// how to really deletes the data ? ( to free memory)
	c.items = make(map[string]*XCacheEntry)
	c.mutex.Lock()
	defer c.mutex.Unlock()
''')],
     'import (\n"sync"\n"testing"\n\nxcore "github.com/webability-go/xcore/v2"\n)\n' + '''
func TestDemo(t *testing.T) {
	c := xcore.NewXCache("c", 0, 0)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				c.Set("a", i)
				c.Get("a")
				c.Flush()
			}
		}()
	}
	wg.Wait()
}''', race=True)

seed('c02-negative-ttl', 'C02', 'a TTL that has already elapsed when it is set (negative)',
     'a negative TTL is treated like none, so the entry is served',
     [('v2/xcache.go', '''		if x.ttl != 0 {
''', '''		if x.ttl > 0 {
''')],
     XT + '''
func TestDemo(t *testing.T) {
	c := xcore.NewXCache("c", 0, 0)
	c.Set("a", 1)
	c.SetTTL("a", -time.Second)
	if v, bad := c.Get("a"); v != nil || !bad {
		t.Fatal(v, bad)
	}
}''')

seed('c06-empty-head', 'C06', 'a path whose first component is the empty key',
     'empty path components are skipped, so >b is looked up as b',
     [('v2/xdataset.go', '''	xid := strings.Split(key, ">")
''', '''	xid := strings.Split(strings.TrimPrefix(key, ">"), ">")
''')],
     X + '''
func TestDemo(t *testing.T) {
	d := xcore.NewXDataset(map[string]interface{}{"b": map[string]interface{}{"c": 1}})
	if v, ok := d.Get(">b>c"); ok || v != nil {
		t.Fatal(v, ok)
	}
}''')

seed('c13-space-comment', 'C13', 'a key=value line whose key is preceded by blanks and starts with # or ;',
     'the line is trimmed before the comment test, so an indented key that starts with # or ; is dropped',
     [('v2/xlanguage.go', '''		line := scanner.Text()
''', '''		line := strings.TrimSpace(scanner.Text())
''')],
     'import (\n"testing"\n\nxcore "github.com/webability-go/xcore/v2"\n"golang.org/x/text/language"\n)\n' + '''
func TestDemo(t *testing.T) {
	l := xcore.NewXLanguage("l", language.English)
	if err := l.LoadString(" #a=1\\nb=2"); err != nil {
		t.Fatal(err)
	}
	if l.Get("#a") != "1" || l.Get("b") != "2" {
		t.Fatal(l.GetEntries())
	}
}''')

seed('c16-add-nil-map', 'C16', 'a template gets a second sub template of another name',
     'AddTemplate starts a new table when the added template has sub templates of its own',
     [('v2/xtemplate.go', '''	if t.SubTemplates == nil {
		t.SubTemplates''', '''	if t.SubTemplates == nil || tmpl != nil && len(tmpl.SubTemplates) > len(t.SubTemplates) {
		t.SubTemplates''')],
     X + '''
func TestDemo(t *testing.T) {
	a, b, p := &xcore.XTemplate{Name: "a"}, &xcore.XTemplate{Name: "b"}, &xcore.XTemplate{Name: "p"}
	b.AddTemplate("x", &xcore.XTemplate{})
	b.AddTemplate("y", &xcore.XTemplate{})
	p.AddTemplate("a", a)
	p.AddTemplate("b", b)
	if p.GetTemplate("a") != a || p.GetTemplate("b") != b {
		t.Fatal("lost")
	}
}''')

seed('c17-counter-shared', 'C17', 'a loop inside a loop over the same collection, {{.counter}} after the inner one',
     'the counter of a loop starts at the counter of the enclosing scope when that has one',
     [('v2/xtemplate.go', '''							dcl.Set(".counter", i+1)
''', '''							if _, ok := dcl.Get(".counter"); !ok || i > 0 {
								dcl.Set(".counter", i+1)
							}
''')],
     X + '''
func TestDemo(t *testing.T) {
	tm, err := xcore.NewXTemplateFromString("@@l:r@@[[r]]{{.counter}},[[]]")
	if err != nil {
		t.Fatal(err)
	}
	d := xcore.NewXDataset(map[string]interface{}{"l": []map[string]interface{}{{".counter": 7}, {}}})
	if s := tm.Execute(d); s != "1,2," {
		t.Fatal(s)
	}
}''')

seed('c19-nil-root', 'C19', 'a template whose element list is empty is cloned',
     'a clone of a template with an empty element list has no element list',
     [('v2/xtemplate.go', '''	if t.Root != nil {
		var newroot''', '''	if t.Root != nil && len(*t.Root) > 0 {
		var newroot''')],
     X + '''
func TestDemo(t *testing.T) {
	tm, err := xcore.NewXTemplateFromString("")
	if err != nil {
		t.Fatal(err)
	}
	if a, b := tm.Execute(nil), tm.Clone().Execute(nil); a != b {
		t.Fatal(a, b)
	}
}''')

seed('c20-trailing-space', 'C20', 'a data set whose last printed value ends with a blank',
     'the printed entries are trimmed, so a value that ends with a blank loses it',
     [('v2/xdataset.go', '''	return "#xcore.XDataset{" + strings.Join(sdata, " ") + "}"''', '''	return "#xcore.XDataset{" + strings.TrimRight(strings.Join(sdata, " "), " ") + "}"''')],
     X + '''
type blank struct{}

func (blank) GoString() string { return "x " }

func TestDemo(t *testing.T) {
	d := xcore.XDataset{"a": blank{}}
	if s := d.GoString(); s != "#xcore.XDataset{a:x }" {
		t.Fatal(s)
	}
}''')
