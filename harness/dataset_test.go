package xcore_test

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/webability-go/xcore/v2"
)

// A model of nested data next to the real objects -----------------------------------

// dm is a data set, dc a collection; real is what the package sees.
type dm struct {
	real xcore.XDatasetDef
	m    map[string]interface{} // leaf, *dm or *dc
	kind string
}
type dc struct {
	real xcore.XDatasetCollectionDef
	l    []*dm
	kind string
}

type namedInt int

// a foreign implementation of the interface
type ownSet struct{ *xcore.XDataset }

func (o *ownSet) Clone() xcore.XDatasetDef {
	c := o.XDataset.Clone().(*xcore.XDataset)
	return &ownSet{c}
}

var dkeys = []string{"a", "b", "c", "d", "", "0", "1", ".counter", "a>b", "b>1", "a>", ">", "c>0>a", "é"}
var dcomps = []string{"a", "b", "c", "d", "", "0", "1", "2", "-1", "+1", "01", "1x", " 1", "1 ", "99999999999999999999", "0x1", "1_0", "é", ".counter"}

func dpath(rng *rand.Rand) string {
	n := 1
	for rng.Intn(3) > 0 && n < 5 {
		n++
	}
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, dcomps[rng.Intn(len(dcomps))])
	}
	return strings.Join(p, ">")
}

var dloc = time.FixedZone("x", 3600)
var dptr = &struct{ a int }{3}

var dleaves = []func(rng *rand.Rand) interface{}{
	func(r *rand.Rand) interface{} { return nil },
	func(r *rand.Rand) interface{} { return "" },
	func(r *rand.Rand) interface{} { return "text" },
	func(r *rand.Rand) interface{} { return "0" },
	func(r *rand.Rand) interface{} { return r.Intn(2) == 0 },
	func(r *rand.Rand) interface{} { return dint(r) },
	func(r *rand.Rand) interface{} { return int8(dint(r)) },
	func(r *rand.Rand) interface{} { return int16(dint(r)) },
	func(r *rand.Rand) interface{} { return int32(dint(r)) },
	func(r *rand.Rand) interface{} { return int64(dint(r)) },
	func(r *rand.Rand) interface{} { return uint(dint(r)) },
	func(r *rand.Rand) interface{} { return uint8(dint(r)) },
	func(r *rand.Rand) interface{} { return uint16(dint(r)) },
	func(r *rand.Rand) interface{} { return uint32(dint(r)) },
	func(r *rand.Rand) interface{} { return uint64(dint(r)) },
	func(r *rand.Rand) interface{} {
		return []float32{0, float32(math.Copysign(0, -1)), 1.5, -1.5, 1e9, 1e-9, -0.25}[r.Intn(7)]
	},
	func(r *rand.Rand) interface{} {
		return []float64{0, math.Copysign(0, -1), 1.5, -1.99, 1e15, 1e-300, -0.25, 4294967297.5}[r.Intn(8)]
	},
	func(r *rand.Rand) interface{} { return math.NaN() },
	func(r *rand.Rand) interface{} { return math.Inf(-1) },
	func(r *rand.Rand) interface{} { return time.Time{} },
	func(r *rand.Rand) interface{} { return time.Time{}.In(dloc) },
	func(r *rand.Rand) interface{} { return time.Unix(0, 0) },
	func(r *rand.Rand) interface{} {
		return time.Unix(int64(r.Intn(2000000000)-1000000000), 999).In(dloc)
	},
	func(r *rand.Rand) interface{} { return time.Second },
	func(r *rand.Rand) interface{} { return complex(1, 2) },
	func(r *rand.Rand) interface{} { return []string{"x", "y"} },
	func(r *rand.Rand) interface{} { return []string(nil) },
	func(r *rand.Rand) interface{} { return []bool{true} },
	func(r *rand.Rand) interface{} { return []int{} },
	func(r *rand.Rand) interface{} { return []int{1, 2} },
	func(r *rand.Rand) interface{} { return []float64{1.5} },
	func(r *rand.Rand) interface{} { return []time.Time{{}, time.Unix(5, 0)} },
	func(r *rand.Rand) interface{} { return []interface{}{1, "a"} },
	func(r *rand.Rand) interface{} { return map[string]string{"a": "b"} },
	func(r *rand.Rand) interface{} { return map[string]interface{}{"a": 1, "b": 2} },
	func(r *rand.Rand) interface{} { return xcore.XDataset{"a": 1} }, // not a data set: the pointer is
	func(r *rand.Rand) interface{} { return xcore.XDatasetCollection{&xcore.XDataset{"a": 1}} },
	func(r *rand.Rand) interface{} { return fmt.Errorf("an error") },
	func(r *rand.Rand) interface{} { return dptr },
	func(r *rand.Rand) interface{} { return struct{}{} },
}

func dint(r *rand.Rand) int {
	return []int{0, 1, 2, -1, 127, 128, 255, 256, -128, 32768, 65535, 65536, 1 << 31, 1<<31 - 1, 1 << 40, math.MaxInt64, math.MinInt64, 300}[r.Intn(18)]
}

func dleaf(rng *rand.Rand) interface{} { return dleaves[rng.Intn(len(dleaves))](rng) }

func newSet(kind string) *dm {
	n := &dm{m: map[string]interface{}{}, kind: kind}
	switch kind {
	case "ts":
		n.real = xcore.NewXDatasetTS(&xcore.XDataset{})
	case "own":
		n.real = &ownSet{&xcore.XDataset{}}
	default:
		n.real = &xcore.XDataset{}
	}
	return n
}
func newColl(kind string) *dc {
	c := &dc{kind: kind}
	if kind == "ts" {
		c.real = &xcore.XDatasetCollectionTS{}
	} else {
		c.real = &xcore.XDatasetCollection{}
	}
	return c
}
func (n *dm) put(k string, v interface{}) {
	n.m[k] = v
	n.real.Set(k, dreal(v))
}
func (c *dc) push(e *dm) {
	c.l = append(c.l, e)
	c.real.Push(e.real)
}
func dreal(v interface{}) interface{} {
	switch x := v.(type) {
	case *dm:
		return x.real
	case *dc:
		return x.real
	case tlang:
		return x.l
	}
	return v
}

func dset(rng *rand.Rand, depth int) *dm {
	n := newSet([]string{"", "", "", "ts", "own"}[rng.Intn(5)])
	for i := rng.Intn(5); i >= 0; i-- {
		n.put(dkeys[rng.Intn(len(dkeys))], dvalue(rng, depth))
	}
	return n
}
func dcoll(rng *rand.Rand, depth int) *dc {
	c := newColl([]string{"", "", "ts"}[rng.Intn(3)])
	for i := rng.Intn(4); i > 0; i-- {
		c.push(dset(rng, depth))
	}
	return c
}
func dvalue(rng *rand.Rand, depth int) interface{} {
	if depth > 0 {
		switch rng.Intn(6) {
		case 0, 1:
			return dset(rng, depth-1)
		case 2, 3:
			return dcoll(rng, depth-1)
		}
	}
	return dleaf(rng)
}

func (n *dm) String() string {
	var ks []string
	for k := range n.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := "set" + n.kind + "{"
	for _, k := range ks {
		s += fmt.Sprintf("%q:%s ", k, dshow(n.m[k]))
	}
	return strings.TrimSpace(s) + "}"
}
func (c *dc) String() string {
	s := "coll" + c.kind + "["
	for _, e := range c.l {
		s += e.String() + " "
	}
	return strings.TrimSpace(s) + "]"
}
func dshow(v interface{}) string {
	switch x := v.(type) {
	case *dm:
		return x.String()
	case *dc:
		return x.String()
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

// dnum: a decimal number, optionally signed.
func dnum(s string) (int, bool) {
	t := s
	neg := false
	if t != "" && (t[0] == '+' || t[0] == '-') {
		neg = t[0] == '-'
		t = t[1:]
	}
	if t == "" || len(t) > 12 {
		return 0, false
	}
	n := 0
	for _, c := range t {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int(c-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

// get is the meaning of XDataset.Get.
func (n *dm) get(key string) (interface{}, bool) {
	p := strings.IndexByte(key, '>')
	if p >= 0 {
		v, ok := n.m[key[:p]]
		if !ok {
			return nil, false
		}
		rest := key[p+1:]
		switch x := v.(type) {
		case *dm:
			return x.get(rest)
		case *dc:
			num, more := rest, ""
			q := strings.IndexByte(rest, '>')
			if q >= 0 {
				num, more = rest[:q], rest[q+1:]
			}
			i, ok := dnum(num)
			if !ok || i < 0 || i >= len(x.l) {
				return nil, false
			}
			if q < 0 {
				return x.l[i], true
			}
			return x.l[i].get(more)
		}
	}
	v, ok := n.m[key]
	return v, ok
}

// same: the same value (identical object where it has an identity).
func same(a, b interface{}) bool {
	a, b = dreal(a), dreal(b)
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.Slice:
		return va.Len() == vb.Len() && va.IsNil() == vb.IsNil() && (va.Len() == 0 || va.Pointer() == vb.Pointer())
	case reflect.Map, reflect.Ptr, reflect.Func:
		return va.Pointer() == vb.Pointer()
	case reflect.Float32, reflect.Float64:
		x, y := va.Float(), vb.Float()
		return math.Float64bits(x) == math.Float64bits(y)
	}
	return reflect.DeepEqual(a, b)
}

func checkGet(n *dm, key string) string {
	wv, wok := n.get(key)
	if !wok {
		wv = nil
	}
	gv, gok := n.real.Get(key)
	if gok != wok || !same(gv, wv) {
		return fmt.Sprintf("%s: Get(%q) = %s, %v; expected %s, %v", n, key, dshow(gv), gok, dshow(wv), wok)
	}
	return ""
}

// C06 -----------------------------------------------------------------------------

func lookup(rng *rand.Rand) (string, string) {
	n := dset(rng, 3)
	if n.kind == "ts" {
		n = dset(rng, 3)
	}
	var keys []string
	for i := 0; i < 12; i++ {
		keys = append(keys, dpath(rng))
	}
	// paths that lead somewhere
	for i := 0; i < 12; i++ {
		keys = append(keys, walk(rng, n))
	}
	keys = append(keys, dkeys...)
	desc := n.String() + " looked up"
	for _, k := range keys {
		if f := checkGet(n, k); f != "" {
			return desc, f
		}
	}
	hist := ""
	for i := rng.Intn(8); i > 0; i-- {
		before := n.String()
		k := dkeys[rng.Intn(len(dkeys))]
		var op string
		switch rng.Intn(3) {
		case 0:
			op = fmt.Sprintf("Del(%q)", k)
			delete(n.m, k)
			n.real.Del(k)
		default:
			v := dvalue(rng, 1)
			if rng.Intn(4) == 0 {
				v = nil
			}
			op = fmt.Sprintf("Set(%q, %s)", k, dshow(v))
			n.put(k, v)
		}
		hist += " " + op
		for _, k := range keys {
			if f := checkGet(n, k); f != "" {
				return desc, "after " + op + " on " + before + ": " + f
			}
		}
		if x, ok := n.real.(*xcore.XDataset); ok && len(*x) != len(n.m) {
			return desc, fmt.Sprintf("after %s on %s: %d keys instead of %d", op, before, len(*x), len(n.m))
		}
	}
	return desc + hist, ""
}

// walk builds a path along the data.
func walk(rng *rand.Rand, n *dm) string {
	var ks []string
	for k := range n.m {
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return "a"
	}
	sort.Strings(ks)
	k := ks[rng.Intn(len(ks))]
	if rng.Intn(6) == 0 {
		return k
	}
	switch x := n.m[k].(type) {
	case *dm:
		return k + ">" + walk(rng, x)
	case *dc:
		i := rng.Intn(len(x.l)+2) - 1
		num := strconv.Itoa(i)
		if rng.Intn(8) == 0 {
			num = dcomps[rng.Intn(len(dcomps))]
		}
		if i < 0 || i >= len(x.l) || rng.Intn(3) == 0 {
			return k + ">" + num
		}
		return k + ">" + num + ">" + walk(rng, x.l[i])
	}
	if rng.Intn(3) == 0 {
		return k + ">" + dcomps[rng.Intn(len(dcomps))]
	}
	return k
}

func TestVerifC06(t *testing.T) {
	vrun(t, "random nested data (maps, thread safe and foreign data sets, both collection kinds) looked up by random and existing paths, with Set and Del in between, against an independent walk", "depth 4, 5 keys per set, 4 elements per collection", nil, lookup)
}

// C07 -----------------------------------------------------------------------------

func checkTyped(n *dm, key string) string {
	v, ok := n.get(key)
	r := dreal(v)
	if !ok {
		r = nil
	}
	bad := func(name string, got interface{}, gok bool, want interface{}, wok bool) string {
		if gok != wok || !same(got, want) {
			return fmt.Sprintf("%s(%q) on %s = %s, %v; expected %s, %v", name, key, dshow(v), dshow(got), gok, dshow(want), wok)
		}
		return ""
	}
	// GetString
	ws := ""
	if ok && r != nil {
		ws = fmt.Sprint(r)
	}
	gs, gok := n.real.GetString(key)
	if f := bad("GetString", gs, gok, ws, ok); f != "" {
		return f
	}
	// numbers
	wi, wf, wb, num, wbok := 0, 0.0, false, ok, ok
	skipInt := false
	switch x := r.(type) {
	case bool:
		wb = x
		if x {
			wi, wf = 1, 1
		}
	case int:
		wi, wf, wb = x, float64(x), x != 0
	case int8:
		wi, wf, wb = int(x), float64(x), x != 0
	case int16:
		wi, wf, wb = int(x), float64(x), x != 0
	case int32:
		wi, wf, wb = int(x), float64(x), x != 0
	case int64:
		wi, wf, wb = int(x), float64(x), x != 0
	case uint:
		wi, wf, wb = int(x), float64(x), x != 0
	case uint8:
		wi, wf, wb = int(x), float64(x), x != 0
	case uint16:
		wi, wf, wb = int(x), float64(x), x != 0
	case uint32:
		wi, wf, wb = int(x), float64(x), x != 0
	case uint64:
		wi, wf, wb = int(x), float64(x), x != 0
	case float32:
		wi, wf, wb = int(x), float64(x), x != 0
	case float64:
		wf, wb = x, x != 0
		if math.IsNaN(x) || math.IsInf(x, 0) {
			skipInt = true
		} else {
			wi = int(x)
		}
	case time.Time:
		if !x.IsZero() {
			wi, wf, wb = int(x.Unix()), float64(x.Unix()), true
		}
	default:
		num = false
		wb = ok && r != nil
	}
	if gi, gok := n.real.GetInt(key); !skipInt {
		if f := bad("GetInt", gi, gok, wi, num); f != "" {
			return f
		}
	}
	gf, gok := n.real.GetFloat(key)
	if f := bad("GetFloat", gf, gok, wf, num); f != "" {
		return f
	}
	gb, gok := n.real.GetBool(key)
	if f := bad("GetBool", gb, gok, wb, wbok); f != "" {
		return f
	}
	wt, isT := r.(time.Time)
	gt, gok := n.real.GetTime(key)
	if gok != isT || gt != wt {
		return fmt.Sprintf("GetTime(%q) on %s = %v, %v; expected %v, %v", key, dshow(v), gt, gok, wt, isT)
	}
	w1, is1 := r.([]string)
	g1, gok := n.real.GetStringCollection(key)
	if f := bad("GetStringCollection", g1, gok, w1, is1); f != "" {
		return f
	}
	w2, is2 := r.([]bool)
	g2, gok := n.real.GetBoolCollection(key)
	if f := bad("GetBoolCollection", g2, gok, w2, is2); f != "" {
		return f
	}
	w3, is3 := r.([]int)
	g3, gok := n.real.GetIntCollection(key)
	if f := bad("GetIntCollection", g3, gok, w3, is3); f != "" {
		return f
	}
	w4, is4 := r.([]float64)
	g4, gok := n.real.GetFloatCollection(key)
	if f := bad("GetFloatCollection", g4, gok, w4, is4); f != "" {
		return f
	}
	w5, is5 := r.([]time.Time)
	g5, gok := n.real.GetTimeCollection(key)
	if f := bad("GetTimeCollection", g5, gok, w5, is5); f != "" {
		return f
	}
	w6, is6 := r.(xcore.XDatasetDef)
	g6, gok := n.real.GetDataset(key)
	if f := bad("GetDataset", g6, gok, w6, is6); f != "" {
		return f
	}
	w7, is7 := r.(xcore.XDatasetCollectionDef)
	g7, gok := n.real.GetCollection(key)
	if f := bad("GetCollection", g7, gok, w7, is7); f != "" {
		return f
	}
	return ""
}

func typed(rng *rand.Rand) (string, string) {
	n := newSet("")
	key := "k"
	n.put("k", dvalue(rng, 1))
	if rng.Intn(3) == 0 {
		in := dset(rng, 1)
		n.put("a", in)
		key = "a>" + walk(rng, in)
	}
	if rng.Intn(10) == 0 {
		key = dpath(rng)
	}
	v, _ := n.get(key)
	desc := key + " on " + dshow(v)
	f := ""
	if p := vcall(func() { f = checkTyped(n, key) }); p != "" {
		f = desc + ": " + p
	}
	return desc, f
}

func typedAll() (string, string) {
	rng := rand.New(rand.NewSource(1))
	for _, g := range dleaves {
		for i := 0; i < 40; i++ {
			n := newSet("")
			n.put("k", g(rng))
			f := ""
			if p := vcall(func() { f = checkTyped(n, "k") }); p != "" {
				f = n.String() + ": " + p
			}
			if f != "" {
				return n.String(), f
			}
		}
	}
	return "every kind of value", ""
}

func TestVerifC07(t *testing.T) {
	vrun(t, "every typed getter on values of every kind, stored directly or reached by a path, against the conversions written out by hand", "one value per case", []func() (string, string){typedAll}, typed)
}

// C08 -----------------------------------------------------------------------------

func (c *dc) check(keys []string) string {
	if n := c.real.Count(); n != len(c.l) {
		return fmt.Sprintf("Count() = %d, expected %d", n, len(c.l))
	}
	for i := -2; i < len(c.l)+3; i++ {
		e, ok := c.real.Get(i)
		in := i >= 0 && i < len(c.l)
		if ok != in || in && e != c.l[i].real || !in && e != nil {
			return fmt.Sprintf("Get(%d) with %d elements = %v, %v", i, len(c.l), e != nil, ok)
		}
	}
	for _, k := range keys {
		var v interface{}
		ok := false
		for i := len(c.l) - 1; i >= 0 && !ok; i-- {
			v, ok = c.l[i].get(k)
		}
		if !ok {
			v = nil
		}
		r := dreal(v)
		bad := func(name string, got interface{}, gok bool, want interface{}, wok bool) string {
			if gok != wok || !same(got, want) {
				return fmt.Sprintf("%s(%q) = %s, %v; expected %s, %v (value %s)", name, k, dshow(got), gok, dshow(want), wok, dshow(v))
			}
			return ""
		}
		f := ""
		if p := vcall(func() {
			g, gok := c.real.GetData(k)
			if f = bad("GetData", g, gok, r, ok); f != "" {
				return
			}
			ws := ""
			if r != nil {
				ws = fmt.Sprint(r)
			}
			gs, gok := c.real.GetDataString(k)
			if f = bad("GetDataString", gs, gok, ws, ok); f != "" {
				return
			}
			wi, is := r.(int)
			gi, gok := c.real.GetDataInt(k)
			if f = bad("GetDataInt", gi, gok, wi, is); f != "" {
				return
			}
			wb, is := r.(bool)
			gb, gok := c.real.GetDataBool(k)
			if f = bad("GetDataBool", gb, gok, wb, is); f != "" {
				return
			}
			wf, is := r.(float64)
			gf, gok := c.real.GetDataFloat(k)
			if f = bad("GetDataFloat", gf, gok, wf, is); f != "" {
				return
			}
			wt, is := r.(time.Time)
			gt, gok := c.real.GetDataTime(k)
			if f = bad("GetDataTime", gt, gok, wt, is); f != "" {
				return
			}
			wc, is := r.(xcore.XDatasetCollectionDef)
			gc, gok := c.real.GetCollection(k)
			f = bad("GetCollection", gc, gok, wc, is)
		}); p != "" {
			return fmt.Sprintf("looking up %q: %s", k, p)
		}
		if f != "" {
			return f
		}
	}
	return ""
}

func deque(rng *rand.Rand) (string, string) {
	c := newColl([]string{"", "ts"}[rng.Intn(2)])
	hist := "collection" + c.kind + ":"
	n := 1 + rng.Intn(12)
	for i := 0; i < n; i++ {
		switch o := rng.Intn(6); {
		case o < 2 || len(c.l) == 0 && o < 3:
			e := dset(rng, 1)
			hist += " Push(" + e.String() + ")"
			c.push(e)
		case o < 4 || len(c.l) == 0:
			e := dset(rng, 1)
			if len(c.l) > 0 && rng.Intn(4) == 0 {
				e = c.l[rng.Intn(len(c.l))] // the same element twice
			}
			hist += " Unshift(" + e.String() + ")"
			c.l = append([]*dm{e}, c.l...)
			c.real.Unshift(e.real)
		case o < 5:
			hist += " Pop()"
			e := c.l[len(c.l)-1]
			c.l = c.l[:len(c.l)-1]
			if g := c.real.Pop(); g != e.real {
				return hist, hist + ": wrong element"
			}
		default:
			hist += " Shift()"
			e := c.l[0]
			c.l = append([]*dm{}, c.l[1:]...)
			if g := c.real.Shift(); g != e.real {
				return hist, hist + ": wrong element"
			}
		}
		keys := append([]string{dpath(rng), dpath(rng)}, "a", "b", "c", "d", "0", "", "zz")
		if len(c.l) > 0 {
			keys = append(keys, walk(rng, c.l[rng.Intn(len(c.l))]), walk(rng, c.l[rng.Intn(len(c.l))]))
		}
		if f := c.check(keys); f != "" {
			return hist, hist + ": " + f
		}
	}
	return hist, ""
}

func TestVerifC08(t *testing.T) {
	vrun(t, "random sequences of Push, Unshift, Pop and Shift on both collection kinds, every accessor compared with a list after each call", "12 calls", nil, deque)
}

// C09 -----------------------------------------------------------------------------

// content lists everything reachable, without the package's own printing.
func content(v interface{}, refs map[uintptr]bool) string {
	note := func(p interface{}) {
		if refs != nil {
			refs[reflect.ValueOf(p).Pointer()] = true
		}
	}
	switch x := v.(type) {
	case *xcore.XDataset:
		note(x)
		if len(*x) > 0 {
			note(*x)
		}
		var ks []string
		for k := range *x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "set{"
		for _, k := range ks {
			s += fmt.Sprintf("%q:%s ", k, content((*x)[k], refs))
		}
		return s + "}"
	case *ownSet:
		note(x)
		return "own" + content(x.XDataset, refs)
	case *xcore.XDatasetTS:
		note(x)
		s := "ts{"
		for _, k := range append(append([]string{}, dkeys...), "new1", "new2") {
			if strings.Contains(k, ">") {
				continue // a path, not a key of this level
			}
			if e, ok := x.Get(k); ok {
				s += fmt.Sprintf("%q:%s ", k, content(e, refs))
			}
		}
		return s + "}"
	case *xcore.XDatasetCollection:
		note(x)
		if len(*x) > 0 {
			note([]xcore.XDatasetDef(*x))
		}
		s := "coll["
		for _, e := range *x {
			s += content(e, refs) + " "
		}
		return s + "]"
	case *xcore.XDatasetCollectionTS:
		note(x)
		s := "collts["
		for i := 0; i < x.Count(); i++ {
			e, _ := x.Get(i)
			s += content(e, refs) + " "
		}
		return s + "]"
	}
	rv := reflect.ValueOf(v)
	if v != nil && (rv.Kind() == reflect.Slice && rv.Len() > 0 || rv.Kind() == reflect.Map || rv.Kind() == reflect.Ptr) {
		return fmt.Sprintf("%T(%v)@%x", v, v, rv.Pointer())
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

// nodes lists the nested sets and collections of a real object.
func nodes(v interface{}, out *[]interface{}) {
	switch x := v.(type) {
	case *xcore.XDataset:
		*out = append(*out, x)
		for _, k := range dkeys {
			nodes((*x)[k], out)
		}
	case *ownSet:
		nodes(x.XDataset, out)
	case *xcore.XDatasetTS:
		*out = append(*out, x)
		for _, k := range dkeys {
			if !strings.Contains(k, ">") {
				e, _ := x.Get(k)
				nodes(e, out)
			}
		}
	case *xcore.XDatasetCollection:
		*out = append(*out, x)
		for _, e := range *x {
			nodes(e, out)
		}
	case *xcore.XDatasetCollectionTS:
		*out = append(*out, x)
		for i := 0; i < x.Count(); i++ {
			e, _ := x.Get(i)
			nodes(e, out)
		}
	}
}

func mutate(rng *rand.Rand, v interface{}) string {
	var ns []interface{}
	nodes(v, &ns)
	n := ns[rng.Intn(len(ns))]
	switch x := n.(type) {
	case xcore.XDatasetDef:
		k := append([]string{"new1", "new2"}, "a", "b", "c", "d", "0")[rng.Intn(7)]
		if rng.Intn(3) == 0 {
			x.Del(k)
			return fmt.Sprintf("Del(%q)", k)
		}
		w := rng.Intn(1000)
		x.Set(k, w)
		return fmt.Sprintf("Set(%q, %d)", k, w)
	case xcore.XDatasetCollectionDef:
		switch rng.Intn(4) {
		case 0:
			x.Push(&xcore.XDataset{"new": rng.Intn(1000)})
			return "Push"
		case 1:
			x.Unshift(&xcore.XDataset{"new": rng.Intn(1000)})
			return "Unshift"
		case 2:
			if x.Count() > 0 {
				x.Pop()
				return "Pop"
			}
		default:
			if x.Count() > 0 {
				x.Shift()
				return "Shift"
			}
		}
	}
	return ""
}

func cloning(rng *rand.Rand) (string, string) {
	var orig, cl interface{}
	var desc string
	if rng.Intn(2) == 0 {
		n := dset(rng, 2)
		orig, desc = n.real, n.String()
	} else {
		c := dcoll(rng, 2)
		orig, desc = c.real, c.String()
	}
	// leave spare capacity behind
	for i := rng.Intn(3); i > 0; i-- {
		mutate(rng, orig)
	}
	r1 := map[uintptr]bool{}
	before := content(orig, r1)
	clone := func() {
		switch x := orig.(type) {
		case xcore.XDatasetDef:
			cl = x.Clone()
		case xcore.XDatasetCollectionDef:
			cl = x.Clone()
		}
	}
	if p := vcall(clone); p != "" {
		return desc, "Clone of " + before + ": " + p
	}
	if reflect.TypeOf(cl) != reflect.TypeOf(orig) {
		return desc, fmt.Sprintf("Clone of a %T is a %T", orig, cl)
	}
	if after := content(orig, nil); after != before {
		return desc, "Clone changed the original\nfrom " + before + "\nto   " + after
	}
	r2 := map[uintptr]bool{}
	if c := content(cl, r2); c != before {
		return desc, "Clone differs\noriginal " + before + "\nclone    " + c
	}
	for p := range r2 {
		if r1[p] {
			return desc, "Clone shares an object with the original " + before
		}
	}
	a, b := orig, cl
	for i := 0; i < 12; i++ {
		if rng.Intn(2) == 0 {
			a, b = b, a
		}
		bb := content(b, nil)
		op := mutate(rng, a)
		if g := content(b, nil); g != bb {
			return desc, fmt.Sprintf("%s in one of original and clone of %s shows in the other: %s became %s", op, before, bb, g)
		}
	}
	return desc, ""
}

func TestVerifC09(t *testing.T) {
	vrun(t, "random nested data cloned, compared, checked for shared objects, then changed on either side at random places", "depth 3, 12 changes", nil, cloning)
}

// C10 -----------------------------------------------------------------------------

func plainMap(rng *rand.Rand, depth int) map[string]interface{} {
	m := map[string]interface{}{}
	if rng.Intn(12) == 0 {
		return nil
	}
	for i := rng.Intn(5); i > 0; i-- {
		m[dkeys[rng.Intn(len(dkeys))]] = plainValue(rng, depth)
	}
	return m
}
func plainValue(rng *rand.Rand, depth int) interface{} {
	if depth > 0 {
		switch rng.Intn(6) {
		case 0, 1:
			return plainMap(rng, depth-1)
		case 2:
			s := []interface{}{}
			if rng.Intn(8) == 0 {
				return []interface{}(nil)
			}
			for i := rng.Intn(5); i > 0; i-- {
				if rng.Intn(3) == 0 {
					s = append(s, plainValue(rng, 0))
				} else {
					s = append(s, plainMap(rng, depth-1))
				}
			}
			return s
		case 3:
			return plainMaps(rng, depth-1)
		}
	}
	if rng.Intn(8) == 0 {
		return &xcore.XDataset{"x": 1}
	}
	for {
		v := dleaf(rng)
		if x, ok := v.(float64); ok && x != x {
			continue // not equal to itself
		}
		return v
	}
}
func plainMaps(rng *rand.Rand, depth int) []map[string]interface{} {
	var s []map[string]interface{}
	for i := rng.Intn(5); i > 0; i-- {
		s = append(s, plainMap(rng, depth))
	}
	return s
}

func copyPlain(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		if x == nil {
			return x
		}
		m := map[string]interface{}{}
		for k, e := range x {
			m[k] = copyPlain(e)
		}
		return m
	case []interface{}:
		if x == nil {
			return x
		}
		s := []interface{}{}
		for _, e := range x {
			s = append(s, copyPlain(e))
		}
		return s
	case []map[string]interface{}:
		if x == nil {
			return x
		}
		s := []map[string]interface{}{}
		for _, e := range x {
			s = append(s, copyPlain(e).(map[string]interface{}))
		}
		return s
	}
	return v
}

func mirrors(v, w interface{}, at string) string {
	coll := func(ms []map[string]interface{}) string {
		c, ok := w.(xcore.XDatasetCollectionDef)
		if !ok {
			return fmt.Sprintf("%s: %T instead of a collection", at, w)
		}
		if c.Count() != len(ms) {
			return fmt.Sprintf("%s: collection of %d instead of %d", at, c.Count(), len(ms))
		}
		for i, m := range ms {
			e, _ := c.Get(i)
			if f := mirrors(m, e, fmt.Sprintf("%s>%d", at, i)); f != "" {
				return f
			}
		}
		return ""
	}
	switch x := v.(type) {
	case map[string]interface{}:
		d, ok := w.(*xcore.XDataset)
		if !ok {
			return fmt.Sprintf("%s: %T instead of a data set", at, w)
		}
		if d == nil {
			return at + ": nil data set"
		}
		if len(*d) != len(x) {
			return fmt.Sprintf("%s: %d keys instead of %d", at, len(*d), len(x))
		}
		for k, e := range x {
			g, ok := (*d)[k]
			if !ok {
				return fmt.Sprintf("%s: no key %q", at, k)
			}
			if f := mirrors(e, g, at+">"+k); f != "" {
				return f
			}
		}
		return ""
	case []interface{}:
		var ms []map[string]interface{}
		for _, e := range x {
			if m, ok := e.(map[string]interface{}); ok {
				ms = append(ms, m)
			}
		}
		return coll(ms)
	case []map[string]interface{}:
		return coll(x)
	}
	if !same(v, w) {
		return fmt.Sprintf("%s: %s instead of %s", at, dshow(w), dshow(v))
	}
	return ""
}

func building(rng *rand.Rand) (string, string) {
	var src, got interface{}
	if rng.Intn(3) > 0 {
		m := plainMap(rng, 3)
		src = m
	} else {
		src = plainMaps(rng, 2)
	}
	keep := copyPlain(src)
	desc := fmt.Sprintf("%#v", src)
	if p := vcall(func() {
		switch x := src.(type) {
		case map[string]interface{}:
			got = xcore.NewXDataset(x)
		case []map[string]interface{}:
			got = xcore.NewXDatasetCollection(x)
		}
	}); p != "" {
		return desc, "building from " + desc + ": " + p
	}
	if !reflect.DeepEqual(src, keep) {
		return desc, "building changed its source " + desc
	}
	if f := mirrors(src, got, "top"); f != "" {
		return desc, f + "\nsource " + desc
	}
	for i := 0; i < 4; i++ {
		if p := vcall(func() { mutate(rng, got) }); p != "" {
			return desc, "changing what was built from " + desc + ": " + p
		}
	}
	if !reflect.DeepEqual(src, keep) {
		return desc, "a change of what was built shows in its source " + desc
	}
	return desc, ""
}

func TestVerifC10(t *testing.T) {
	vrun(t, "random nested maps, slices of maps and generic slices turned into data sets, compared level by level with the source", "depth 4, 4 keys or elements per level", nil, building)
}

// C11 -----------------------------------------------------------------------------

// probe is a data set that notices unsynchronised use (its counter) and can panic.
type probe struct {
	n     int
	calls []string
	log   bool
	panic string
	hook  func()
}

func (p *probe) read(m string, key string) {
	_ = p.n
	p.do(m, key)
}
func (p *probe) write(m string, key string) {
	p.n++
	p.do(m, key)
}
func (p *probe) do(m, key string) {
	if p.log {
		p.calls = append(p.calls, m+" "+key)
	}
	if p.hook != nil {
		p.hook()
	}
	if p.panic == m {
		panic("probe " + m)
	}
}

var probeColl = &xcore.XDatasetCollection{}
var probeSet = &xcore.XDataset{}

func (p *probe) String() string   { p.read("String", ""); return "probe" }
func (p *probe) GoString() string { p.read("GoString", ""); return "#probe" }
func (p *probe) Set(k string, v interface{}) {
	p.write("Set", fmt.Sprint(k, v))
}
func (p *probe) Del(k string)                     { p.write("Del", k) }
func (p *probe) Get(k string) (interface{}, bool) { p.read("Get", k); return "g" + k, k != "no" }
func (p *probe) GetDataset(k string) (xcore.XDatasetDef, bool) {
	p.read("GetDataset", k)
	return probeSet, k != "no"
}
func (p *probe) GetCollection(k string) (xcore.XDatasetCollectionDef, bool) {
	p.read("GetCollection", k)
	return probeColl, k != "no"
}
func (p *probe) GetString(k string) (string, bool) { p.read("GetString", k); return "s" + k, k != "no" }
func (p *probe) GetBool(k string) (bool, bool)     { p.read("GetBool", k); return k != "f", k != "no" }
func (p *probe) GetInt(k string) (int, bool)       { p.read("GetInt", k); return 41 + len(k), k != "no" }
func (p *probe) GetFloat(k string) (float64, bool) { p.read("GetFloat", k); return 4.5, k != "no" }
func (p *probe) GetTime(k string) (time.Time, bool) {
	p.read("GetTime", k)
	return time.Unix(7, 0), k != "no"
}
func (p *probe) GetStringCollection(k string) ([]string, bool) {
	p.read("GetStringCollection", k)
	return []string{k}, k != "no"
}
func (p *probe) GetBoolCollection(k string) ([]bool, bool) {
	p.read("GetBoolCollection", k)
	return []bool{true, k == ""}, k != "no"
}
func (p *probe) GetIntCollection(k string) ([]int, bool) {
	p.read("GetIntCollection", k)
	return []int{3, len(k)}, k != "no"
}
func (p *probe) GetFloatCollection(k string) ([]float64, bool) {
	p.read("GetFloatCollection", k)
	return []float64{2.5}, k != "no"
}
func (p *probe) GetTimeCollection(k string) ([]time.Time, bool) {
	p.read("GetTimeCollection", k)
	return []time.Time{time.Unix(9, 0)}, k != "no"
}
func (p *probe) Clone() xcore.XDatasetDef { p.read("Clone", ""); return &probe{n: p.n} }

// tsMethods: every method of a data set, giving its results.
func tsMethods(d xcore.XDatasetDef) map[string]func(k string) string {
	f := func(a ...interface{}) string { return fmt.Sprintf("%#v", a) }
	return map[string]func(k string) string{
		"String":   func(k string) string { return f(d.String()) },
		"GoString": func(k string) string { return f(d.GoString()) },
		"Set":      func(k string) string { d.Set(k, "v"+k); return "" },
		"Del":      func(k string) string { d.Del(k); return "" },
		"Get":      func(k string) string { v, ok := d.Get(k); return f(v, ok) },
		"GetDataset": func(k string) string {
			v, ok := d.GetDataset(k)
			return f(v == xcore.XDatasetDef(probeSet), ok)
		},
		"GetCollection": func(k string) string {
			v, ok := d.GetCollection(k)
			return f(v == xcore.XDatasetCollectionDef(probeColl), ok)
		},
		"GetString":           func(k string) string { v, ok := d.GetString(k); return f(v, ok) },
		"GetBool":             func(k string) string { v, ok := d.GetBool(k); return f(v, ok) },
		"GetInt":              func(k string) string { v, ok := d.GetInt(k); return f(v, ok) },
		"GetFloat":            func(k string) string { v, ok := d.GetFloat(k); return f(v, ok) },
		"GetTime":             func(k string) string { v, ok := d.GetTime(k); return f(v.Unix(), ok) },
		"GetStringCollection": func(k string) string { v, ok := d.GetStringCollection(k); return f(v, ok) },
		"GetBoolCollection":   func(k string) string { v, ok := d.GetBoolCollection(k); return f(v, ok) },
		"GetIntCollection":    func(k string) string { v, ok := d.GetIntCollection(k); return f(v, ok) },
		"GetFloatCollection":  func(k string) string { v, ok := d.GetFloatCollection(k); return f(v, ok) },
		"GetTimeCollection":   func(k string) string { v, ok := d.GetTimeCollection(k); return f(len(v), ok) },
		"Clone":               func(k string) string { return f(d.Clone() != nil) },
	}
}

// tsDelegates: same answers and the same single call on the wrapped data.
func tsDelegates() (string, string) {
	for _, k := range []string{"a", "no", "f", "", "a>b"} {
		p, q := &probe{log: true}, &probe{log: true}
		ts := xcore.NewXDatasetTS(q)
		a, b := tsMethods(p), tsMethods(ts)
		var names []string
		for n := range a {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			p.calls, q.calls = nil, nil
			var ra, rb string
			if e := vcall(func() { ra, rb = a[n](k), b[n](k) }); e != "" {
				return "delegation", fmt.Sprintf("%s(%q) on a wrapped data set: %s", n, k, e)
			}
			if ra != rb {
				return "delegation", fmt.Sprintf("XDatasetTS.%s(%q) = %s, the wrapped data set answers %s", n, k, rb, ra)
			}
			if n == "Set" || n == "Del" {
				if fmt.Sprint(p.calls) != fmt.Sprint(q.calls) {
					return "delegation", fmt.Sprintf("XDatasetTS.%s(%q) does %v on the wrapped data set instead of %v", n, k, q.calls, p.calls)
				}
			} else {
				for _, c := range q.calls {
					if strings.HasPrefix(c, "Set ") || strings.HasPrefix(c, "Del ") {
						return "delegation", fmt.Sprintf("XDatasetTS.%s(%q) changes the wrapped data set: %v", n, k, q.calls)
					}
				}
			}
		}
	}
	// a real data set behind it
	for i := 0; i < 300; i++ {
		rng := rand.New(rand.NewSource(int64(i)))
		n := dset(rng, 2)
		ts := xcore.NewXDatasetTS(n.real)
		for j := 0; j < 20; j++ {
			k := walk(rng, n)
			a, b := tsMethods(n.real), tsMethods(ts)
			for m := range a {
				if m == "Set" || m == "Del" {
					continue
				}
				if ra, rb := a[m](k), b[m](k); ra != rb {
					return "delegation", fmt.Sprintf("XDatasetTS.%s(%q) = %s, the wrapped %s answers %s", m, k, rb, n, ra)
				}
			}
		}
	}
	return "delegation of every method", ""
}

func unlockedTS(ts *xcore.XDatasetTS, q *probe) bool {
	q.panic = ""
	q.hook = nil
	return within(5*time.Second, func() { ts.Set("x", 1) })
}

// tsPanics: a panic of the wrapped data leaves it unlocked.
func tsPanics() (string, string) {
	for n := range tsMethods(&probe{}) {
		q := &probe{panic: n}
		ts := xcore.NewXDatasetTS(q)
		m := tsMethods(ts)[n]
		vcall(func() { m("a") })
		if !unlockedTS(ts, q) {
			return "panics", "XDatasetTS stays locked after a panic inside " + n
		}
	}
	// collections: empty Pop and Shift, panicking elements
	for _, n := range []string{"Pop", "Shift", "Clone", "GetData", "GetDataString", "GetDataInt", "GetDataBool", "GetDataFloat", "GetDataTime", "GetCollection", "String", "GoString", "Get", "Count"} {
		c := &xcore.XDatasetCollectionTS{}
		if n != "Pop" && n != "Shift" {
			p := &probe{}
			c.Push(p)
			p.panic = "Get"
			if n == "Clone" || n == "String" || n == "GoString" {
				p.panic = n
			}
		}
		m := collMethods(c)[n]
		vcall(func() { m(0) })
		if !within(5*time.Second, func() { c.Push(&probe{}) }) {
			return "panics", "XDatasetCollectionTS stays locked after a panic inside " + n
		}
	}
	return "panics inside every method", ""
}

func collMethods(c xcore.XDatasetCollectionDef) map[string]func(i int) {
	return map[string]func(i int){
		"Push": func(i int) { c.Push(&probe{}) }, "Unshift": func(i int) { c.Unshift(&probe{}) },
		"Pop": func(i int) { c.Pop() }, "Shift": func(i int) { c.Shift() },
		"Count": func(i int) { c.Count() }, "Get": func(i int) { c.Get(i) },
		"GetData": func(i int) { c.GetData("no") }, "GetDataString": func(i int) { c.GetDataString("no") },
		"GetDataInt": func(i int) { c.GetDataInt("no") }, "GetDataBool": func(i int) { c.GetDataBool("no") },
		"GetDataFloat": func(i int) { c.GetDataFloat("no") }, "GetDataTime": func(i int) { c.GetDataTime("no") },
		"GetCollection": func(i int) { c.GetCollection("no") },
		"Clone":         func(i int) { c.Clone() }, "String": func(i int) { _ = c.String() }, "GoString": func(i int) { _ = c.GoString() },
	}
}

// collBetween: while an element answers, another goroutine takes elements away.
func collBetween() (string, string) {
	for _, n := range []string{"GetData", "GetDataString", "GetDataInt", "GetDataBool", "GetDataFloat", "GetDataTime", "GetCollection", "Clone", "String"} {
		for size := 1; size < 5; size++ {
			for who := 0; who < size; who++ {
				for take := 1; take <= size; take++ {
					for _, front := range []bool{false, true} {
						take, front := take, front
						c := &xcore.XDatasetCollectionTS{}
						for i := 0; i < size; i++ {
							p := &probe{}
							if i == who {
								first := true
								p.hook = func() {
									if !first {
										return
									}
									first = false
									done := make(chan bool, 1)
									go func() {
										for j := 0; j < take; j++ {
											if front {
												c.Shift()
											} else {
												c.Pop()
											}
										}
										done <- true
									}()
									select {
									case <-done:
									case <-time.After(2 * time.Millisecond): // the call holds the lock
									}
								}
							}
							c.Push(p)
						}
						m := collMethods(c)[n]
						if p := vcall(func() { m(0) }); p != "" {
							return "in between", fmt.Sprintf("%s on %d elements while another goroutine removes %d (front: %v) as element %d answers: %s", n, size, take, front, who, p)
						}
						if !within(5*time.Second, func() { c.Push(&probe{}) }) {
							return "in between", n + " leaves the collection locked"
						}
					}
				}
			}
		}
	}
	return "removals while an element answers", ""
}

func tsPairs() (string, string) {
	q := &probe{}
	ts := xcore.NewXDatasetTS(q)
	ms := tsMethods(ts)
	for a, fa := range ms {
		for b, fb := range ms {
			if f := both(a, b, func(i int) { fa("k") }, func(i int) { fb("k") }); f != "" {
				return "pairs", f
			}
		}
	}
	return "every pair of XDatasetTS methods", ""
}

func collPairs() (string, string) {
	c := &xcore.XDatasetCollectionTS{}
	ms := collMethods(c)
	for a, fa := range ms {
		for b, fb := range ms {
			for c.Count() < 60 {
				c.Push(&probe{})
			}
			for c.Count() > 100 {
				c.Pop()
			}
			if f := both(a, b, fa, fb); f != "" {
				return "pairs", f
			}
		}
	}
	return "every pair of XDatasetCollectionTS methods", ""
}

func both(a, b string, fa, fb func(i int)) string {
	var wg sync.WaitGroup
	wg.Add(2)
	fail := make(chan string, 2)
	run := func(n, o string, f func(i int)) {
		defer wg.Done()
		if p := vcall(func() {
			for i := 0; i < 12; i++ {
				f(i)
			}
		}); p != "" {
			fail <- n + " next to " + o + ": " + p
		}
	}
	go run(a, b, fa)
	go run(b, a, fb)
	ok := within(20*time.Second, wg.Wait)
	if !ok {
		buf := make([]byte, 1<<15)
		return a + " next to " + b + " does not return\n" + string(buf[:runtime.Stack(buf, true)])
	}
	select {
	case f := <-fail:
		return f
	default:
	}
	return ""
}

// collStress: balanced pushes and pops from many goroutines; nothing is lost and nothing panics.
func collStress(rng *rand.Rand) (string, string) {
	c := &xcore.XDatasetCollectionTS{}
	base := rng.Intn(4)
	want := map[xcore.XDatasetDef]bool{}
	for i := 0; i < base; i++ {
		p := &probe{}
		want[p] = true
		c.Push(p)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	fail := ""
	ms := collMethods(c)
	readers := []string{"Count", "Get", "GetData", "GetDataString", "GetDataInt", "GetDataBool", "GetDataFloat", "GetDataTime", "GetCollection", "Clone", "String"}
	desc := fmt.Sprintf("%d elements,", base)
	for g := 0; g < 6; g++ {
		kind := rng.Intn(3)
		front, back, rd := rng.Intn(2) == 0, rng.Intn(2) == 0, readers[rng.Intn(len(readers))]
		if kind == 2 {
			desc += " " + rd
		} else {
			desc += fmt.Sprintf(" add(front %v)/remove(front %v)", front, back)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if p := vcall(func() {
				for i := 0; i < 25; i++ {
					if kind == 2 {
						ms[rd](i % 5)
						continue
					}
					e := &probe{}
					mu.Lock()
					want[e] = true
					mu.Unlock()
					if front {
						c.Unshift(e)
					} else {
						c.Push(e)
					}
					var r xcore.XDatasetDef
					if back {
						r = c.Pop()
					} else {
						r = c.Shift()
					}
					mu.Lock()
					if !want[r] && fail == "" {
						fail = "an element came out twice or never went in"
					}
					delete(want, r)
					mu.Unlock()
				}
			}); p != "" {
				mu.Lock()
				fail = p
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if fail != "" {
		return desc, desc + ": " + fail
	}
	if c.Count() != base || len(want) != base {
		return desc, fmt.Sprintf("%s: %d elements left of %d", desc, c.Count(), base)
	}
	for i := 0; i < base; i++ {
		e, _ := c.Get(i)
		if !want[e] {
			return desc, desc + ": an element was lost"
		}
	}
	return desc, ""
}

func tsStress(rng *rand.Rand) (string, string) {
	in := &xcore.XDataset{"a": 1, "b": &xcore.XDataset{"c": 2}}
	ts := xcore.NewXDatasetTS(in)
	ms := tsMethods(ts)
	var names []string
	for n := range ms {
		names = append(names, n)
	}
	sort.Strings(names)
	desc := "goroutines calling"
	var wg sync.WaitGroup
	var mu sync.Mutex
	fail := ""
	for g := 0; g < 6; g++ {
		n := names[rng.Intn(len(names))]
		k := []string{"a", "b", "b>c", "x"}[rng.Intn(4)]
		desc += fmt.Sprintf(" %s(%s)", n, k)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if p := vcall(func() {
				for i := 0; i < 25; i++ {
					ms[n](k)
				}
			}); p != "" {
				mu.Lock()
				fail = n + ": " + p
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if fail == "" && !within(5*time.Second, func() { ts.Set("x", 1) }) {
		fail = "stays locked"
	}
	if fail != "" {
		fail = desc + ": " + fail
	}
	return desc, fail
}

func TestVerifC11(t *testing.T) {
	vrun(t, "race-detector runs of every pair of methods and random mixes over a data set that notices unsynchronised use; delegation of every method; panics inside every method; removals while an element answers", "6 goroutines, 25 calls each per case", []func() (string, string){tsDelegates, tsPanics, collBetween, tsPairs, collPairs}, collStress, tsStress)
}
