package xcore_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	xcore "github.com/webability-go/xcore/v2"
)

type cop struct {
	op  string
	k   int
	v   int
	d   time.Duration
	rej uint64
}

func (o cop) String() string {
	switch o.op {
	case "set":
		return fmt.Sprintf("Set(%q, %#v)", ckey(o.k), cval(o.v))
	case "get", "del":
		return fmt.Sprintf("%s(%q)", map[string]string{"get": "Get", "del": "Del"}[o.op], ckey(o.k))
	case "ttl":
		return fmt.Sprintf("SetTTL(%q, %v)", ckey(o.k), o.d)
	case "clean":
		return fmt.Sprintf("Clean(%d)", o.v)
	case "expire":
		return fmt.Sprintf("Expire = %v", o.d)
	case "sleep":
		return fmt.Sprintf("sleep %v", o.d)
	case "valid":
		if o.v == 0 {
			return "Validator = nil"
		}
		return fmt.Sprintf("Validator rejects key set %b", o.rej)
	case "verify":
		return "Verify()"
	case "flush":
		return "Flush()"
	}
	return o.op
}

func ckey(k int) string {
	switch k {
	case 0:
		return "a"
	case 1:
		return "b"
	case 2:
		return ""
	case 3:
		return "a>b"
	case 4:
		return "A"
	case 5:
		return "a "
	}
	return fmt.Sprintf("k%d", k)
}

// cval: what is stored, nil for a negative number
func cval(v int) interface{} {
	switch {
	case v < 0:
		return nil
	case v >= 2000:
		return time.Duration(v)
	case v >= 1000:
		return fmt.Sprintf("s%d", v)
	}
	return v
}

func rval(rng *rand.Rand, i int) int {
	switch rng.Intn(9) {
	case 0, 1:
		return -i
	case 2:
		return 1000 + i
	case 3:
		return 2000 + i
	}
	return i
}

type chist struct {
	max    int
	expire time.Duration
	nkeys  int
	ops    []cop
}

func (h *chist) String() string {
	var s []string
	for _, o := range h.ops {
		s = append(s, o.String())
	}
	return fmt.Sprintf("c := NewXCache(\"id\", %d, %v); %s", h.max, h.expire, strings.Join(s, "; "))
}

type ckst struct {
	set    bool
	v      int
	lo, hi time.Time
	ttl    time.Duration
	use    int
}

// crun is one execution of a prefix: what every call returned and what is in the cache afterwards.
type crun struct {
	ret       string // of the last operation
	count     int
	present   map[int]bool
	served    map[int]interface{}
	dead      map[int]bool
	st        []ckst
	uncertain bool
	a, b      time.Time // around the last operation
	validBad  string
	expire    time.Duration
	valid     int
	rej       uint64
	getAlive  bool
	probeBad  string
	sig       []byte // what was expired at each call
}

const (
	no = iota
	yes
	maybe
)

func expired(s ckst, d time.Duration, a, b time.Time) int {
	if d == 0 {
		return no
	}
	if d < 0 {
		return yes
	}
	if s.hi.Add(d).Before(a) {
		return yes
	}
	if !s.lo.Add(d).Before(b) {
		return no
	}
	return maybe
}

func cor(a, b int) int {
	if a == yes || b == yes {
		return yes
	}
	if a == maybe || b == maybe {
		return maybe
	}
	return no
}

// deadAt: whether Get has to reject the entry.
func (r *crun) deadAt(k int, a, b time.Time) int {
	s := r.st[k]
	x := cor(expired(s, s.ttl, a, b), expired(s, r.expire, a, b))
	if r.valid != 0 && r.rej>>uint(k)&1 == 1 {
		x = cor(x, yes)
	}
	return x
}

func (h *chist) run(n int) *crun {
	r := &crun{present: map[int]bool{}, served: map[int]interface{}{}, dead: map[int]bool{}, st: make([]ckst, h.nkeys)}
	c := xcore.NewXCache("id", h.max, h.expire)
	r.expire = h.expire
	idx := map[string]int{}
	for k := 0; k < h.nkeys; k++ {
		idx[ckey(k)] = k
	}
	for i := 0; i < n; i++ {
		o := h.ops[i]
		r.a = time.Now()
		r.ret = ""
		switch o.op {
		case "set":
			c.Set(ckey(o.k), cval(o.v))
			r.b = time.Now()
			r.st[o.k] = ckst{set: true, v: o.v, lo: r.a, hi: r.b, use: i + 1}
		case "get":
			v, bad := c.Get(ckey(o.k))
			r.b = time.Now()
			r.ret = fmt.Sprintf("(%v, %v)", v, bad)
			r.getAlive = !bad && (v != nil || r.st[o.k].set && cval(r.st[o.k].v) == nil)
			if r.getAlive {
				r.st[o.k].use = i + 1
			}
		case "del":
			c.Del(ckey(o.k))
		case "ttl":
			c.SetTTL(ckey(o.k), o.d)
			r.st[o.k].ttl = o.d
		case "clean":
			r.ret = fmt.Sprint(c.Clean(o.v))
		case "verify":
			r.ret = fmt.Sprint(c.Verify())
		case "flush":
			c.Flush()
		case "sleep":
			time.Sleep(o.d)
		case "expire":
			c.Expire = o.d
			r.expire = o.d
		case "valid":
			r.valid, r.rej = o.v, o.rej
			if o.v == 0 {
				c.Validator = nil
			} else {
				rej := o.rej
				c.Validator = func(key string, t time.Time) bool {
					k, ok := idx[key]
					if !ok {
						r.validBad = fmt.Sprintf("the validator was asked about %q, which was never stored", key)
						return true
					}
					if s := r.st[k]; s.set && (t.Before(s.lo) || t.After(s.hi)) {
						r.validBad = fmt.Sprintf("the validator was given %v as storage time of %q, stored between %v and %v", t, key, s.lo, s.hi)
					}
					return rej>>uint(k)&1 == 0
				}
			}
		}
		r.b = time.Now()
		if o.op == "sleep" || o.op == "expire" || o.op == "valid" {
			continue
		}
		for _, s := range r.st {
			d := no
			if s.set {
				d = cor(expired(s, s.ttl, r.a, r.b), expired(s, r.expire, r.a, r.b))
			}
			if d == maybe {
				r.uncertain = true
			}
			r.sig = append(r.sig, byte(d))
		}
	}
	r.count = c.Count()
	for k := 0; k < h.nkeys; k++ {
		a := time.Now()
		v, bad := c.Get(ckey(k))
		b := time.Now()
		switch {
		case bad:
			r.present[k], r.dead[k] = true, true
			if v != nil {
				r.probeBad = fmt.Sprintf("Get(%q) = (%v, true): an invalid entry hands out a value", ckey(k), v)
			}
			if v2, bad2 := c.Get(ckey(k)); v2 != nil || bad2 {
				r.probeBad = fmt.Sprintf("Get(%q) = (nil, true), and again (%v, %v): the invalid entry is still there", ckey(k), v2, bad2)
			}
		case v != nil:
			r.present[k] = true
			r.served[k] = v
		case r.st[k].set:
			// nothing, or a stored nil: a validator that rejects everything tells
			f := c.Validator
			c.Validator = func(string, time.Time) bool { return false }
			if _, bad := c.Get(ckey(k)); bad {
				r.present[k] = true
				r.served[k] = nil
			}
			c.Validator = f
		}
		if r.present[k] && r.st[k].set {
			d := r.deadAt(k, a, b)
			if d == maybe {
				r.uncertain = true
			} else if (d == yes) != bad && r.probeBad == "" {
				r.probeBad = fmt.Sprintf("Get(%q) = (%v, %v), stored %v ago, TTL %v, Expire %v, validator set %v rejecting %b", ckey(k), v, bad, a.Sub(r.st[k].hi), r.st[k].ttl, r.expire, r.valid != 0, r.rej)
			}
		}
	}
	return r
}

type cfail struct {
	props string
	msg   string
}

// judge replays every prefix on a cache of its own and compares neighbouring ones.
func (h *chist) judge(prop string, all bool, rng *rand.Rand) (failure string) {
	mention := func(props, f string, a ...interface{}) {
		if failure == "" && strings.Contains(props, prop) {
			failure = fmt.Sprintf(f, a...)
		}
	}
	var prev *crun
	n := len(h.ops)
	from := 0
	to := n
	if !all {
		from = rng.Intn(n + 1)
		to = from + 4
		if to > n {
			to = n
		}
	}
	for i := from; i <= to && failure == ""; i++ {
		r := h.run(i)
		if r.uncertain {
			prev = nil
			continue
		}
		at := "after the last call"
		if i > 0 {
			at = fmt.Sprintf("after step %d, %s", i, h.ops[i-1])
		}
		if r.count != len(r.present) {
			mention("C01", "%s: Count() = %d but %d keys are there", at, r.count, len(r.present))
		}
		if r.probeBad != "" {
			mention("C02 C01", "%s: %s", at, r.probeBad)
		}
		if r.validBad != "" {
			mention("C02 C04", "%s: %s", at, r.validBad)
		}
		for k, v := range r.served {
			if !r.st[k].set {
				mention("C01", "%s: Get(%q) = %v, never stored", at, ckey(k), v)
			} else if v != cval(r.st[k].v) {
				mention("C01", "%s: Get(%q) = %#v, the last value stored is %#v", at, ckey(k), v, cval(r.st[k].v))
			}
		}
		if h.max > 0 && len(r.present) > h.max {
			mention("C03", "%s: %d entries in a cache of at most %d", at, len(r.present), h.max)
		}
		// a pause can have let something expire earlier in one of the two executions
		if prev != nil && i > 0 && bytes.HasPrefix(r.sig, prev.sig) {
			h.step(h.ops[i-1], prev, r, at, mention)
		}
		prev = r
	}
	if failure != "" {
		failure = h.String() + "\n" + failure
	}
	return
}

func (h *chist) step(o cop, p, q *crun, at string, mention func(props, f string, a ...interface{})) {
	exp := map[int]int{} // cache-wide expiration
	dead := map[int]int{}
	sure := true
	for k := range p.present {
		s := p.st[k]
		if o.op != "set" || k != o.k {
			s = q.st[k]
		}
		exp[k] = expired(s, q.expire, q.a, q.b)
		// the TTL may have been changed by this very step
		sp := s
		if o.op == "ttl" && k == o.k {
			sp.ttl = p.st[k].ttl
		}
		d := cor(expired(sp, sp.ttl, q.a, q.b), exp[k])
		if q.valid != 0 && q.rej>>uint(k)&1 == 1 {
			d = cor(d, yes)
		}
		dead[k] = d
		if exp[k] == maybe || dead[k] == maybe {
			sure = false
		}
	}
	if !sure {
		return
	}
	for k := range q.present {
		if !p.present[k] && !(o.op == "set" && k == o.k) {
			mention("C01 C04", "%s: key %q has come into being", at, ckey(k))
		}
	}
	var gone []int
	for k := 0; k < h.nkeys; k++ {
		if p.present[k] && !q.present[k] {
			gone = append(gone, k)
		}
	}
	lru := func(props string, except int) {
		for _, g := range gone {
			if exp[g] == yes || g == except {
				continue
			}
			for s := range q.present {
				if s != except && p.present[s] && p.st[g].use > p.st[s].use {
					mention(props, "%s: %q was removed (last used in step %d) while %q stays (last used in step %d)", at, ckey(g), p.st[g].use, ckey(s), p.st[s].use)
				}
			}
		}
	}
	onlyDead := func(props string, except int) {
		for _, g := range gone {
			if g != except && dead[g] == no {
				mention(props, "%s: key %q has disappeared", at, ckey(g))
			}
		}
	}
	switch o.op {
	case "set":
		if !q.present[o.k] && expired(q.st[o.k], q.expire, q.a, time.Now()) == no {
			mention("C01 C03", "%s: the entry just stored is gone", at)
		}
		if h.max <= 0 {
			onlyDead("C01 C03", o.k)
		}
		lru("C03", o.k)
	case "get":
		want := "(<nil>, false)"
		if p.present[o.k] {
			if dead[o.k] == yes {
				want = "(<nil>, true)"
			} else {
				want = fmt.Sprintf("(%v, false)", cval(p.st[o.k].v))
			}
		}
		if q.ret != want {
			mention("C01 C02", "%s: returned %s, expected %s", at, q.ret, want)
		}
		if p.present[o.k] && dead[o.k] == yes && q.present[o.k] {
			mention("C02", "%s: the invalid entry is still there", at)
		}
		if p.present[o.k] && dead[o.k] == no && !q.present[o.k] {
			mention("C01 C02", "%s: the entry is gone", at)
		}
		onlyDead("C01 C02 C03", o.k)
	case "del":
		if q.present[o.k] {
			mention("C01", "%s: the key is still there", at)
		}
		onlyDead("C01", o.k)
	case "ttl":
		onlyDead("C01", o.k)
		if p.present[o.k] && !q.present[o.k] && dead[o.k] == no {
			mention("C01", "%s: the key is gone", at)
		}
	case "flush":
		if len(q.present) > 0 {
			mention("C01", "%s: %d entries are still there", at, len(q.present))
		}
	case "clean":
		rest, out := 0, 0
		for k := range p.present {
			if exp[k] == yes {
				if q.present[k] {
					mention("C04", "%s: %q is past the expiration and still there", at, ckey(k))
				}
			} else {
				rest++
				if !q.present[k] {
					out++
				}
			}
		}
		if out != rest*o.v/100 {
			mention("C04", "%s: removed %d of the %d entries that are not expired, expected %d", at, out, rest, rest*o.v/100)
		}
		if q.ret != fmt.Sprint(len(gone)) {
			mention("C04", "%s: returned %s but removed %d", at, q.ret, len(gone))
		}
		lru("C03 C04", -1)
	case "verify":
		for k := range p.present {
			rm := exp[k] == yes || q.valid != 0 && q.rej>>uint(k)&1 == 1
			if rm && q.present[k] {
				mention("C04", "%s: %q should have been removed", at, ckey(k))
			}
			if !rm && !q.present[k] {
				mention("C04 C01", "%s: %q should have been kept", at, ckey(k))
			}
		}
		if q.ret != fmt.Sprint(len(gone)) {
			mention("C04", "%s: returned %s but removed %d", at, q.ret, len(gone))
		}
	}
}

func (h *chist) shrink(prop string, rng *rand.Rand, f string) string {
	end := time.Now().Add(3 * time.Second)
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		for i := len(h.ops) - 1; i >= 0 && time.Now().Before(end); i-- {
			g := *h
			g.ops = append(append([]cop{}, h.ops[:i]...), h.ops[i+1:]...)
			var f2 string
			if p := vcall(func() { f2 = g.judge(prop, true, rng) }); p != "" {
				f2 = g.String() + "\n" + p
			}
			if f2 != "" {
				*h, f, changed = g, f2, true
			}
		}
	}
	return f
}

func randHist(rng *rand.Rand, timed bool) *chist {
	h := &chist{}
	h.max = []int{0, 0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 15, 20, 25, -1}[rng.Intn(15)]
	h.nkeys = 2 + rng.Intn(5)
	if h.max > 3 && rng.Intn(3) > 0 {
		h.nkeys = h.max + 4
	}
	if rng.Intn(60) == 0 && !timed {
		h.max = 40 + rng.Intn(80)
		h.nkeys = h.max + 5
	}
	n := 3 + rng.Intn(14)
	if h.nkeys > 8 {
		n = h.nkeys + rng.Intn(20)
	}
	durs := []time.Duration{0, time.Hour, -1, time.Hour}
	if timed {
		durs = []time.Duration{0, time.Hour, 2 * time.Millisecond, 2 * time.Millisecond, -1}
	}
	if rng.Intn(3) == 0 {
		h.expire = durs[rng.Intn(len(durs))]
	}
	for i := 0; i < n; i++ {
		o := cop{k: rng.Intn(h.nkeys)}
		switch x := rng.Intn(40); {
		case x < 16:
			o.op, o.v = "set", rval(rng, i+1)
			if h.nkeys > 8 && rng.Intn(3) > 0 {
				o.k = i % h.nkeys
			}
		case x < 24:
			o.op = "get"
		case x < 27:
			o.op = "del"
		case x < 30:
			o.op, o.d = "ttl", durs[rng.Intn(len(durs))]
		case x < 33:
			o.op, o.v = "clean", []int{0, 1, 9, 10, 25, 33, 34, 50, 51, 67, 75, 99, 100}[rng.Intn(13)]
		case x < 34:
			o.op = "verify"
		case x < 35:
			o.op = "flush"
		case x < 36:
			o.op, o.d = "expire", durs[rng.Intn(len(durs))]
		case x < 37:
			o.op, o.v, o.rej = "valid", rng.Intn(3), rng.Uint64()
			if h.nkeys <= 8 {
				o.rej &= 1<<uint(h.nkeys) - 1
			}
		default:
			if timed {
				o.op, o.d = "sleep", 4*time.Millisecond
			} else {
				o.op, o.v = "set", rval(rng, i+1)
			}
		}
		h.ops = append(h.ops, o)
	}
	return h
}

func cacheCase(prop string) vcase {
	return func(rng *rand.Rand) (string, string) {
		timed := rng.Intn(4) == 0
		h := randHist(rng, timed)
		f := ""
		all := !timed && (h.nkeys < 9 || rng.Intn(4) == 0)
		if p := vcall(func() { f = h.judge(prop, all, rng) }); p != "" {
			f = h.String() + "\n" + p
		}
		for i := 0; i < 2 && f != "" && timed; i++ {
			// durations of milliseconds: only what happens again counts
			if p := vcall(func() { f = h.judge(prop, true, rng) }); p != "" {
				f = h.String() + "\n" + p
			}
		}
		if f != "" {
			f = h.shrink(prop, rng, f)
		}
		return h.String(), f
	}
}

const cacheRule = "random histories of Set, Get, Del, SetTTL, Clean, Verify, Flush, changed Expire and Validator; every prefix is replayed on a cache of its own and probed key by key; the states around each call are compared with what the property allows"
const cacheBound = "histories of up to 45 calls (150 without sleeping), up to 125 keys, durations 0, 2 ms, 1 h and -1 ns"

func TestVerifC01(t *testing.T) { vrun(t, cacheRule, cacheBound, nil, cacheCase("C01")) }
func TestVerifC02(t *testing.T) { vrun(t, cacheRule, cacheBound, nil, cacheCase("C02")) }
func TestVerifC03(t *testing.T) { vrun(t, cacheRule, cacheBound, nil, cacheCase("C03")) }
func TestVerifC04(t *testing.T) { vrun(t, cacheRule, cacheBound, nil, cacheCase("C04")) }

// ---- concurrency -----------------------------------------------------------------------------------

func within(d time.Duration, f func()) bool {
	ch := make(chan bool, 1)
	go func() { f(); ch <- true }()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}

// the validator may use the cache, so it must not be called under the lock
func cacheReentrant() (string, string) {
	for _, call := range []string{"Get", "Verify"} {
		c := xcore.NewXCache("id", 0, 0)
		c.Set("a", 1)
		c.Set("b", 2)
		c.Validator = func(k string, _ time.Time) bool {
			c.Count()
			c.Set("c", 3)
			c.Del("d")
			return k != "a"
		}
		if !within(10*time.Second, func() {
			if call == "Get" {
				c.Get("a")
			} else {
				c.Verify()
			}
		}) {
			return "reentrant validator", call + " calls the Validator while the cache is locked: a Validator that uses the cache never returns"
		}
	}
	return "reentrant validator", ""
}

// a value stored while the validator runs is not removed by its verdict on the older one
func cacheNewer() (string, string) {
	for _, call := range []string{"Get", "Verify"} {
		c := xcore.NewXCache("id", 0, 0)
		c.Set("a", 1)
		c.Set("b", 2)
		n := 0
		c.Validator = func(k string, _ time.Time) bool {
			if k == "a" && n == 0 {
				n++
				c.Set("a", 99)
				return false
			}
			return true
		}
		if call == "Get" {
			c.Get("a")
		} else if r := c.Verify(); r != 0 {
			return "newer value", fmt.Sprintf("Verify counts %d removals although the rejected entry had already been replaced", r)
		}
		c.Validator = nil
		if v, _ := c.Get("a"); v != 99 {
			return "newer value", fmt.Sprintf("%s rejected the old value of %q and removed the newer one stored meanwhile: Get = %v", call, "a", v)
		}
	}
	return "newer value", ""
}

// a panicking validator leaves the cache unlocked
func cachePanic() (string, string) {
	for _, call := range []string{"Get", "Verify"} {
		c := xcore.NewXCache("id", 3, 0)
		c.Set("a", 1)
		c.Validator = func(string, time.Time) bool { panic("validator") }
		vcall(func() {
			if call == "Get" {
				c.Get("a")
			} else {
				c.Verify()
			}
		})
		c.Validator = nil
		if !within(10*time.Second, func() { c.Set("b", 2); c.Get("a"); c.Count() }) {
			return "panicking validator", call + " leaves the cache locked when the Validator panics"
		}
	}
	return "panicking validator", ""
}

// every call returns the cache unlocked
func cacheUnlocked() (string, string) {
	ops := map[string]func(c *xcore.XCache){
		"Set":     func(c *xcore.XCache) { c.Set("a", 2) },
		"Set new": func(c *xcore.XCache) { c.Set("n", 2); c.Set("m", 3); c.Set("l", 4) },
		"Get":     func(c *xcore.XCache) { c.Get("a") }, "Get none": func(c *xcore.XCache) { c.Get("zz") },
		"Get rejected": func(c *xcore.XCache) {
			c.Validator = func(string, time.Time) bool { return false }
			c.Get("a")
		},
		"Get expired": func(c *xcore.XCache) { c.Expire = -1; c.Get("a") },
		"Get ttl":     func(c *xcore.XCache) { c.SetTTL("a", -1); c.Get("a") },
		"SetTTL":      func(c *xcore.XCache) { c.SetTTL("a", 5) }, "SetTTL none": func(c *xcore.XCache) { c.SetTTL("zz", 5) },
		"Del": func(c *xcore.XCache) { c.Del("a") }, "Del none": func(c *xcore.XCache) { c.Del("zz") },
		"Clean": func(c *xcore.XCache) { c.Clean(50) }, "Verify": func(c *xcore.XCache) { c.Verify() },
		"Verify rejecting": func(c *xcore.XCache) {
			c.Validator = func(string, time.Time) bool { return false }
			c.Verify()
		},
		"Clean expired": func(c *xcore.XCache) { c.Expire = -1; c.Clean(0) },
		"Flush":         func(c *xcore.XCache) { c.Flush() }, "Count": func(c *xcore.XCache) { c.Count() },
	}
	for n, f := range ops {
		for _, max := range []int{0, 1, 2, 10} {
			c := xcore.NewXCache("id", max, 0)
			c.Set("a", 1)
			c.Set("b", 1)
			if !within(10*time.Second, func() {
				f(c)
				c.Set("x", 1)
				c.Get("x")
				c.Count()
				c.Del("x")
				c.Flush()
			}) {
				return "unlocked", fmt.Sprintf("after %s on a cache of at most %d the next calls never return: the cache is left locked", n, max)
			}
		}
	}
	return "unlocked", ""
}

// stress: all methods from many goroutines; afterwards the content has to be consistent
func cacheStress(rng *rand.Rand) (string, string) {
	max := []int{0, 1, 3, 10, 25}[rng.Intn(5)]
	var exp time.Duration
	if rng.Intn(2) == 0 {
		exp = 200 * time.Microsecond
	}
	c := xcore.NewXCache("id", max, exp)
	mode := rng.Intn(3)
	if mode > 0 {
		c.Validator = func(k string, _ time.Time) bool {
			if mode == 2 {
				runtime.Gosched()
			}
			return k != "k3" && k != "k4"
		}
	}
	nk := 6
	if max > 5 {
		nk = max + 5
	}
	var failed atomic.Value
	var wg sync.WaitGroup
	seeds := make([]int64, 8)
	for i := range seeds {
		seeds[i] = rng.Int63()
	}
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(seed int64) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			if p := vcall(func() {
				for i := 0; i < 150; i++ {
					k := fmt.Sprintf("k%d", r.Intn(nk))
					switch r.Intn(16) {
					case 0, 1, 2, 3, 4:
						c.Set(k, k)
					case 5, 6, 7, 8:
						if v, _ := c.Get(k); v != nil && v != k {
							failed.Store(fmt.Sprintf("Get(%q) = %v", k, v))
						}
					case 9:
						c.Del(k)
					case 10:
						c.SetTTL(k, time.Duration(r.Intn(3))*100*time.Microsecond)
					case 11:
						c.Clean(r.Intn(101))
					case 12:
						c.Verify()
					case 13:
						if n := c.Count(); n < 0 || max > 0 && n > max {
							failed.Store(fmt.Sprintf("Count() = %d in a cache of at most %d", n, max))
						}
					case 14:
						if r.Intn(10) == 0 {
							c.Flush()
						}
					case 15:
						runtime.Gosched()
					}
				}
			}); p != "" {
				failed.Store(p)
			}
		}(seeds[w])
	}
	desc := fmt.Sprintf("8 goroutines x 150 calls, max %d, expire %v, validator %d, seed %d", max, exp, mode, seeds[0])
	if !within(20*time.Second, wg.Wait) {
		return desc, "concurrent calls never return (deadlock): " + desc
	}
	if f := failed.Load(); f != nil {
		return desc, f.(string) + "\n" + desc
	}
	// consistency: the eviction order knows every stored key exactly once
	c.Expire, c.Validator = 0, nil
	f := ""
	if p := vcall(func() {
		n := c.Count()
		if r := c.Clean(100); r != n || c.Count() != 0 {
			f = fmt.Sprintf("Clean(100) on %d entries removed %d, %d left: eviction order and entries are out of step", n, r, c.Count())
			return
		}
		for i := 0; i < 2*nk; i++ {
			c.Set(fmt.Sprintf("n%d", i), i)
			if v, _ := c.Get(fmt.Sprintf("n%d", i)); v != i {
				f = fmt.Sprintf("after the concurrent phase a value just stored is not found")
			}
			if max > 0 && c.Count() > max {
				f = fmt.Sprintf("after the concurrent phase %d entries in a cache of at most %d", c.Count(), max)
			}
		}
		n = c.Count()
		if r := c.Clean(50); r != n/2 || c.Count() != n-n/2 {
			f = fmt.Sprintf("Clean(50) on %d entries removed %d, %d left", n, r, c.Count())
		}
	}); p != "" {
		f = "after the concurrent phase: " + p
	}
	if f != "" {
		f += "\n" + desc
	}
	return desc, f
}

func TestVerifC05(t *testing.T) {
	vrun(t, "race-detector stress of all methods from 8 goroutines, then a consistency probe; validators that use the cache, replace the entry or panic",
		"8 goroutines, 150 calls each per case, up to 30 keys", []func() (string, string){cacheReentrant, cacheNewer, cachePanic, cacheUnlocked}, cacheStress)
}
