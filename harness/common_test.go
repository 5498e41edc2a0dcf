package xcore_test

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// Executable oracles: random and exhaustive runs of the compiled package against the meaning of a property.
// They look for a concrete failing input and serve as bounded cross-check of the proofs.

type vres struct {
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Failure     string   `json:"failure"`
	Bound       string   `json:"bound"`
}

// vcase makes and judges one case: its description ("" if trivial) and what failed ("" if nothing).
type vcase func(rng *rand.Rand) (desc string, failure string)

func vseed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}
func vms() time.Duration {
	n, err := strconv.Atoi(os.Getenv("VERIF_MS"))
	if err != nil {
		n = 5000
	}
	return time.Duration(n) * time.Millisecond
}

func vguard(f func() (string, string)) (desc, fail string) {
	type out struct{ d, f string }
	ch := make(chan out, 1)
	go func() {
		var o out
		defer func() {
			if r := recover(); r != nil {
				o.f = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
			ch <- o
		}()
		o.d, o.f = f()
	}()
	select {
	case o := <-ch:
		return o.d, o.f
	case <-time.After(30 * time.Second):
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		return "", "a call did not return within 30 s (deadlock or endless loop)\n" + string(buf)
	}
}

// vcall runs f and returns what it panicked with.
func vcall(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("panic: %v", r)
			if p == "" {
				p = "panic"
			}
		}
	}()
	f()
	return ""
}

// vrun repeats the cases until the time is up or one fails.
func vrun(t *testing.T, rule, bound string, fixed []func() (string, string), cs ...vcase) {
	res := &vres{Rule: rule, Bound: bound}
	var mu sync.Mutex
	seen := map[string]bool{}
	note := func(d, f string) {
		mu.Lock()
		defer mu.Unlock()
		res.Evaluations++
		if d != "" && !seen[d] {
			if len(seen) < 2000000 {
				seen[d] = true
			}
			res.Distinct++
			if len(res.Samples) < 3 && len(d) < 1500 {
				res.Samples = append(res.Samples, d)
			}
		}
		if f != "" && res.Failure == "" {
			res.Failure = f
			if d != "" && !strings.Contains(f, d) {
				res.Failure = f + "\ncase: " + d
			}
		}
	}
	stop := func() bool {
		mu.Lock()
		defer mu.Unlock()
		return res.Failure != ""
	}
	for _, f := range fixed {
		if stop() {
			break
		}
		note(vguard(f))
	}
	end := time.Now().Add(vms())
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	var wg sync.WaitGroup
	if len(cs) > 0 {
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				rng := rand.New(rand.NewSource(vseed()*7919 + int64(w)))
				for i := 0; time.Now().Before(end) && !stop(); i++ {
					c := cs[i%len(cs)]
					note(vguard(func() (string, string) { return c(rng) }))
				}
			}(w)
		}
		wg.Wait()
	}
	if o := os.Getenv("VERIF_OUT"); o != "" {
		b, _ := json.Marshal(res)
		os.WriteFile(o, b, 0644)
	}
	if res.Failure != "" {
		t.Fatalf("%s", res.Failure)
	}
	t.Logf("%d cases, %d distinct", res.Evaluations, res.Distinct)
}
