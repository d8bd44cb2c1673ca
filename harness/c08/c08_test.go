//verif:race
package c08

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/schwarzlichtbezirk/wpk/util"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

type op struct {
	k, key string
	v      int
}

func (o op) String() string {
	switch o.k {
	case "poke", "push":
		return fmt.Sprintf("%s(%s,%d)", o.k, o.key, o.v)
	case "pop", "len", "range":
		return o.k
	}
	return o.k + "(" + o.key + ")"
}

type ev struct {
	o        op
	res      string
	inv, ret int64
	g        int
}

func do(sm *util.SeqMap[string, int], o op) string {
	switch o.k {
	case "poke":
		sm.Poke(o.key, o.v)
		return ""
	case "push":
		return fmt.Sprint(sm.Push(o.key, o.v))
	case "delete":
		v, ok := sm.Delete(o.key)
		return fmt.Sprint(v, ok)
	case "pop":
		k, v, ok := sm.Pop()
		return fmt.Sprint(k, v, ok)
	case "peek":
		v, ok := sm.Peek(o.key)
		return fmt.Sprint(v, ok)
	case "has":
		return fmt.Sprint(sm.Has(o.key))
	case "len":
		return fmt.Sprint(sm.Len())
	}
	s := ""
	sm.Range(func(k string, v int) bool {
		s += fmt.Sprintf("%s=%d;", k, v)
		return true
	})
	return s
}

type ent struct {
	k string
	v int
}

func step(m []ent, o op) ([]ent, string) {
	n := -1
	for i, e := range m {
		if e.k == o.key {
			n = i
		}
	}
	c := append([]ent(nil), m...)
	switch o.k {
	case "poke":
		if n >= 0 {
			c[n].v = o.v
		} else {
			c = append(c, ent{o.key, o.v})
		}
		return c, ""
	case "push":
		if n < 0 {
			c = append(c, ent{o.key, o.v})
		}
		return c, fmt.Sprint(n >= 0)
	case "delete":
		if n < 0 {
			return c, fmt.Sprint(0, false)
		}
		v := c[n].v
		return append(c[:n], c[n+1:]...), fmt.Sprint(v, true)
	case "pop":
		if len(c) == 0 {
			return c, fmt.Sprint("", 0, false)
		}
		l := c[len(c)-1]
		return c[:len(c)-1], fmt.Sprint(l.k, l.v, true)
	case "peek":
		if n < 0 {
			return c, fmt.Sprint(0, false)
		}
		return c, fmt.Sprint(c[n].v, true)
	case "has":
		return c, fmt.Sprint(n >= 0)
	case "len":
		return c, fmt.Sprint(len(c))
	}
	s := ""
	for _, e := range c {
		s += fmt.Sprintf("%s=%d;", e.k, e.v)
	}
	return c, s
}

// linear: is there an order of the operations, consistent with real time, that explains every result?
func linear(init []ent, evs []ev) bool {
	seen := map[string]bool{}
	var rec func(m []ent, done uint32) bool
	rec = func(m []ent, done uint32) bool {
		if done == 1<<len(evs)-1 {
			return true
		}
		key := fmt.Sprint(m, done)
		if seen[key] {
			return false
		}
		seen[key] = true
		first := int64(1 << 62)
		for i, e := range evs {
			if done&(1<<i) == 0 && e.ret < first {
				first = e.ret
			}
		}
		for i, e := range evs {
			if done&(1<<i) != 0 || e.inv > first {
				continue
			}
			if n, r := step(m, e.o); r == e.res && rec(n, done|1<<i) {
				return true
			}
		}
		return false
	}
	return rec(init, 0)
}

func show(evs []ev) string {
	sort.Slice(evs, func(i, j int) bool { return evs[i].inv < evs[j].inv })
	var s []string
	for _, e := range evs {
		s = append(s, fmt.Sprintf("goroutine %d: %v -> %q in [%d,%d]", e.g, e.o, e.res, e.inv, e.ret))
	}
	return strings.Join(s, "; ")
}

func Test(t *testing.T) {
	vh.Run(t, "small concurrent histories on one table checked for linearisability against the ordered map, under the race detector; visitors that call every operation; non-trivial: all", func(h *vh.H) {
		keys := []string{"a", "b", "c"}
		// reentrancy: the visitor calls every operation
		for _, k := range []string{"poke", "push", "delete", "pop", "peek", "has", "len", "range"} {
			k := k
			h.Case(true, func() string { return "visitor calls " + k }, func() string {
				var sm util.SeqMap[string, int]
				sm.Init(0)
				sm.Poke("a", 1)
				sm.Poke("b", 2)
				sm.Range(func(string, int) bool { do(&sm, op{k, "a", 3}); return true })
				sm.Range(func(string, int) bool { do(&sm, op{k, "z", 3}); return false })
				sm.Poke("x", 1)
				sm.Len()
				return ""
			})
			// a lock left behind, also on the paths where nothing is found
			h.Case(true, func() string { return "operations one after another: " + k }, func() string {
				var sm util.SeqMap[string, int]
				sm.Init(0)
				for _, key := range []string{"a", "z"} {
					do(&sm, op{k, key, 1})
					sm.Poke("a", 1)
					sm.Has("a")
				}
				return ""
			})
		}
		kinds := []string{"poke", "poke", "push", "push", "delete", "delete", "pop", "pop", "peek", "has", "len", "range"}
		for h.Left() {
			var init []ent
			for _, k := range keys {
				if h.R.Intn(2) == 0 {
					init = append(init, ent{k, len(init) + 1})
				}
			}
			ng := 2 + h.R.Intn(3)
			prog := make([][]op, ng)
			for g := range prog {
				for i := 0; i < 4; i++ {
					prog[g] = append(prog[g], op{kinds[h.R.Intn(len(kinds))], keys[h.R.Intn(len(keys))], 10*(g+1) + i})
				}
			}
			gosched := h.R.Intn(2) == 0
			h.Case(true, func() string { return fmt.Sprintf("table %v, goroutines %v", init, prog) }, func() string {
				var sm util.SeqMap[string, int]
				sm.Init(0)
				for _, e := range init {
					sm.Poke(e.k, e.v)
				}
				var clock int64
				var evs [8][4]ev
				var wg sync.WaitGroup
				start := make(chan bool)
				var pan atomic.Value
				for g := range prog {
					wg.Add(1)
					go func(g int) {
						defer wg.Done()
						defer func() {
							if r := recover(); r != nil {
								pan.Store(fmt.Sprint(r))
							}
						}()
						<-start
						for i, o := range prog[g] {
							a := atomic.AddInt64(&clock, 1)
							if gosched {
								runtime.Gosched()
							}
							r := do(&sm, o)
							evs[g][i] = ev{o, r, a, atomic.AddInt64(&clock, 1), g}
						}
					}(g)
				}
				close(start)
				wg.Wait()
				if p := pan.Load(); p != nil {
					return "panic: " + p.(string)
				}
				var all []ev
				for g := range prog {
					all = append(all, evs[g][:]...)
				}
				all = append(all, ev{op{k: "range"}, do(&sm, op{k: "range"}), clock + 1, clock + 2, ng}, ev{op{k: "len"}, do(&sm, op{k: "len"}), clock + 3, clock + 4, ng})
				for i, k := range keys {
					all = append(all, ev{op{k: "peek", key: k}, do(&sm, op{k: "peek", key: k}), clock + 5 + int64(2*i), clock + 6 + int64(2*i), ng})
				}
				if !linear(init, all) {
					return "no sequential order explains: " + show(all)
				}
				return ""
			})
		}
	})
}
