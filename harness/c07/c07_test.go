package c07

import (
	"fmt"
	"testing"

	"github.com/schwarzlichtbezirk/wpk/util"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

type ent struct {
	k string
	v int
}
type model []ent

func (m model) find(k string) int {
	for i, e := range m {
		if e.k == k {
			return i
		}
	}
	return -1
}

type op struct {
	k   string
	key string
	v   int
	sub map[int][]op // for range: what the visitor does at its n-th call
	end int          // for range: the visitor stops at this call (-1: never)
}

func (o op) String() string {
	switch o.k {
	case "poke", "push":
		return fmt.Sprintf("%s(%q,%d)", o.k, o.key, o.v)
	case "range":
		s := "range{"
		for i := 0; i < 20; i++ {
			if l, ok := o.sub[i]; ok {
				s += fmt.Sprintf("at visit %d: %v;", i, l)
			}
		}
		return s + fmt.Sprintf("stop at %d}", o.end)
	}
	return fmt.Sprintf("%s(%q)", o.k, o.key)
}

func same(sm *util.SeqMap[string, int], m model) string {
	if sm.Len() != len(m) {
		return fmt.Sprintf("Len %d, want %d", sm.Len(), len(m))
	}
	var got model
	sm.Range(func(k string, v int) bool { got = append(got, ent{k, v}); return true })
	if fmt.Sprint(got) != fmt.Sprint(m) {
		return fmt.Sprintf("content %v, want %v", got, m)
	}
	for _, e := range m {
		if v, ok := sm.Peek(e.k); !ok || v != e.v || !sm.Has(e.k) {
			return fmt.Sprintf("Peek(%q) gives %v %v, want %d", e.k, v, ok, e.v)
		}
	}
	for _, k := range []string{"", "a", "b", "c", "d", "zz"} {
		if m.find(k) < 0 {
			if v, ok := sm.Peek(k); ok || v != 0 || sm.Has(k) {
				return fmt.Sprintf("absent %q: Peek %v %v Has %v", k, v, ok, sm.Has(k))
			}
		}
	}
	return ""
}

func apply(sm *util.SeqMap[string, int], m *model, o op) string {
	n := m.find(o.key)
	del := func(i int) { *m = append((*m)[:i:i], (*m)[i+1:]...) }
	switch o.k {
	case "poke":
		sm.Poke(o.key, o.v)
		if n >= 0 {
			c := append(model(nil), *m...)
			c[n].v = o.v
			*m = c
		} else {
			*m = append((*m)[:len(*m):len(*m)], ent{o.key, o.v})
		}
	case "push":
		ok := sm.Push(o.key, o.v)
		if ok != (n >= 0) {
			return fmt.Sprintf("%v gives %v", o, ok)
		}
		if n < 0 {
			*m = append((*m)[:len(*m):len(*m)], ent{o.key, o.v})
		}
	case "delete":
		v, ok := sm.Delete(o.key)
		if ok != (n >= 0) || ok && v != (*m)[n].v || !ok && v != 0 {
			return fmt.Sprintf("%v gives %v %v", o, v, ok)
		}
		if n >= 0 {
			del(n)
		}
	case "pop":
		k, v, ok := sm.Pop()
		l := len(*m)
		if ok != (l > 0) || ok && (k != (*m)[l-1].k || v != (*m)[l-1].v) || !ok && (k != "" || v != 0) {
			return fmt.Sprintf("pop gives %q %v %v", k, v, ok)
		}
		if ok {
			del(l - 1)
		}
	case "peek":
		v, ok := sm.Peek(o.key)
		if ok != (n >= 0) || ok && v != (*m)[n].v || !ok && v != 0 {
			return fmt.Sprintf("%v gives %v %v", o, v, ok)
		}
	case "init":
		sm.Init(o.v)
		*m = nil
	case "range":
		snap := append(model(nil), *m...)
		i, msg := 0, ""
		sm.Range(func(k string, v int) bool {
			if i >= len(snap) || snap[i] != (ent{k, v}) {
				if msg == "" {
					msg = fmt.Sprintf("visit %d gets (%q,%d), the table at the start was %v", i, k, v, snap)
				}
				return false
			}
			for _, s := range o.sub[i] {
				if r := apply(sm, m, s); r != "" && msg == "" {
					msg = "in visitor: " + r
				}
			}
			i++
			return i-1 != o.end
		})
		if msg != "" {
			return msg
		}
		want := len(snap)
		if o.end >= 0 && o.end < want {
			want = o.end + 1
		}
		if i != want {
			return fmt.Sprintf("%d visits, want %d", i, want)
		}
	}
	return ""
}

func runOps(c int, ops []op) string {
	var sm util.SeqMap[string, int]
	sm.Init(c)
	var m model
	for i, o := range ops {
		if r := apply(&sm, &m, o); r != "" {
			return fmt.Sprintf("operation %d %v: %s", i, o, r)
		}
		if r := same(&sm, m); r != "" {
			return fmt.Sprintf("after operation %d %v: %s", i, o, r)
		}
	}
	return ""
}

func Test(t *testing.T) {
	vh.Run(t, "operation sequences against an ordered-list model, the whole content compared after every step; non-trivial: at least one deletion, pop or replacement and one enumeration with a modifying visitor", func(h *vh.H) {
		keys := []string{"a", "b", "c", "d", "", "e", "long/key/with/slashes"}
		val := 0
		var rnd func(deep bool) op
		rnd = func(deep bool) op {
			val++
			o := op{key: keys[h.R.Intn(len(keys))], v: val, end: -1}
			switch x := h.R.Intn(16); {
			case x < 5:
				o.k = "poke"
			case x < 7:
				o.k = "push"
			case x < 10:
				o.k = "delete"
			case x < 12:
				o.k = "pop"
			case x < 13:
				o.k = "peek"
			case x == 13 && h.R.Intn(8) == 0:
				o.k, o.v = "init", h.R.Intn(4)
			default:
				if !deep {
					o.k = "poke"
					break
				}
				o.k = "range"
				o.sub = map[int][]op{}
				for i := 0; i < 6; i++ {
					if h.R.Intn(2) == 0 {
						for j := h.R.Intn(3); j >= 0; j-- {
							o.sub[i] = append(o.sub[i], rnd(false))
						}
					}
				}
				if h.R.Intn(2) == 0 {
					o.end = h.R.Intn(5)
				}
			}
			return o
		}
		// all short sequences over two keys
		base := []op{{k: "poke", key: "a", v: 1, end: -1}, {k: "poke", key: "b", v: 2, end: -1}, {k: "push", key: "a", v: 3}, {k: "delete", key: "a"}, {k: "delete", key: "b"}, {k: "pop"}, {k: "poke", key: "c", v: 4}}
		idx := make([]int, 5)
		for !func() bool {
			var ops []op
			for i, x := range idx {
				o := base[x]
				o.v += 10 * i
				ops = append(ops, o)
			}
			h.Case(false, func() string { return fmt.Sprint(ops) }, func() string { return runOps(0, ops) })
			for i := range idx {
				idx[i]++
				if idx[i] < len(base) {
					return false
				}
				idx[i] = 0
			}
			return true
		}() {
		}
		for h.Left() {
			n := 3 + h.R.Intn(25)
			var ops []op
			a, b := false, false
			for i := 0; i < n; i++ {
				o := rnd(true)
				a = a || o.k == "delete" || o.k == "pop"
				b = b || o.k == "range" && len(o.sub) > 0
				ops = append(ops, o)
			}
			c := h.R.Intn(5)
			h.Case(a && b, func() string { return fmt.Sprintf("Init(%d) %v", c, ops) }, func() string { return runOps(c, ops) })
		}
	})
}
