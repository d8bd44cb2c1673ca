package c02

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

type op struct {
	k    string
	t    uint16
	v    []byte
	spar int
}

func (o op) String() string { return fmt.Sprintf("%s(%d,%s,spare %d)", o.k, o.t, vh.Show(o.v), o.spar) }

func apply(l []vh.KV, o op) ([]vh.KV, bool) {
	f := vh.Find(l, o.t)
	n := append([]vh.KV(nil), l...)
	switch o.k {
	case "put":
		return append(n, vh.KV{o.t, o.v}), true
	case "add":
		if f >= 0 {
			return n, false
		}
		return append(n, vh.KV{o.t, o.v}), true
	case "set":
		if f >= 0 {
			n[f].V = o.v
			return n, false
		}
		return append(n, vh.KV{o.t, o.v}), true
	case "del":
		if f >= 0 {
			return append(n[:f:f], n[f+1:]...), true
		}
		return n, false
	}
	return n, false
}

func check(ts wpk.TagsetRaw, l []vh.KV) string {
	if w := vh.Enc(l); !bytes.Equal(ts, w) {
		return fmt.Sprintf("content is %s, want %s", vh.Show(ts), vh.Show(w))
	}
	if ts.Num() != len(l) {
		return fmt.Sprint("Num ", ts.Num())
	}
	for t := 1; t < 9; t++ {
		f := vh.Find(l, uint16(t))
		v, ok := ts.Get(wpk.TID(t))
		if ok != (f >= 0) || ok && !bytes.Equal(v, l[f].V) {
			return fmt.Sprintf("Get(%d) gives %v %v", t, v, ok)
		}
		if ts.Has(wpk.TID(t)) != (f >= 0) {
			return fmt.Sprintf("Has(%d)", t)
		}
	}
	return ""
}

func run(l []vh.KV, ops []op) string {
	ts := wpk.TagsetRaw(vh.Enc(l))
	for i, o := range ops {
		// the set lies inside a larger array; before must not change, the rest may only through spare capacity
		arr := bytes.Repeat([]byte{0xee}, 8+len(ts)+o.spar+8)
		copy(arr[8:], ts)
		ts = arr[8 : 8+len(ts) : 8+len(ts)+o.spar]
		cp := wpk.CopyTagset(ts)
		keep := append([]byte(nil), ts...)
		vkeep := append([]byte(nil), o.v...)
		want, flag := apply(l, o)
		var got wpk.TagsetRaw
		var ok bool
		short := o.spar%2 == 1
		switch o.k {
		case "put":
			got, ok = ts.Put(wpk.TID(o.t), o.v), true
		case "add":
			if short {
				got, ok = ts.Add(wpk.TID(o.t), o.v), flag
			} else {
				got, ok = ts.AddOk(wpk.TID(o.t), o.v)
			}
		case "set":
			if short {
				got, ok = ts.Set(wpk.TID(o.t), o.v), flag
			} else {
				got, ok = ts.SetOk(wpk.TID(o.t), o.v)
			}
		case "del":
			if short {
				got, ok = ts.Del(wpk.TID(o.t)), flag
			} else {
				got, ok = ts.DelOk(wpk.TID(o.t))
			}
		}
		if ok != flag {
			return fmt.Sprintf("step %d %v reports %v", i, o, ok)
		}
		if m := check(got, want); m != "" {
			return fmt.Sprintf("step %d %v on %s: %s", i, o, vh.Show(keep), m)
		}
		if !bytes.Equal(vkeep, o.v) {
			return fmt.Sprintf("step %d %v changed the value passed in", i, o)
		}
		if !bytes.Equal(cp, keep) {
			return fmt.Sprintf("step %d %v changed a copy", i, o)
		}
		for _, x := range arr[:8] {
			if x != 0xee {
				return fmt.Sprintf("step %d %v wrote before the set", i, o)
			}
		}
		for _, x := range arr[8+len(keep)+o.spar:] {
			if x != 0xee {
				return fmt.Sprintf("step %d %v wrote after the capacity", i, o)
			}
		}
		l, ts = want, got
	}
	return ""
}

func Test(t *testing.T) {
	vh.Run(t, "sequences of put, add, set, delete against a list model, every spare capacity 0..12; non-trivial: a set or delete of a present tag", func(h *vh.H) {
		one := func(l []vh.KV, ops []op, nt bool) {
			h.Case(nt, func() string { return fmt.Sprint("start ", vh.Show(vh.Enc(l)), " ops ", ops) }, func() string { return run(l, ops) })
		}
		val := func(n int, c byte) []byte { return bytes.Repeat([]byte{c}, n) }
		// every position, old length, new length, spare capacity
		for pos := 0; pos < 3; pos++ {
			for ol := 0; ol < 5; ol++ {
				for nl := 0; nl < 9; nl++ {
					for sp := 0; sp < 12; sp++ {
						l := []vh.KV{{1, val(2, 0x11)}, {2, val(3, 0x22)}, {3, val(1, 0x33)}}
						l[pos].V = val(ol, 0x44)
						for _, k := range []string{"set", "del", "add", "put"} {
							if k != "set" && nl > 2 {
								continue
							}
							one(l, []op{{k, uint16(pos + 1), val(nl, 0x55), sp}, {"set", 2, val(4, 0x66), sp % 5}}, true)
						}
						one(l, []op{{"set", 7, val(nl, 0x55), sp}, {"add", 8, val(ol, 0x77), sp % 3}, {"del", 6, nil, sp % 4}}, false)
					}
				}
			}
		}
		for _, n := range []int{255, 256, 257, 4095, 32768, 65535} {
			for _, m := range []int{0, 1, 255, 256, 65535} {
				one([]vh.KV{{1, val(n, 1)}, {2, val(3, 2)}}, []op{{"set", 1, val(m, 9), 0}, {"set", 2, val(n, 8), 4}, {"del", 1, nil, 0}, {"put", 5, val(m, 7), 0}, {"add", 6, val(n, 7), 0}}, true)
			}
		}
		for i := 0; i < 300 || h.Left(); i++ {
			var l []vh.KV
			for k := h.R.Intn(5); k > 0; k-- {
				l = append(l, vh.KV{uint16(1 + h.R.Intn(6)), h.Bytes(10)})
			}
			var ops []op
			nt := false
			for k := 1 + h.R.Intn(6); k > 0; k-- {
				o := op{[]string{"put", "add", "set", "set", "del"}[h.R.Intn(5)], uint16(1 + h.R.Intn(6)), h.Bytes(12), h.R.Intn(20)}
				if o.v == nil {
					o.v = []byte{}
				}
				nt = nt || (o.k == "set" || o.k == "del") && vh.Find(l, o.t) >= 0
				ops = append(ops, o)
			}
			one(l, ops, nt)
		}
	})
}
