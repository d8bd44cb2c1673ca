package c03

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

func scan(raw []byte) string {
	// the string lies in the middle of a larger array: reading outside it shows
	arr := make([]byte, 0, len(raw)+64)
	for i := 0; i < 16; i++ {
		arr = append(arr, 0x01)
	}
	arr = append(arr, raw...)
	arr = append(arr, 1, 0, 1, 0, 7, 2, 0, 0, 0, 3, 0, 1, 0, 9)
	s := arr[16 : 16+len(raw) : 16+len(raw)]
	loose := arr[16 : 16+len(raw)]
	for k, b := range [][]byte{s, loose} {
		ts := wpk.TagsetRaw(b)
		want, good := vh.Dec(raw)
		it := ts.Iterator()
		for round := 0; round < 2; round++ {
			i := 0
			for it.Next() {
				if i >= len(want) {
					return fmt.Sprint("too many tags ", k)
				}
				if it.TID() != want[i].T || !bytes.Equal(it.Tag(), want[i].V) || it.TagLen() != len(want[i].V) {
					return fmt.Sprintf("tag %d is %d %v", i, it.TID(), it.Tag())
				}
				if len(it.Tag()) > 0 {
					p := &it.Tag()[0]
					if !within(b, p) {
						return "tag outside the string"
					}
				}
				if it.Failed() {
					return "failed in the middle"
				}
				if i++; i > len(raw)+1 {
					return "does not end"
				}
			}
			if i != len(want) {
				return fmt.Sprintf("%d tags of %d", i, len(want))
			}
			if it.Passed() != good || it.Failed() == good {
				return fmt.Sprint("passed ", it.Passed(), " failed ", it.Failed(), " want ", good)
			}
			if it.Next() || it.Next() || it.Passed() != good || it.Failed() == good {
				return "state changes after the end"
			}
			if !good && (it.Tag() != nil || it.TagLen() != 0) {
				return "tag of a failed iterator"
			}
			it.Reset()
			if len(raw) > 0 && (it.Passed() || it.Failed()) {
				return "reset"
			}
		}
		if n := ts.Num(); n != len(want) {
			return fmt.Sprint("Num ", n)
		}
		for t := 1; t < 12; t++ {
			f := vh.Find(want, uint16(t))
			if ts.Has(wpk.TID(t)) != (f >= 0) {
				return fmt.Sprint("Has ", t)
			}
			v, ok := ts.Get(wpk.TID(t))
			if ok != (f >= 0) || ok && !bytes.Equal(v, want[f].V) {
				return fmt.Sprint("Get ", t, v, ok)
			}
			ts.TagStr(wpk.TID(t))
			ts.TagUint(wpk.TID(t))
			ts.TagTime(wpk.TID(t))
			ts.TagBool(wpk.TID(t))
		}
		ts.Pos()
		ts.Path()
		ts.Name()
		ts.Size()
		ts.ModTime()
		ts.IsDir()
	}
	return ""
}

func within(b []byte, p *byte) bool {
	for i := range b {
		if &b[i] == p {
			return true
		}
	}
	return false
}

func Test(t *testing.T) {
	vh.Run(t, "byte strings scanned as tag sets: all strings of up to 6 bytes over {0,1,2,5}, all truncations of generated tag sets, random strings; non-trivial: at least 4 bytes", func(h *vh.H) {
		one := func(b []byte) {
			h.Case(len(b) >= 4, func() string { return "scan of " + vh.Show(b) }, func() string { return scan(b) })
		}
		al := []byte{0, 1, 2, 5}
		for n := 0; n <= 6; n++ {
			tot := 1
			for i := 0; i < n; i++ {
				tot *= len(al)
			}
			for k := 0; k < tot; k++ {
				b := make([]byte, n)
				for i, x := 0, k; i < n; i, x = i+1, x/len(al) {
					b[i] = al[x%len(al)]
				}
				one(b)
			}
		}
		for _, n := range []int{0, 1, 255, 256, 257, 300, 32767, 32768, 40000, 65535} {
			l := []vh.KV{{3, []byte("ab")}, {5, bytes.Repeat([]byte{7}, n)}, {6, nil}, {7, []byte{1}}}
			b := vh.Enc(l)
			one(b)
			for _, c := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, n, n + 3, n + 4, n + 6} {
				if c < len(b) {
					one(b[:len(b)-c])
				}
			}
		}
		for i := 0; i < 500 || h.Left(); i++ {
			var l []vh.KV
			for k := h.R.Intn(6); k > 0; k-- {
				l = append(l, vh.KV{uint16(h.R.Intn(10)), h.Bytes(9)})
			}
			b := vh.Enc(l)
			if h.R.Intn(2) == 0 && len(b) > 0 {
				b = b[:h.R.Intn(len(b)+1)]
			}
			if h.R.Intn(3) == 0 && len(b) > 0 {
				b[h.R.Intn(len(b))] = byte(h.R.Intn(256))
			}
			one(b)
			if i%4 == 0 {
				one(h.Bytes(24))
			}
		}
	})
}
