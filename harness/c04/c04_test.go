package c04

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

var cuts = [][]int{{64}, {1}, {2}, {3}, {7}, {8}, {23}, {24, 1}, {24, 8, 3}, {63}, {100}, {25}, {5, 0, 2}}

func check(h *vh.H, sign string, v [5]uint64) {
	b := vh.Hdr(sign, v)
	desc := func() string { return fmt.Sprintf("header %q %v", sign, v) }
	var a wpk.Header
	h.Case(true, desc, func() string {
		src := append(append([]byte{}, b...), 9, 9, 9)
		n, err := a.Parse(src)
		if err != nil || n != 64 {
			return fmt.Sprintf("Parse gives %d %v", n, err)
		}
		if !bytes.Equal(src[:64], b) {
			return "Parse changes its argument"
		}
		if uint64(a.FttSize()) != v[2] || uint64(a.DataSize()) != v[4] || v[0] < 1<<63 && uint64(a.Count()) != v[0] {
			return fmt.Sprintf("Count %d FttSize %d DataSize %d, want %v", a.Count(), a.FttSize(), a.DataSize(), v)
		}
		var w bytes.Buffer
		if n, err := a.WriteTo(&w); err != nil || n != 64 || !bytes.Equal(w.Bytes(), b) {
			return fmt.Sprintf("WriteTo gives %d %v and the bytes %v, want %v", n, err, w.Bytes(), b)
		}
		err = a.IsReady()
		switch {
		case sign == vh.ReadySign, sign == vh.BuildSign && v[3] == 0:
			if err != nil {
				return fmt.Sprintf("IsReady: %v, want ready", err)
			}
		case sign == vh.BuildSign:
			if !errors.Is(err, wpk.ErrSignPre) {
				return fmt.Sprintf("IsReady: %v, want not ready", err)
			}
		default:
			if !errors.Is(err, wpk.ErrSignBad) {
				return fmt.Sprintf("IsReady: %v, want no package", err)
			}
		}
		return ""
	})
	for _, c := range cuts {
		for _, last := range []bool{false, true} {
			for _, tail := range [][]byte{nil, {1, 2, 3}} {
				h.Case(len(c) > 1 || c[0] < 64, func() string { return desc() + fmt.Sprintf(" read in pieces %v, end with data %v, followed by %v", c, last, tail) }, func() string {
					r := &vh.Pieces{D: append(append([]byte{}, b...), tail...), S: c, Last: last}
					var g wpk.Header
					n, err := g.ReadFrom(r)
					if err != nil || n != 64 || g != a || r.Pos() != 64 {
						return fmt.Sprintf("ReadFrom gives %d %v, same header %v, consumed %d", n, err, g == a, r.Pos())
					}
					return ""
				})
			}
		}
	}
}

type shortW struct{ n int }

func (w *shortW) Write(b []byte) (int, error) {
	if len(b) <= w.n {
		w.n -= len(b)
		return len(b), nil
	}
	n := w.n
	w.n = 0
	return n, io.ErrShortWrite
}

func TestC04(t *testing.T) {
	vh.Run(t, "headers with boundary, repeated and random field values and signatures (whole, one byte changed) written and read in pieces; all truncations; non-trivial: delivered in pieces", func(h *vh.H) {
		d := [5]uint64{0x0102030405060708, 0x1112131415161718, 0x2122232425262728, 0x3132333435363738, 0x4142434445464748}
		for _, s := range []string{vh.ReadySign, vh.BuildSign} {
			check(h, s, d)
			check(h, s, [5]uint64{0, 0, 0, 0, 0})
			for i := 0; i < 24; i++ {
				for _, x := range []byte{1, 0x20, 0x80} {
					c := []byte(s)
					c[i] ^= x
					check(h, string(c), d)
				}
			}
			for i := range d {
				for _, x := range []uint64{0, 1, 63, 64, 1<<8 - 1, 1 << 8, 1 << 16, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
					v := d
					v[i] = x
					check(h, s, v)
					v = [5]uint64{}
					v[i] = x
					check(h, s, v)
				}
			}
		}
		b := vh.Hdr(vh.ReadySign, d)
		for n := 0; n < 64; n++ {
			for _, c := range cuts {
				for _, last := range []bool{false, true} {
					h.Case(true, func() string { return fmt.Sprintf("%d bytes of a header in pieces %v, end with data %v", n, c, last) }, func() string {
						var g wpk.Header
						if _, err := g.Parse(b[:n:n]); err == nil {
							return "Parse succeeds"
						}
						if _, err := g.Parse(b[:n]); err == nil { // capacity beyond the length
							return "Parse succeeds"
						}
						if _, err := g.ReadFrom(&vh.Pieces{D: b[:n], S: c, Last: last}); err == nil {
							return "ReadFrom succeeds"
						}
						return ""
					})
				}
			}
			h.Case(true, func() string { return fmt.Sprintf("header written to a stream that takes %d bytes", n) }, func() string {
				var a wpk.Header
				a.Parse(b)
				if m, err := a.WriteTo(&shortW{n}); err == nil || m > 64 {
					return fmt.Sprintf("WriteTo gives %d %v", m, err)
				}
				return ""
			})
		}
		for h.Left() {
			s := []string{vh.ReadySign, vh.BuildSign, string(append(h.Bytes(24), make([]byte, 24)...)[:24])}[h.R.Intn(3)]
			check(h, s, [5]uint64{h.U64(), h.U64(), h.U64(), h.U64() * uint64(h.R.Intn(2)), h.U64()})
		}
	})
}
