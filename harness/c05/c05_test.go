package c05

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

const dof, dsz = 64, 1 << 40

func fresh() *wpk.Package {
	var hdr wpk.Header
	hdr.Parse(vh.Hdr(vh.ReadySign, [5]uint64{0, 0, 0, dof, dsz}))
	pkg := wpk.NewPackage()
	pkg.Init(&hdr)
	return pkg
}

func show(l []vh.Ent) string {
	var w strings.Builder
	for i, e := range l {
		if i == 6 {
			fmt.Fprintf(&w, " ... %d entries", len(l))
			break
		}
		fmt.Fprintf(&w, " %q:%d bytes", e.Key, len(e.TS))
	}
	return w.String()
}

// same compares a table with the model.
func same(pkg *wpk.Package, info []byte, l []vh.Ent) string {
	if !bytes.Equal(pkg.GetInfo(), info) {
		return fmt.Sprintf("package information %s, want %s", vh.Show(pkg.GetInfo()), vh.Show(info))
	}
	if n := pkg.TagsetNum(); n != len(l) {
		return fmt.Sprintf("%d entries, want %d", n, len(l))
	}
	i, msg := 0, ""
	pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
		if i >= len(l) || k != l[i].Key || !bytes.Equal(ts, l[i].TS) {
			msg = fmt.Sprintf("entry %d is %q with %s", i, k, vh.Show(ts))
			return false
		}
		i++
		return true
	})
	if msg == "" && i != len(l) {
		msg = fmt.Sprintf("enumeration gives %d entries, want %d", i, len(l))
	}
	for _, e := range l {
		if ts, ok := pkg.GetTagset(e.Key); msg == "" && (!ok || !bytes.Equal(ts, e.TS)) {
			msg = fmt.Sprintf("looking up %q gives %v %s", e.Key, ok, vh.Show(ts))
		}
	}
	return msg
}

type shortW struct {
	w bytes.Buffer
	n int
}

var errW = errors.New("no space")

func (w *shortW) Write(b []byte) (int, error) {
	if len(b) <= w.n {
		w.n -= len(b)
		return w.w.Write(b)
	}
	n := w.n
	w.n = 0
	w.w.Write(b[:n])
	return n, errW
}

var cuts = [][]int{nil, {1}, {2}, {3}, {7}, {64, 1}, {1, 2, 3, 4, 5}, {4096}, {0, 1, 5}}

func build(info []byte, l []vh.Ent, way int) *wpk.Package {
	pkg := fresh()
	pkg.SetInfo(info)
	for i, e := range l {
		switch way {
		case 0:
			pkg.SetupTagset(e.TS)
		case 1:
			pkg.SetTagset(e.Key, e.TS)
		default: // with replaced and deleted entries before
			pkg.SetTagset(fmt.Sprintf("zz/%d", i), vh.Entry("zz", dof, 0))
			pkg.SetTagset(e.Key, vh.Entry(e.Key, dof, 1))
			pkg.DelTagset(fmt.Sprintf("zz/%d", i))
			pkg.SetTagset(e.Key, e.TS)
		}
	}
	return pkg
}

// good: a table that fits the format goes through.
func good(h *vh.H, info []byte, l []vh.Ent, way int, all bool) {
	desc := func() string { return fmt.Sprintf("information of %d bytes, entries%s", len(info), show(l)) }
	want := vh.EncTab(info, l)
	var out []byte
	h.Case(len(l) > 1, desc, func() string {
		pkg := build(info, l, way)
		var w bytes.Buffer
		n, err := pkg.WriteTo(&w)
		if err != nil {
			return "WriteTo: " + err.Error()
		}
		if n != int64(w.Len()) {
			return fmt.Sprintf("WriteTo reports %d bytes, wrote %d", n, w.Len())
		}
		if !bytes.Equal(w.Bytes(), want) {
			return fmt.Sprintf("WriteTo wrote %s, want %s", vh.Show(w.Bytes()), vh.Show(want))
		}
		out = w.Bytes()
		return same(pkg, info, l)
	})
	for _, tail := range [][]byte{nil, {7, 7, 7}, {0, 0}} {
		h.Case(true, func() string { return desc() + fmt.Sprintf(" followed by %v", tail) }, func() string {
			src := append(append([]byte{}, out...), tail...)
			pkg := fresh()
			n, err := pkg.Parse(src)
			if err != nil {
				return "Parse: " + err.Error()
			}
			if n != int64(len(out)) {
				return fmt.Sprintf("Parse reports %d bytes, table has %d", n, len(out))
			}
			if !bytes.Equal(src[:len(out)], out) {
				return "Parse changes its argument"
			}
			return same(pkg, info, l)
		})
		for i, c := range cuts {
			if !all && i > 0 && h.R.Intn(4) > 0 {
				continue
			}
			last := h.R.Intn(2) == 0
			h.Case(true, func() string {
				return desc() + fmt.Sprintf(" followed by %v read in pieces %v, end with data %v", tail, c, last)
			}, func() string {
				r := &vh.Pieces{D: append(append([]byte{}, out...), tail...), S: c, Last: last}
				pkg := fresh()
				n, err := pkg.ReadFrom(r)
				if err != nil {
					return "ReadFrom: " + err.Error()
				}
				if n != int64(len(out)) || r.Pos() != len(out) {
					return fmt.Sprintf("ReadFrom reports %d bytes, consumed %d, table has %d", n, r.Pos(), len(out))
				}
				return same(pkg, info, l)
			})
		}
	}
	// a writer that stops early
	for k := 0; k < 6; k++ {
		m := h.R.Intn(len(want))
		if k == 0 {
			m = len(want) - 1
		}
		h.Case(true, func() string { return desc() + fmt.Sprintf(" written to a stream that takes %d bytes", m) }, func() string {
			w := &shortW{n: m}
			n, err := build(info, l, 0).WriteTo(w)
			if err == nil {
				return "WriteTo succeeds"
			}
			if n > int64(w.w.Len()) {
				return fmt.Sprintf("WriteTo reports %d bytes, wrote %d", n, w.w.Len())
			}
			return ""
		})
	}
	// a writer of which one write fails
	for k := 0; k < 12; k++ {
		at := k
		if k >= 6 {
			at = h.R.Intn(2*len(l) + 4)
		}
		h.Case(true, func() string { return desc() + fmt.Sprintf(" written to a stream whose write number %d fails", at) }, func() string {
			w := &skipW{at: at, part: k % 2}
			if _, err := build(info, l, 0).WriteTo(w); err == nil && !bytes.Equal(w.w.Bytes(), want) {
				return "WriteTo succeeds"
			}
			return ""
		})
	}
}

// skipW loses the write with the given number, the writes after it work.
type skipW struct {
	w     bytes.Buffer
	n, at int
	part  int
}

func (w *skipW) Write(b []byte) (int, error) {
	w.n++
	if w.n-1 == w.at {
		n := w.part
		if n > len(b) {
			n = len(b)
		}
		w.w.Write(b[:n])
		return n, errW
	}
	return w.w.Write(b)
}

// bad: the entry i (or the information, i<0) does not fit.
func bad(h *vh.H, info []byte, l []vh.Ent, what string) {
	h.Case(true, func() string { return what + fmt.Sprintf(": information of %d bytes, entries%s", len(info), show(l)) }, func() string {
		pkg := fresh()
		pkg.SetInfo(info)
		for _, e := range l {
			pkg.SetTagset(e.Key, e.TS)
		}
		var w bytes.Buffer
		if _, err := pkg.WriteTo(&w); err == nil {
			return "WriteTo succeeds"
		}
		return ""
	})
}

// sized makes an entry whose tag set has exactly n bytes.
func sized(key string, n int) vh.Ent {
	base := vh.Entry(key, dof, 5)
	fill := n - len(base) - 4
	ts := append([]byte{}, base...)
	for fill > 65535 {
		ts = append(ts, vh.Enc([]vh.KV{{200, bytes.Repeat([]byte{7}, 30000)}})...)
		fill -= 30004
	}
	ts = append(ts, vh.Enc([]vh.KV{{116, bytes.Repeat([]byte{0xfe}, fill)}})...)
	return vh.Ent{Key: key, TS: ts}
}

func TestC05(t *testing.T) {
	vh.Run(t, "tables with boundary sizes (empty, 65535, 65536 bytes per entry and information), many entries, repeated and unknown tags, built by insertion, replacement and deletion, read from memory and in pieces; random tables; non-trivial: two or more entries or delivered in pieces", func(h *vh.H) {
		h.Slow(60e9)
		info := vh.Enc([]vh.KV{{110, []byte("label")}, {115, nil}, {110, []byte("again")}})
		e := func(k string, more ...vh.KV) vh.Ent { return vh.Ent{Key: k, TS: vh.Entry(k, dof+3, 17, more...)} }
		for way := 0; way < 3; way++ {
			for _, inf := range [][]byte{nil, info} {
				good(h, inf, nil, way, true)
				good(h, inf, []vh.Ent{e("a")}, way, true)
				good(h, inf, []vh.Ent{e("b"), e("a"), e("A"), e("a/b"), e("")}, way, true)
				good(h, inf, []vh.Ent{e("b", vh.KV{T: 116}), e("a", vh.KV{T: 3, V: []byte("other")}, vh.KV{T: 1, V: []byte{1}}), e("c", vh.KV{T: 0xffff, V: []byte{1}}, vh.KV{T: 0x101, V: []byte{9}})}, way, true)
			}
		}
		good(h, info, []vh.Ent{{Key: "a/b", TS: vh.Entry(`a\b`, dof, 1)}, e("b"), {Key: "c/d/e", TS: vh.Entry(`c\d/e`, dof, 2)}}, 1, true)
		for _, n := range []int{255, 256, 257, 32767, 32768, 65534, 65535} {
			good(h, info, []vh.Ent{e("x"), sized("big", n), e("y")}, 1, false)
			good(h, sized("i", n).TS, []vh.Ent{e("x")}, 1, false)
		}
		for _, n := range []int{65536, 65537, 65536 + 20, 65536 + 65535, 131072} {
			bad(h, info, []vh.Ent{sized("big", n)}, "too long an entry")
			bad(h, info, []vh.Ent{e("x"), sized("big", n), e("y")}, "too long an entry")
			bad(h, sized("i", n).TS, []vh.Ent{e("x")}, "too long an information")
		}
		for i := 0; i < 3; i++ {
			l := []vh.Ent{e("a"), e("b")}
			l = append(l[:i:i], append([]vh.Ent{{Key: "empty"}}, l[i:]...)...)
			bad(h, nil, l, "empty entry")
		}
		var many []vh.Ent
		for i := 0; i < 3000; i++ {
			many = append(many, e(fmt.Sprintf("dir%d/file%d", i%7, i)))
		}
		good(h, info, many, 1, false)
		// a stream that ends or fails inside the table
		tab := vh.EncTab(info, []vh.Ent{e("a"), e("b", vh.KV{T: 9, V: []byte{1, 2}})})
		for n := 0; n < len(tab); n++ {
			for _, er := range []error{nil, io.ErrClosedPipe} {
				h.Case(true, func() string { return fmt.Sprintf("table cut after %d of %d bytes, stream error %v", n, len(tab), er) }, func() string {
					for _, c := range cuts {
						if _, err := fresh().ReadFrom(&vh.Pieces{D: tab[:n], S: c, Err: er, Last: n%2 == 0}); err == nil {
							return "ReadFrom succeeds"
						}
					}
					if _, err := fresh().Parse(tab[:n]); err == nil {
						return "Parse succeeds"
					}
					return ""
				})
			}
		}
		for h.Left() {
			inf := vh.Enc(vh.MoreTags(h.R))
			var l []vh.Ent
			has := map[string]bool{}
			for i := h.R.Intn(12); i > 0; i-- {
				k := vh.Name(h.R)
				if has[k] {
					continue
				}
				has[k] = true
				l = append(l, vh.Ent{Key: k, TS: vh.Entry(k, dof+uint64(h.R.Intn(1<<uint(h.R.Intn(30)))), uint64(h.R.Intn(1<<uint(h.R.Intn(30)))), vh.MoreTags(h.R)...)})
			}
			good(h, inf, l, h.R.Intn(3), false)
		}
	})
}
