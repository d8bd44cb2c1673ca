package c06

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"testing"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

// judge opens the bytes and compares what comes out with the model.
func judge(h *vh.H, nontriv bool, what string, b []byte) {
	h.Case(nontriv, func() string { return what + ": stream " + vh.Show(b) }, func() string {
		m := &vh.Mem{D: append([]byte{}, b...)}
		if h.R.Intn(2) == 0 {
			m.Pieces = []int{1 + h.R.Intn(9), 1 + h.R.Intn(200)}
		}
		pkg := wpk.NewPackage()
		err := pkg.OpenStream(m)
		if !bytes.Equal(m.D, b) {
			return "opening changes the stream"
		}
		_, _, _ = wpk.GetPackageInfo(m)
		if err != nil {
			return ""
		}
		// accepted: the table must be what the bytes say
		if len(b) < 64 {
			return "accepted without a header"
		}
		sign := string(b[:24])
		var v [5]uint64
		for i := range v {
			v[i] = binary.LittleEndian.Uint64(b[24+8*i:])
		}
		if sign != vh.ReadySign && !(sign == vh.BuildSign && v[3] == 0) {
			return "accepted with signature " + sign
		}
		seen := map[string]bool{}
		n, msg := 0, ""
		pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
			n++
			key, off, size, ok := vh.EntOf(ts, v[3], v[4])
			switch {
			case !ok:
				msg = fmt.Sprintf("accepted entry %q %s has no proper name, offset or size in the data section %d+%d", k, vh.Show(ts), v[3], v[4])
			case key != k:
				msg = fmt.Sprintf("entry under the name %q has the path %q", k, key)
			case seen[k]:
				msg = fmt.Sprintf("two entries %q", k)
			}
			o, s := ts.Pos()
			if msg == "" && (uint64(o) != off || uint64(s) != size) {
				msg = fmt.Sprintf("entry %q reads as %d+%d, its tags say %d+%d", k, o, s, off, size)
			}
			seen[k] = true
			return msg == ""
		})
		if msg != "" {
			return msg
		}
		if n != pkg.TagsetNum() {
			return fmt.Sprintf("%d entries enumerated, %d reported", n, pkg.TagsetNum())
		}
		if v[2] > 0 {
			if v[1] > uint64(len(b)) || v[2] > uint64(len(b))-v[1] {
				return "accepted with a tags table outside of the stream"
			}
			_, l, k, ok := vh.DecTab(b[v[1]:v[1]+v[2]], v[3], v[4])
			if !ok || uint64(k) != v[2] {
				return fmt.Sprintf("accepted a table that is none (well-formed %v, %d of %d bytes)", ok, k, v[2])
			}
			if len(l) != n {
				return fmt.Sprintf("%d entries, the stream has %d", n, len(l))
			}
		} else if n != 0 {
			return "entries without a table"
		}
		return ""
	})
}

// pack puts header, data and table together.
func pack(sign string, data, tab []byte) []byte {
	b := vh.Hdr(sign, [5]uint64{1, uint64(64 + len(data)), uint64(len(tab)), 64, uint64(len(data))})
	return append(append(b, data...), tab...)
}

func memory(h *vh.H, what string, b []byte) {
	h.Case(true, func() string { return what + ": stream " + vh.Show(b) }, func() string {
		var a, c runtime.MemStats
		runtime.ReadMemStats(&a)
		pkg := wpk.NewPackage()
		pkg.OpenStream(bytes.NewReader(b))
		wpk.GetPackageInfo(bytes.NewReader(b))
		runtime.ReadMemStats(&c)
		if d := c.TotalAlloc - a.TotalAlloc; d > 4<<20+uint64(len(b))*300 {
			return fmt.Sprintf("reserves %d bytes for a stream of %d", d, len(b))
		}
		return ""
	})
}

func TestC06(t *testing.T) {
	vh.Run(t, "truncations and single-byte changes of packages, headers with extreme, wrapping and mutually inconsistent fields, hostile entries (missing, repeated, misplaced tags, extents around and beyond the section, wrap-around, equal names, both slashes), random bytes; memory reserved measured; non-trivial: not a plain valid package", func(h *vh.H) {
		h.OnDisk()
		data := []byte("0123456789abcdef")
		ent := func(k string, o, s uint64, more ...vh.KV) vh.Ent { return vh.Ent{Key: k, TS: vh.Entry(k, o, s, more...)} }
		raw := func(l ...vh.KV) vh.Ent { return vh.Ent{TS: vh.Enc(l)} }
		info := vh.Enc([]vh.KV{{110, []byte("label")}})
		full := pack(vh.ReadySign, data, vh.EncTab(info, []vh.Ent{ent("a", 64, 4), ent("dir/b", 68, 12, vh.KV{T: 10, V: []byte("m")}), ent("c", 80, 0)}))
		h.Case(false, func() string { return "valid package is accepted" }, func() string {
			pkg := wpk.NewPackage()
			if err := pkg.OpenStream(bytes.NewReader(full)); err != nil || pkg.TagsetNum() != 3 {
				return fmt.Sprintf("OpenStream: %v, %d entries", err, pkg.TagsetNum())
			}
			return ""
		})
		judge(h, false, "valid package", full)
		for n := 0; n < len(full); n++ {
			judge(h, true, fmt.Sprintf("cut after %d bytes", n), full[:n])
		}
		for i := range full {
			for _, x := range []byte{1, 2, 0x40, 0x80, 0xff} {
				c := append([]byte{}, full...)
				c[i] ^= x
				judge(h, true, fmt.Sprintf("byte %d changed", i), c)
			}
			c := append([]byte{}, full...)
			c[i] = 0
			judge(h, true, fmt.Sprintf("byte %d zero", i), c)
		}
		// header fields
		ext := []uint64{0, 1, 2, 63, 64, 65, 79, 80, 81, uint64(len(full)) - 1, uint64(len(full)), uint64(len(full)) + 1, 1 << 20, 1 << 31, 1<<32 - 1, 1 << 32, 1<<40 + 1, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 64, 1<<64 - 81, 1<<64 - 80, 1<<64 - 64, 1<<64 - 2, 1<<64 - 1}
		for i := 0; i < 5; i++ {
			for _, x := range ext {
				for _, s := range []string{vh.ReadySign, vh.BuildSign} {
					c := append([]byte(s), full[24:]...)
					binary.LittleEndian.PutUint64(c[24+8*i:], x)
					judge(h, true, fmt.Sprintf("header field %d set to %d", i, x), c)
					memory(h, fmt.Sprintf("header field %d set to %d", i, x), c)
					for j := 0; j < 5; j++ {
						for _, y := range []uint64{0, 64, uint64(len(full)), 1<<64 - 1, -x, 1 << 63, uint64(len(full)) - x} {
							d := append([]byte{}, c...)
							binary.LittleEndian.PutUint64(d[24+8*j:], y)
							judge(h, true, fmt.Sprintf("header fields %d, %d set to %d, %d", i, j, x, y), d)
						}
					}
				}
			}
		}
		// extents
		for _, o := range []uint64{0, 1, 63, 64, 65, 79, 80, 81, 1<<32 + 64, 1<<63 + 64, 1<<64 - 1, 1<<64 - 64, 1<<64 - 16} {
			for _, s := range []uint64{0, 1, 15, 16, 17, 1 << 16, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 64, 1<<64 - 80, 1<<64 - 1, -o, 80 - o, 64 - o, 81 - o} {
				judge(h, true, fmt.Sprintf("extent %d+%d", o, s), pack(vh.ReadySign, data, vh.EncTab(info, []vh.Ent{ent("a", o, s)})))
				for _, w := range []vh.KV{{1, binary.LittleEndian.AppendUint64(nil, o)}, {2, binary.LittleEndian.AppendUint64(nil, s)}, {1, nil}, {2, nil}, {1, []byte{64}}, {2, []byte{1}}} {
					judge(h, true, fmt.Sprintf("extent %d+%d and a repeated tag", o, s), pack(vh.ReadySign, data, vh.EncTab(info, []vh.Ent{ent("a", 64, 1, w), ent("b", o, s, w)})))
					judge(h, true, fmt.Sprintf("a repeated tag before the extent %d+%d", o, s), pack(vh.ReadySign, data, vh.EncTab(info, []vh.Ent{{TS: append(vh.Enc([]vh.KV{w}), vh.Entry("b", o, s)...)}})))
				}
				// data section at the end of the number range
				c := pack(vh.ReadySign, data, vh.EncTab(info, []vh.Ent{ent("a", o, s)}))
				for _, sec := range [][2]uint64{{1 << 63, 1 << 63}, {1<<64 - 16, 1 << 63}, {1<<64 - 64, 128}, {0, 1<<64 - 1}, {64, 1<<64 - 1}, {o, s}, {o, 0}} {
					binary.LittleEndian.PutUint64(c[48:], sec[0])
					binary.LittleEndian.PutUint64(c[56:], sec[1])
					judge(h, true, fmt.Sprintf("extent %d+%d in section %d+%d", o, s, sec[0], sec[1]), c)
				}
			}
		}
		p, o, s := vh.KV{T: 3, V: []byte("n")}, vh.KV{T: 1, V: []byte{64}}, vh.KV{T: 2, V: []byte{1}}
		for _, e := range []vh.Ent{raw(), raw(p), raw(o), raw(s), raw(p, o), raw(p, s), raw(o, s), raw(s, o, p), raw(p, vh.KV{T: 1}, s), raw(p, o, vh.KV{T: 2}), raw(p, vh.KV{T: 1, V: []byte{64, 0, 0}}, s),
			raw(p, vh.KV{T: 1, V: bytes.Repeat([]byte{64}, 16)}, s), raw(vh.KV{T: 3}, o, s), raw(p, p, o, s), raw(p, vh.KV{T: 3, V: []byte("a")}, o, s), raw(vh.KV{T: 3, V: []byte("a")}, p, o, s), raw(vh.KV{T: 0, V: []byte{1}}, p, o, s), raw(vh.KV{T: 259, V: []byte("x")}, o, s)} {
			for _, l := range [][]vh.Ent{{e}, {ent("a", 64, 1), e}, {e, ent("a", 64, 1)}, {e, e}, {ent("n", 64, 1), e}, {e, ent("n", 64, 1)}} {
				judge(h, true, "hostile entry", pack(vh.ReadySign, data, vh.EncTab(info, l)))
				judge(h, true, "hostile entry", pack(vh.ReadySign, data, vh.EncTab(nil, l)))
			}
		}
		for _, k := range [][2]string{{"a/b", "a\\b"}, {"a\\b", "a/b"}, {"a\\b", "a\\b"}, {"", ""}, {"a", "a"}, {"a\\b\\c", "a\\b/c"}, {"\\", "/"}} {
			judge(h, true, "equal names", pack(vh.ReadySign, data, vh.EncTab(info, []vh.Ent{ent(k[0], 64, 1), ent("z", 64, 1), ent(k[1], 65, 1)})))
		}
		// lengths inside the table
		tab := vh.EncTab(info, []vh.Ent{ent("a", 64, 4), ent("b", 68, 12)})
		for i := range tab {
			for _, x := range []byte{0, 1, 2, 3, 4, 5, 8, 0x7f, 0x80, 0xfe, 0xff} {
				c := append([]byte{}, tab...)
				c[i] = x
				judge(h, true, fmt.Sprintf("table byte %d set to %d", i, x), pack(vh.ReadySign, data, c))
				judge(h, true, fmt.Sprintf("table byte %d set to %d", i, x), pack(vh.ReadySign, data, append(c, 0, 0, 0)))
			}
			judge(h, true, "table too short", pack(vh.ReadySign, data, tab[:i]))
			judge(h, true, "table too long", pack(vh.ReadySign, data, append(append([]byte{}, tab...), make([]byte, i)...)))
		}
		// information that promises more than there is
		for _, n := range []uint16{1, 100, 65535} {
			b := binary.LittleEndian.AppendUint16(vh.Hdr(vh.ReadySign, [5]uint64{0, 64, 4, 64, 0}), n)
			memory(h, "information longer than the stream", append(b, 0, 0))
			judge(h, true, "information longer than the stream", append(b, 0, 0))
		}
		// count out of proportion
		for _, n := range []uint64{5, 1000, 1 << 16, 1 << 24, 1 << 28, 1 << 31, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
			for _, sz := range []uint64{0, 4, 100, 1 << 40, n, 1<<64 - 64} {
				for _, of := range []uint64{0, 64, 1<<64 - 64} {
					b := append(vh.Hdr(vh.ReadySign, [5]uint64{n, of, sz, 64, 0}), 0, 0, 0, 0)
					memory(h, "count out of proportion", b)
					judge(h, true, "count out of proportion", b)
				}
			}
		}
		for h.Left() {
			c := append([]byte{}, full...)
			switch h.R.Intn(5) {
			case 0: // random entries
				var l []vh.Ent
				for i := h.R.Intn(5); i > 0; i-- {
					var kv []vh.KV
					for j := h.R.Intn(5); j >= 0; j-- {
						switch t := uint16(h.R.Intn(5)); t {
						case 3:
							kv = append(kv, vh.KV{T: 3, V: []byte([]string{"a", "b", "c/d", "c\\d", ""}[h.R.Intn(5)])})
						case 1:
							kv = append(kv, vh.KV{T: 1, V: append(vh.UintBytes(60+uint64(h.R.Intn(24))), make([]byte, h.R.Intn(2))...)})
						case 2:
							kv = append(kv, vh.KV{T: 2, V: append(vh.UintBytes(uint64(h.R.Intn(20))), make([]byte, h.R.Intn(2))...)})
						default:
							kv = append(kv, vh.KV{T: t, V: h.Bytes(4)})
						}
					}
					l = append(l, raw(kv...))
				}
				c = pack(vh.ReadySign, data, vh.EncTab(info, l))
			case 1:
				for i := h.R.Intn(6); i >= 0; i-- {
					c[24+h.R.Intn(len(c)-24)] = byte(h.R.Intn(256))
				}
			case 2:
				for i := h.R.Intn(3); i >= 0; i-- {
					binary.LittleEndian.PutUint64(c[24+8*h.R.Intn(5):], h.U64())
				}
			case 3:
				c = append(c[:64+len(data):64+len(data)], h.Bytes(60)...)
				binary.LittleEndian.PutUint64(c[40:], uint64(len(c)-64-len(data)))
			case 4:
				c = append(vh.Hdr(vh.ReadySign, [5]uint64{uint64(h.R.Intn(4)), uint64(h.R.Intn(100)), uint64(h.R.Intn(100)), uint64(h.R.Intn(100)), uint64(h.R.Intn(100))}), h.Bytes(120)...)
			}
			judge(h, true, "random", c)
		}
	})
}
