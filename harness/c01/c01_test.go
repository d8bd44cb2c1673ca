package c01

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

var le = binary.LittleEndian

// oracle: what every reader must say about a given value.
func readers(t []byte) string {
	n := len(t)
	tag := wpk.TagRaw(t)
	if v, ok := tag.TagStr(); !ok || v != string(t) {
		return "TagStr"
	}
	if v, ok := tag.TagBool(); ok != (n == 1) || v != (n == 1 && t[0] != 0) {
		return fmt.Sprint("TagBool ", v, ok)
	}
	wb := byte(0)
	if n == 1 {
		wb = t[0]
	}
	if v, ok := tag.TagByte(); ok != (n == 1) || v != wb {
		return fmt.Sprint("TagByte ", v, ok)
	}
	var w16 uint16
	var w32 uint32
	var w64 uint64
	var wu uint
	uok := true
	switch n {
	case 1:
		wu = uint(t[0])
	case 2:
		w16 = le.Uint16(t)
		wu = uint(w16)
	case 4:
		w32 = le.Uint32(t)
		wu = uint(w32)
	case 8:
		w64 = le.Uint64(t)
		wu = uint(w64)
	default:
		uok = false
	}
	if v, ok := tag.TagUint16(); ok != (n == 2) || v != wpk.TID(w16) {
		return fmt.Sprint("TagUint16 ", v, ok)
	}
	if v, ok := tag.TagUint32(); ok != (n == 4) || v != w32 {
		return fmt.Sprint("TagUint32 ", v, ok)
	}
	if v, ok := tag.TagUint64(); ok != (n == 8) || v != w64 {
		return fmt.Sprint("TagUint64 ", v, ok)
	}
	if v, ok := tag.TagUint(); ok != uok || v != wu {
		return fmt.Sprint("TagUint ", v, ok)
	}
	if v, ok := tag.TagNumber(); ok != (n == 8) || ok && math.Float64bits(v) != w64 {
		return fmt.Sprint("TagNumber ", v, ok)
	}
	tm, ok := tag.TagTime()
	if ok != (n == 8 || n == 12) {
		return fmt.Sprint("TagTime ", tm, ok)
	}
	ms, ok2 := tag.TagUnixms()
	if ok2 != ok {
		return fmt.Sprint("TagUnixms ", ms, ok2)
	}
	if n == 8 {
		if tm.UnixMilli() != int64(w64) || tm.Nanosecond()%1e6 != 0 {
			return fmt.Sprint("TagTime ms ", tm.UnixMilli())
		}
		if ms != int64(w64) {
			return fmt.Sprint("TagUnixms ms ", ms)
		}
	}
	if n == 12 && le.Uint32(t[8:]) < 1e9 {
		s, ns := int64(le.Uint64(t)), le.Uint32(t[8:])
		if tm.Unix() != s || tm.Nanosecond() != int(ns) {
			return fmt.Sprint("TagTime ns ", tm.Unix(), tm.Nanosecond())
		}
		if s > -9e15 && s < 9e15 && ms != s*1000+int64(ns)/1e6 {
			return fmt.Sprint("TagUnixms ns ", ms)
		}
	}
	return ""
}

func eq(name string, got wpk.TagRaw, want []byte) string {
	if !bytes.Equal(got, want) {
		return fmt.Sprintf("%s gives %v, want %v", name, []byte(got), want)
	}
	return ""
}

func ctor(v uint64) string {
	b8 := le.AppendUint64(nil, v)
	b4 := le.AppendUint32(nil, uint32(v))
	b2 := le.AppendUint16(nil, uint16(v))
	b1 := []byte{byte(v)}
	short := b8
	switch {
	case v <= 0xff:
		short = b1
	case v <= 0xffff:
		short = b2
	case v <= 0xffffffff:
		short = b4
	}
	for _, m := range []string{
		eq("Uint64Tag", wpk.Uint64Tag(v), b8),
		eq("Uint32Tag", wpk.Uint32Tag(uint32(v)), b4),
		eq("Uint16Tag", wpk.Uint16Tag(wpk.TID(v)), b2),
		eq("ByteTag", wpk.ByteTag(byte(v)), b1),
		eq("BoolTag", wpk.BoolTag(v&1 != 0), []byte{byte(v & 1)}),
		eq("UintTag", wpk.UintTag(uint(v)), short),
		eq("UintLenTag 8", wpk.UintLenTag(uint(v), 8), b8),
		eq("UintLenTag 4", wpk.UintLenTag(uint(v), 4), b4),
		eq("UintLenTag 2", wpk.UintLenTag(uint(v), 2), b2),
		eq("UintLenTag 1", wpk.UintLenTag(uint(v), 1), b1),
		eq("NumberTag", wpk.NumberTag(math.Float64frombits(v)), b8),
	} {
		if m != "" {
			return m
		}
	}
	s := int64(v) >> 12
	ns := uint32(v*2654435761) % 1e9
	t := time.Unix(s, int64(ns))
	if m := eq("TimeTag", wpk.TimeTag(t), le.AppendUint32(le.AppendUint64(nil, uint64(s)), ns)); m != "" {
		return m
	}
	if s > -9e15 && s < 9e15 {
		ms := s*1000 + int64(ns)/1e6
		if m := eq("UnixmsTag", wpk.UnixmsTag(t), le.AppendUint64(nil, uint64(ms))); m != "" {
			return m
		}
		if r, ok := wpk.UnixmsTag(t).TagTime(); !ok || r.UnixMilli() != ms {
			return "UnixmsTag does not read back"
		}
	}
	if r, ok := wpk.TimeTag(t).TagTime(); !ok || !r.Equal(t) {
		return "TimeTag does not read back"
	}
	// low-level access, unaligned, neighbours kept
	buf := bytes.Repeat([]byte{0xa5}, 24)
	o := int(v % 7)
	chk := func(n int, w []byte) string {
		for i, x := range buf {
			if i >= o && i < o+n {
				if x != w[i-o] {
					return fmt.Sprintf("set%d wrote %v", n*8, buf)
				}
			} else if x != 0xa5 {
				return fmt.Sprintf("set%d touched a neighbour %v", n*8, buf)
			}
			buf[i] = 0xa5
		}
		return ""
	}
	util.SetU16(buf[o:], uint16(v))
	if util.GetU16(buf[o:]) != uint16(v) {
		return "GetU16"
	}
	if m := chk(2, b2); m != "" {
		return m
	}
	util.SetU32(buf[o:], uint32(v))
	if util.GetU32(buf[o:]) != uint32(v) {
		return "GetU32"
	}
	if m := chk(4, b4); m != "" {
		return m
	}
	util.SetU64(buf[o:], v)
	if util.GetU64(buf[o:]) != v {
		return "GetU64"
	}
	if m := chk(8, b8); m != "" {
		return m
	}
	util.SetF32(buf[o:], math.Float32frombits(uint32(v)&^0x7f800000))
	if math.Float32bits(util.GetF32(buf[o:])) != uint32(v)&^0x7f800000 {
		return "F32"
	}
	if m := chk(4, le.AppendUint32(nil, uint32(v)&^0x7f800000)); m != "" {
		return m
	}
	util.SetF64(buf[o:], math.Float64frombits(v))
	if math.Float64bits(util.GetF64(buf[o:])) != v {
		return "F64"
	}
	return chk(8, b8)
}

func Test(t *testing.T) {
	vh.Run(t, "tag values of every length 0..20 through every reader, integers around the width borders through every constructor; non-trivial: length 1, 2, 4, 8, 12 or a constructor", func(h *vh.H) {
		for v := uint64(0); v < 70000; v++ {
			v := v
			h.Case(true, func() string { return fmt.Sprint("constructors of ", v) }, func() string { return ctor(v) })
		}
		for n := 0; n <= 20; n++ {
			for k := 0; k < 40; k++ {
				b := make([]byte, n+8)
				for i := range b {
					b[i] = byte(h.R.Intn(256))
					if k%4 == 0 {
						b[i] = byte(h.R.Intn(2))
					}
				}
				if k%2 == 0 && n == 12 {
					copy(b[6:], []byte{0, 0, 0, 0, 0, 0})
				}
				p := b[:n]
				h.Case(true, func() string { return fmt.Sprint("readers of ", p) }, func() string { return readers(p) })
			}
		}
		for i := 0; i < 2000 || h.Left(); i++ {
			v := h.U64()
			h.Case(true, func() string { return fmt.Sprint("constructors of ", v) }, func() string { return ctor(v) })
			s := h.Bytes(20)
			h.Case(len(s) == 1 || len(s) == 2 || len(s) == 4 || len(s) == 8 || len(s) == 12, func() string { return fmt.Sprint("readers of ", s) }, func() string {
				if m := eq("StrTag", wpk.StrTag(string(s)), s); m != "" {
					return m
				}
				return readers(s)
			})
		}
	})
}
