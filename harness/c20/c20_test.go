package c20

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"path"
	"strconv"
	"strings"
	"testing"
	"time"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/luawpk"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

// what the documentation lists
var names = map[string]uint16{
	"offset": 1, "size": 2, "path": 3, "fid": 4, "mtime": 5, "atime": 6, "ctime": 7, "btime": 8, "attr": 9, "mime": 10,
	"crc32ieee": 11, "crc32": 12, "crc32c": 12, "crc32k": 13, "crc64": 14, "crc64iso": 14,
	"md5": 20, "sha1": 21, "sha224": 22, "sha256": 23, "sha384": 24, "sha512": 25,
	"tmbjpeg": 100, "tmbwebp": 101, "label": 110, "link": 111, "keywords": 112, "category": 113, "version": 114, "author": 115, "comment": 116,
}

var kinds = map[uint16]byte{
	1: 'u', 2: 'u', 3: 's', 4: 'u', 5: 't', 6: 't', 7: 't', 8: 't', 9: 'u', 10: 's',
	11: 'b', 12: 'b', 13: 'b', 14: 'b', 20: 'b', 21: 'b', 22: 'b', 23: 'b', 24: 'b', 25: 'b', 100: 'b', 101: 'b',
	110: 's', 111: 's', 112: 's', 113: 's', 114: 's', 115: 's', 116: 's',
}

func order() (l []string) {
	for _, t := range []uint16{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 21, 22, 23, 24, 25, 100, 101, 110, 111, 112, 113, 114, 115, 116} {
		var a []string
		for n, x := range names {
			if x == t {
				a = append(a, n)
			}
		}
		if len(a) == 2 && a[0] > a[1] {
			a[0], a[1] = a[1], a[0]
		}
		l = append(l, a...)
	}
	return
}

func uintbytes(x uint64) []byte {
	b := binary.LittleEndian.AppendUint64(nil, x)
	switch {
	case x <= 0xff:
		return b[:1]
	case x <= 0xffff:
		return b[:2]
	case x <= 0xffffffff:
		return b[:4]
	}
	return b
}

func integral(f float64) bool { return f >= 0 && f < 1<<53 && f == math.Trunc(f) }

// conv is the documented value of a tag; ok: accepted; open: the documentation leaves it open.
func conv(t uint16, v lua.LValue) (b []byte, ok, open bool) {
	defer func() {
		if len(b) > 0xffff {
			b, ok = nil, false
		}
	}()
	switch v := v.(type) {
	case lua.LNumber:
		f := float64(v)
		switch kinds[t] {
		case 'b', 'u':
			if !integral(f) {
				return nil, true, true
			}
			return uintbytes(uint64(f)), true, false
		case 's':
			if !integral(f) {
				return nil, true, true
			}
			return []byte(strconv.FormatInt(int64(f), 10)), true, false
		case 't':
			if f != math.Trunc(f) || math.Abs(f) >= 1<<53 {
				return nil, true, true
			}
			return binary.LittleEndian.AppendUint64(nil, uint64(int64(f))), true, false
		}
		if integral(f) {
			return uintbytes(uint64(f)), true, false
		}
		if f == math.Trunc(f) && f > 0 { // huge
			return nil, true, true
		}
		return binary.LittleEndian.AppendUint64(nil, math.Float64bits(f)), true, false
	case lua.LString:
		s := string(v)
		switch kinds[t] {
		case 'b':
			b, err := hex.DecodeString(s)
			return b, err == nil, false
		case 'u':
			n, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				return nil, false, false
			}
			return uintbytes(uint64(n)), true, n < 0
		case 't':
			x, err := time.Parse("2006-01-02T15:04:05.999Z07:00", s)
			if err != nil {
				return nil, false, false
			}
			b = binary.LittleEndian.AppendUint64(nil, uint64(x.Unix()))
			return binary.LittleEndian.AppendUint32(b, uint32(x.Nanosecond())), true, false
		}
		return []byte(s), true, false
	case lua.LBool:
		switch kinds[t] {
		case 'u', 0:
			if v {
				return []byte{1}, true, false
			}
			return []byte{0}, true, false
		case 's':
			return []byte(strconv.FormatBool(bool(v))), true, false
		}
	}
	return nil, false, false
}

// key gives the identifier a key stands for, 0 for an invalid one.
func key(k lua.LValue) uint16 {
	switch k := k.(type) {
	case lua.LNumber:
		f := float64(k)
		if f >= 1 && f <= 65535 && f == math.Trunc(f) {
			return uint16(f)
		}
	case lua.LString:
		return names[string(k)]
	}
	return 0
}

func prot(t uint16) bool { return t == 1 || t == 2 || t == 3 }

func show(v lua.LValue) string {
	if s, ok := v.(lua.LString); ok {
		if len(s) > 60 {
			return fmt.Sprintf("%.40q... (%d bytes)", string(s), len(s))
		}
		return fmt.Sprintf("%q", string(s))
	}
	if n, ok := v.(lua.LNumber); ok {
		return fmt.Sprint(float64(n))
	}
	if _, ok := v.(lua.LBool); ok {
		return v.String()
	}
	return "<" + v.Type().String() + ">"
}

type state struct {
	h    *vh.H
	ls   *lua.LState
	ord  []string
	pack *luawpk.LuaPackage
	proc *lua.LFunction
}

func (s *state) ud(v interface{}) *lua.LUserData {
	u := s.ls.NewUserData()
	u.Value = v
	return u
}

func (s *state) odd() lua.LValue {
	switch s.h.R.Intn(5) {
	case 0:
		return lua.LNil
	case 1:
		return s.ls.NewTable()
	case 2:
		return s.proc
	case 3:
		return s.ud([]byte{1, 2})
	}
	return s.ud(wpk.TagRaw{1, 2})
}

func (s *state) num() lua.LNumber {
	r := s.h.R
	switch r.Intn(8) {
	case 0:
		return lua.LNumber(r.Intn(300))
	case 1:
		l := []float64{0, 1, 2, 3, 4, 0.5, 1.5, 2.5, 3.25, -1, -2, -3, -0.5, 255, 256, 65534, 65535, 65536, 65537, 65538, 65539, 131073, 1 << 32, 1<<32 - 1, 1<<32 + 1, 1<<53 - 1, 1e300, math.Inf(1), math.Inf(-1), math.NaN(), 1e-300, 1.0000000001, 2.9999999, -65535, -65534, 65536.5, 1e18, 1 << 63}
		return lua.LNumber(l[r.Intn(len(l))])
	case 2:
		return lua.LNumber(s.h.U64() >> 11)
	case 3:
		return lua.LNumber(-float64(r.Intn(100000)))
	case 4:
		return lua.LNumber(r.NormFloat64() * 1000)
	case 5:
		return lua.LNumber(r.Intn(70000))
	case 6:
		return lua.LNumber(1 + r.Intn(120))
	}
	return lua.LNumber(1600000000000 + r.Intn(1000000000))
}

func (s *state) str() string {
	r := s.h.R
	switch r.Intn(12) {
	case 0:
		return ""
	case 1:
		l := []string{"true", "false", "0", "1", "-1", "+7", " 7", "7 ", "0x10", "1e3", "99999999999999999999", "9223372036854775807", "9223372036854775808", "1.5", "nil", "offset", "00", "007", "1_000"}
		return l[r.Intn(len(l))]
	case 2:
		return strconv.FormatUint(s.h.U64()>>uint(1+r.Intn(40)), 10)
	case 3, 4:
		return hex.EncodeToString(s.h.Bytes(64))
	case 5:
		return strings.ToUpper(hex.EncodeToString(s.h.Bytes(8)))
	case 6:
		return hex.EncodeToString(s.h.Bytes(8)) + []string{"a", "g", "zz", " "}[r.Intn(4)]
	case 7, 8:
		t := time.UnixMilli(r.Int63n(4e12) - 1e12).UTC()
		if r.Intn(3) == 0 {
			t = t.In(time.FixedZone("", 60*(r.Intn(1400)-700)))
		}
		return t.Format("2006-01-02T15:04:05.999Z07:00")
	case 9:
		l := []string{"2021-13-01T00:00:00Z", "2021-01-01", "2021-01-01T25:00:00Z", "2021-01-01T00:00:00", "yesterday", "2021-01-01 00:00:00Z", "2021-02-30T00:00:00Z"}
		return l[r.Intn(len(l))]
	case 10:
		n := []int{65535, 65536, 65537, 131070, 131072}[r.Intn(5)]
		return strings.Repeat("a0"[:1+r.Intn(2)], n)[:n]
	}
	return string(s.h.Bytes(40))
}

func (s *state) value() lua.LValue {
	switch s.h.R.Intn(10) {
	case 0:
		return s.odd()
	case 1, 2, 3:
		return s.num()
	case 4:
		return lua.LBool(s.h.R.Intn(2) == 0)
	}
	return lua.LString(s.str())
}

// good is a value accepted for the tag.
func (s *state) good(t uint16) lua.LValue {
	for {
		v := s.value()
		if _, ok, open := conv(t, v); ok && !open {
			return v
		}
	}
}

func (s *state) key() lua.LValue {
	r := s.h.R
	switch r.Intn(10) {
	case 0:
		return s.odd()
	case 1:
		return lua.LBool(r.Intn(2) == 0)
	case 2, 3:
		return s.num()
	case 4:
		n := s.ord[r.Intn(len(s.ord))]
		l := []string{strings.ToUpper(n), " " + n, n + " ", n + "\x00", strconv.Itoa(int(names[n])), "", "Path", "name", "tid", "crc", "sha", n[:len(n)-1]}
		return lua.LString(l[r.Intn(len(l))])
	case 5:
		return []lua.LValue{lua.LNumber(1), lua.LNumber(2), lua.LNumber(3), lua.LString("offset"), lua.LString("size"), lua.LString("path")}[r.Intn(6)]
	}
	return s.goodkey()
}

func (s *state) goodkey() lua.LValue {
	r := s.h.R
	for {
		var k lua.LValue = lua.LString(s.ord[r.Intn(len(s.ord))])
		switch r.Intn(3) {
		case 0:
			k = lua.LNumber(names[s.ord[r.Intn(len(s.ord))]])
		case 1:
			if r.Intn(2) == 0 {
				k = lua.LNumber(1 + r.Intn(65535))
			}
		}
		if !prot(key(k)) {
			return k
		}
	}
}

type arg struct{ k, v lua.LValue }

func (s *state) table(good bool) (l []arg) {
	seen := map[string]bool{}
	for n := s.h.R.Intn(5); n >= 0; n-- {
		var a arg
		a.k = s.goodkey()
		a.v = s.good(key(a.k))
		if !good && s.h.R.Intn(4) == 0 {
			a.k = s.key()
		}
		if !good && s.h.R.Intn(4) == 0 {
			a.v = s.value()
		}
		if a.k == lua.LNil || a.v == lua.LNil {
			continue
		}
		if n, ok := a.k.(lua.LNumber); ok && n != n {
			continue
		}
		id := fmt.Sprint("#", key(a.k))
		if key(a.k) == 0 {
			id = show(a.k)
		}
		if seen[id] {
			continue
		}
		seen[id] = true
		l = append(l, a)
	}
	return
}

func (s *state) lua(l []arg) *lua.LTable {
	t := s.ls.NewTable()
	for _, a := range l {
		t.RawSet(a.k, a.v)
	}
	return t
}

func showargs(l []arg) string {
	var a []string
	for _, x := range l {
		a = append(a, "["+show(x.k)+"]="+show(x.v))
	}
	return "{" + strings.Join(a, ", ") + "}"
}

// apply gives the tags of the model for a table; bad: the table must be refused, open: not decided.
func apply(l []arg) (kv []vh.KV, bad, open bool) {
	for _, a := range l {
		t := key(a.k)
		if t == 0 || prot(t) {
			bad = true
			continue
		}
		b, ok, op := conv(t, a.v)
		if op {
			open = true
			continue
		}
		if !ok {
			bad = true
			continue
		}
		kv = append(kv, vh.KV{T: t, V: b})
	}
	return
}

func tagmap(b []byte) (map[uint16]string, string) {
	l, ok := vh.Dec(b)
	if !ok {
		return nil, "the tag set is broken: " + vh.Show(b)
	}
	m := map[uint16]string{}
	for _, x := range l {
		if _, ok := m[x.T]; ok {
			return nil, fmt.Sprintf("tag %d is there twice", x.T)
		}
		m[x.T] = string(x.V)
	}
	return m, ""
}

func diff(what string, got, want map[uint16]string, skip map[uint16]bool) string {
	for t, w := range want {
		if skip[t] {
			continue
		}
		g, ok := got[t]
		if !ok {
			return fmt.Sprintf("%s: tag %d is lost", what, t)
		}
		if g != w {
			return fmt.Sprintf("%s: tag %d is %.100q, must be %.100q", what, t, g, w)
		}
	}
	for t := range got {
		if _, ok := want[t]; !ok && !skip[t] {
			return fmt.Sprintf("%s: tag %d (%.100q) appeared", what, t, got[t])
		}
	}
	return ""
}

// call runs a method under pcall and gives the error text (raised) and the first result.
func (s *state) call(m string, args ...lua.LValue) (raised bool, msg string, res lua.LValue) {
	p := s.ls.GetGlobal("p")
	f := s.ls.GetField(p, m)
	top := s.ls.GetTop()
	err := s.ls.CallByParam(lua.P{Fn: f, NRet: 1, Protect: true}, append([]lua.LValue{p}, args...)...)
	if err != nil {
		s.ls.SetTop(top)
		return true, err.Error(), lua.LNil
	}
	res = s.ls.Get(-1)
	s.ls.SetTop(top)
	return
}

func snapshot(p *luawpk.LuaPackage, files []string) string {
	var b bytes.Buffer
	for _, f := range files {
		ts, ok := p.GetTagset(f)
		fmt.Fprintf(&b, "%q %v %x\n", f, ok, []byte(ts))
	}
	fmt.Fprintf(&b, "info %x num %d", []byte(p.GetInfo()), p.TagsetNum())
	return b.String()
}

func Test(t *testing.T) {
	vh.Run(t, "scripts calling settag, addtag, deltag, settags, addtags, deltags, setupinfo and putdata of the Lua module with every documented name, random numbers, misspelt names and other kinds as keys, and with numbers, strings, booleans, nil, tables, functions and userdata as values; the tag sets compared with a model of the documented conversions; non-trivial when the call must be refused", func(h *vh.H) {
		dir := h.Dir()
		s := &state{h: h, ls: lua.NewState(), ord: order()}
		defer s.ls.Close()
		luawpk.InitLuaVM(s.ls)
		s.proc = s.ls.NewFunction(func(*lua.LState) int { return 0 })
		s.ls.SetGlobal("fn", lua.LString(path.Join(dir, "p.wpk")))
		files := []string{"a", "d/b", "c c", "none"}
		fresh := func() {
			if err := s.ls.DoString(`p = wpk.new() p:begin(fn) p:putdata("a", "one") p:putdata("d/b", "two") p:putdata("c c", "three")`); err != nil {
				panic(err)
			}
			s.pack = s.ls.GetGlobal("p").(*lua.LUserData).Value.(*luawpk.LuaPackage)
		}
		done := func() {
			for _, f := range files { // together they may be too long for the table
				s.pack.DelTagset(f)
			}
			s.pack.SetInfo(nil)
			if err := s.ls.DoString(`p:finalize()`); err != nil {
				panic(err)
			}
		}
		fresh()

		// one key and one value
		single := func(op, f string, k, v lua.LValue) {
			id := key(k)
			b, ok, open := conv(id, v)
			bad := id == 0 || prot(id) || f == "none" || op != "deltag" && !ok
			ts0, _ := s.pack.GetTagset(f)
			desc := func() string {
				return fmt.Sprintf("p:%s(%q, %s, %s) with tags %s", op, f, show(k), show(v), vh.Show(ts0))
			}
			if open && !bad && op != "deltag" {
				return
			}
			before := snapshot(s.pack, files)
			was := append([]byte(nil), ts0...)
			h.Case(bad, desc, func() string {
				a := []lua.LValue{lua.LString(f), k}
				if op != "deltag" {
					a = append(a, v)
				}
				raised, msg, res := s.call(op, a...)
				if bad {
					if !raised {
						return "it must raise an error and does not"
					}
					if snapshot(s.pack, files) != before {
						return "it raises an error (" + msg + ") and yet changes the package"
					}
					return ""
				}
				if raised {
					return "it must be accepted and raises: " + msg
				}
				m, e := tagmap(was)
				if e != "" {
					return e
				}
				_, had := m[id]
				want := res == lua.LTrue
				switch op {
				case "settag":
					m[id] = string(b)
					if want == had {
						return fmt.Sprintf("it returns %v, but the tag was there: %v", res, had)
					}
				case "addtag":
					if !had {
						m[id] = string(b)
					}
					if want == had {
						return fmt.Sprintf("it returns %v, but the tag was there: %v", res, had)
					}
				case "deltag":
					delete(m, id)
					if want != had {
						return fmt.Sprintf("it returns %v, but the tag was there: %v", res, had)
					}
				}
				ts, ok := s.pack.GetTagset(f)
				if !ok {
					return "the file is lost"
				}
				g, e := tagmap(ts)
				if e != "" {
					return e
				}
				if e = diff("after the call", g, m, nil); e != "" {
					return e
				}
				for _, o := range files[:3] {
					if o != f {
						if x, ok := s.pack.GetTagset(o); !ok || !strings.Contains(before, fmt.Sprintf("%q true %x\n", o, []byte(x))) {
							return fmt.Sprintf("the tags of %q changed", o)
						}
					}
				}
				return ""
			})
		}
		// every documented name, and every identifier around, with one value of each kind
		vals := []lua.LValue{lua.LNumber(0), lua.LNumber(7), lua.LNumber(300), lua.LNumber(-1.5), lua.LString(""), lua.LString("0a"), lua.LString("12"), lua.LString("x"), lua.LString("2020-02-29T12:34:56.789Z"), lua.LString(strings.Repeat("0", 65536)), lua.LString(strings.Repeat("0", 131072)), lua.LTrue, lua.LFalse, lua.LNil, s.ls.NewTable(), s.proc, s.ud(wpk.TagRaw{1})}
		for _, n := range s.ord {
			for _, v := range vals {
				for _, op := range []string{"settag", "addtag", "deltag"} {
					single(op, "a", lua.LString(n), v)
					single(op, "a", lua.LNumber(names[n]), v)
				}
			}
		}
		for id := 0; id < 300; id++ {
			for _, v := range vals {
				single("settag", "d/b", lua.LNumber(id), v)
			}
			single("deltag", "d/b", lua.LNumber(id), lua.LNil)
		}
		for id := 65500; id < 66100; id++ {
			single("settag", "d/b", lua.LNumber(id), lua.LNumber(1))
			single("deltag", "d/b", lua.LNumber(id), lua.LNil)
		}
		for n := 0; h.Left(); n++ {
			if n%200 == 199 {
				done()
				fresh()
			}
			f := files[h.R.Intn(3)]
			if h.R.Intn(20) == 0 {
				f = "none"
			}
			switch h.R.Intn(8) {
			case 0, 1:
				single("settag", f, s.key(), s.value())
			case 2:
				k := s.goodkey()
				single("settag", f, k, s.good(key(k)))
			case 3:
				single("addtag", f, s.key(), s.value())
			case 4:
				ts, _ := s.pack.GetTagset(f)
				k := s.key()
				if l, _ := vh.Dec(ts); len(l) > 0 && h.R.Intn(2) == 0 {
					k = lua.LNumber(l[h.R.Intn(len(l))].T)
				}
				single("deltag", f, k, lua.LNil)
			default:
				op := []string{"settags", "settags", "addtags", "deltags", "setupinfo", "putdata"}[h.R.Intn(6)]
				l := s.table(op == "deltags" || h.R.Intn(2) == 0)
				if ts, _ := s.pack.GetTagset(f); op == "deltags" && h.R.Intn(2) == 0 {
					for _, x := range func() []vh.KV { l, _ := vh.Dec(ts); return l }() {
						if h.R.Intn(2) == 0 {
							dup := false
							for _, a := range l {
								dup = dup || key(a.k) == x.T
							}
							if !dup && (!prot(x.T) || h.R.Intn(3) == 0) {
								v := lua.LValue(lua.LNumber(1))
								l = append(l, arg{lua.LNumber(x.T), v})
							}
						}
					}
				}
				kv, bad, open := apply(l)
				if open && !bad {
					continue
				}
				nf := ""
				if op == "putdata" {
					nf = fmt.Sprintf("n%d", n)
				} else if op != "setupinfo" && f == "none" {
					bad = true
				}
				ts0, _ := s.pack.GetTagset(f)
				was := append([]byte(nil), ts0...)
				before := snapshot(s.pack, files)
				num := s.pack.TagsetNum()
				desc := func() string {
					if op == "putdata" {
						return fmt.Sprintf("p:putdata(%q, \"data\", %s)", nf, showargs(l))
					}
					return fmt.Sprintf("p:%s(%q, %s) with tags %s", op, f, showargs(l), vh.Show(was))
				}
				h.Case(bad, desc, func() string {
					var a []lua.LValue
					switch op {
					case "setupinfo":
						a = []lua.LValue{s.lua(l)}
					case "putdata":
						a = []lua.LValue{lua.LString(nf), lua.LString("data"), s.lua(l)}
					default:
						a = []lua.LValue{lua.LString(f), s.lua(l)}
					}
					raised, msg, res := s.call(op, a...)
					if raised != bad {
						if bad {
							return "it must raise an error and does not"
						}
						return "it must be accepted and raises: " + msg
					}
					if op == "putdata" {
						defer s.pack.DelTagset(nf)
						ts, ok := s.pack.GetTagset(nf)
						if !ok {
							if bad {
								return ""
							}
							return "the file is not there"
						}
						g, e := tagmap(ts)
						if e != "" {
							return e
						}
						if g[3] != nf || g[2] != "\x04" {
							return fmt.Sprintf("path tag %q, size tag %q of %q", g[3], g[2], nf)
						}
						if _, ok := g[1]; !ok {
							return "no offset tag"
						}
						if bad {
							for t := range g {
								if t > 3 && (t < 5 || t > 8) {
									return fmt.Sprintf("it raises an error (%s) and yet stores tag %d", msg, t)
								}
							}
							return ""
						}
						for _, x := range kv {
							if v, ok := g[x.T]; !ok || v != string(x.V) {
								return fmt.Sprintf("tag %d is %.100q (there: %v), must be %.100q", x.T, v, ok, x.V)
							}
						}
						return ""
					}
					if bad {
						if snapshot(s.pack, files) != before {
							return "it raises an error (" + msg + ") and yet changes the package"
						}
						return ""
					}
					if op == "setupinfo" {
						g, e := tagmap(s.pack.GetInfo())
						if e != "" {
							return e
						}
						m := map[uint16]string{}
						for _, x := range kv {
							m[x.T] = string(x.V)
						}
						return diff("info", g, m, nil)
					}
					m, e := tagmap(was)
					if e != "" {
						return e
					}
					cnt := 0
					for _, x := range kv {
						_, had := m[x.T]
						switch op {
						case "settags":
							m[x.T] = string(x.V)
						case "addtags":
							if !had {
								m[x.T] = string(x.V)
								cnt++
							}
						case "deltags":
							if had {
								delete(m, x.T)
								cnt++
							}
						}
					}
					if op != "settags" && res != lua.LNumber(cnt) {
						return fmt.Sprintf("it returns %v, must return %d", res, cnt)
					}
					ts, _ := s.pack.GetTagset(f)
					g, e := tagmap(ts)
					if e != "" {
						return e
					}
					if s.pack.TagsetNum() != num {
						return "the number of files changed"
					}
					return diff("after the call", g, m, nil)
				})
			}
		}
	})
}
