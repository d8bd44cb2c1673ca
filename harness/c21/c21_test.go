package c21

import (
	"bytes"
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"hash/crc32"
	"hash/crc64"
	"os"
	"path/filepath"
	"strings"
	"testing"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk/luawpk"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

var flags = []string{"autofid", "automime", "crc32", "crc64", "md5", "sha1", "sha224", "sha256", "sha384", "sha512"}
var tids = []uint16{4, 10, 12, 14, 20, 21, 22, 23, 24, 25}
var lens = []int{0, 0, 4, 8, 16, 20, 28, 32, 48, 64}

func checksum(t uint16, secret string, data []byte) []byte {
	var f func() hash.Hash
	switch t {
	case 12:
		h := crc32.New(crc32.MakeTable(crc32.Castagnoli))
		h.Write(data)
		return h.Sum(nil)
	case 14:
		h := crc64.New(crc64.MakeTable(crc64.ISO))
		h.Write(data)
		return h.Sum(nil)
	case 20:
		f = md5.New
	case 21:
		f = sha1.New
	case 22:
		f = sha256.New224
	case 23:
		f = sha256.New
	case 24:
		f = sha512.New384
	case 25:
		f = sha512.New
	}
	h := hmac.New(f, []byte(secret))
	h.Write(data)
	return h.Sum(nil)
}

func tagmap(b []byte) (map[uint16]string, string) {
	l, ok := vh.Dec(b)
	if !ok {
		return nil, "the tag set is broken: " + vh.Show(b)
	}
	m := map[uint16]string{}
	for _, x := range l {
		if _, ok := m[x.T]; ok {
			return nil, fmt.Sprintf("tag %d is there twice", x.T)
		}
		m[x.T] = string(x.V)
	}
	return m, ""
}

func num(s string) (x uint64) {
	for i := len(s) - 1; i >= 0; i-- {
		x = x<<8 | uint64(s[i])
	}
	return
}

func Test(t *testing.T) {
	vh.Run(t, "scripts that pack data and files of 0 to 200000 bytes with random combinations of the automatic tags switched on, random secrets, tags given in the table, several packages and sessions (begin, finalize, append, load in a new state); every tag compared with one computed here and the rest with the same file packed with everything off; non-trivial with at least two automatic tags", func(h *vh.H) {
		exts := []string{".txt", ".html", ".png", ".jpg", ".PNG", ".HtMl", "", ".", ".qqz", ".lua", ".wpk", ".md", ".tar.gz"}
		heads := []string{"", "\x89PNG\x0d\x0a\x1a\x0a", "\xff\xd8\xff", "GIF89a", "PK\x03\x04", "%PDF-1.4"}
		kinds := []string{"application/octet-stream", "image/png", "image/jpeg", "image/gif", "application/zip", "application/pdf"}
		known := map[string]string{".txt": "text/plain", ".html": "text/html", ".png": "image/png", ".jpg": "image/jpeg"}
		for round := 0; h.Left(); round++ {
			dir := h.Dir()
			pk := filepath.Join(dir, "p.wpk")
			dt := ""
			if h.R.Intn(3) == 0 {
				dt = filepath.Join(dir, "p.wpf")
			}
			ls := lua.NewState()
			luawpk.InitLuaVM(ls)
			set := func(n string, v lua.LValue) { ls.SetGlobal(n, v) }
			do := func(s string) error { return ls.DoString(s) }
			must := func(s string) {
				if err := do(s); err != nil {
					panic(s + ": " + err.Error())
				}
			}
			set("pk", lua.LString(pk))
			if dt != "" {
				set("dt", lua.LString(dt))
			}
			must(`p = wpk.new() p:begin(pk, dt)`)
			pack := func() *luawpk.LuaPackage { return ls.GetGlobal("p").(*lua.LUserData).Value.(*luawpk.LuaPackage) }
			on := map[string]bool{}
			secret := ""
			var last uint64
			fids := map[uint64]string{}
			mimes := map[string]string{}
			log := []string{}
			h.Case(false, func() string { return "begin" }, func() string { return "" })
			for i, n := 0, 3+h.R.Intn(12); i < n && h.Left(); i++ {
				// another session now and then
				switch h.R.Intn(12) {
				case 0:
					must(`p:finalize() p:append()`)
					log = append(log, "finalize append")
				case 1:
					must(`p:finalize()`)
					ls.Close()
					ls = lua.NewState()
					luawpk.InitLuaVM(ls)
					set("pk", lua.LString(pk))
					if dt != "" {
						set("dt", lua.LString(dt))
					}
					must(`p = wpk.new() p:load(pk, dt) p:append()`)
					on, secret = map[string]bool{}, ""
					log = append(log, "finalize, load by a new script, append")
				}
				p := 0
				if h.R.Intn(3) > 0 {
					p = h.R.Intn(3)
				}
				for _, f := range flags {
					if p == 0 || h.R.Intn(4) == 0 {
						on[f] = h.R.Intn(3) < 2
						if p == 0 && h.R.Intn(4) == 0 {
							on[f] = true
						}
						must(fmt.Sprintf("p.%s = %v", f, on[f]))
					}
				}
				if h.R.Intn(3) == 0 {
					secret = string(h.Bytes(200))
					set("s", lua.LString(secret))
					must("p.secret = s")
				}
				// the content
				size := h.R.Intn(300)
				switch h.R.Intn(8) {
				case 0:
					size = 0
				case 1:
					size = 32768*(1+h.R.Intn(3)) + h.R.Intn(3) - 1
				case 2:
					size = h.R.Intn(200000)
				}
				data := make([]byte, size)
				h.R.Read(data)
				hd := h.R.Intn(len(heads))
				copy(data, "\x01\x01\x01\x01")
				copy(data, heads[hd])
				ext := exts[h.R.Intn(len(exts))]
				key := fmt.Sprintf("f%d%s", i, ext)
				// tags given by the script
				tags := map[uint16]string{}
				tb := ls.NewTable()
				for j, x := range tids {
					if h.R.Intn(8) != 0 {
						continue
					}
					switch j {
					case 0:
						v := 1000000 + h.R.Intn(1000)
						if h.R.Intn(2) == 0 {
							v = 1 + h.R.Intn(30)
						}
						tb.RawSet(lua.LNumber(x), lua.LNumber(v))
						tags[x] = string(vh.UintBytes(uint64(v)))
					case 1:
						tb.RawSet(lua.LString("mime"), lua.LString("my/mime"))
						tags[x] = "my/mime"
					default:
						b := make([]byte, lens[j])
						h.R.Read(b)
						tb.RawSet(lua.LNumber(x), lua.LString(fmt.Sprintf("%x", b)))
						tags[x] = string(b)
					}
				}
				if h.R.Intn(3) == 0 {
					tb.RawSet(lua.LString("comment"), lua.LString("remark"))
					tags[116] = "remark"
				}
				set("k", lua.LString(key))
				set("tw", lua.LString(key+"~"))
				set("d", lua.LString(data))
				set("tb", tb)
				file := h.R.Intn(2) == 0
				call, twin := "p:putdata(k, d, tb)", "p:putdata(tw, d)"
				if file {
					f := filepath.Join(dir, "src")
					os.WriteFile(f, data, 0o644)
					set("f", lua.LString(f))
					call, twin = "p:putfile(k, f, tb)", "p:putfile(tw, f)"
				}
				if len(tags) == 0 && h.R.Intn(2) == 0 {
					call = strings.Replace(call, ", tb", "", 1)
				}
				cnt := 0
				var show []string
				for _, f := range flags {
					if on[f] {
						cnt++
						show = append(show, f)
					}
				}
				was := append([]string(nil), log...)
				desc := func() string {
					return fmt.Sprintf("package %d, after %q: %s with k=%q, %d bytes starting %q, on: %v, secret %q, given tags %q", round, was, call, key, len(data), heads[hd], show, secret, tags)
				}
				log = append(log, call+" "+strings.Join(show, ","))
				h.Case(cnt > 1, desc, func() string {
					if err := do(call); err != nil {
						return "raises " + err.Error()
					}
					ts, ok := pack().GetTagset(key)
					if !ok {
						return "the file is not in the package"
					}
					g, e := tagmap(ts)
					if e != "" {
						return e
					}
					if file {
						now, _ := os.ReadFile(filepath.Join(dir, "src"))
						if !bytes.Equal(now, data) {
							return "the packed file changed"
						}
					}
					// the same with everything off
					for _, f := range flags {
						must("p." + f + " = false")
					}
					if err := do(twin); err != nil {
						return "with everything off: raises " + err.Error()
					}
					tt, ok := pack().GetTagset(key + "~")
					if !ok {
						return "with everything off: the file is not in the package"
					}
					b, e := tagmap(tt)
					if e != "" {
						return "with everything off: " + e
					}
					for j := range flags {
						if _, ok := b[tids[j]]; ok {
							return fmt.Sprintf("with everything off tag %d is added", tids[j])
						}
					}
					for _, f := range flags {
						must(fmt.Sprintf("p.%s = %v", f, on[f]))
					}
					want := b
					want[3] = key
					want[1] = g[1]
					if v, ok := g[6]; ok { // reading a file moves its access time
						want[6] = v
					}
					if num(g[2]) != uint64(len(data)) {
						return fmt.Sprintf("size tag is %d", num(g[2]))
					}
					for j, f := range flags {
						x := tids[j]
						if !on[f] {
							continue
						}
						if _, given := tags[x]; given {
							continue
						}
						v, ok := g[x]
						if !ok {
							return "tag of " + f + " is missing"
						}
						want[x] = v
						switch j {
						case 0:
							if num(v) <= last {
								return fmt.Sprintf("file number %d after %d", num(v), last)
							}
							last = num(v)
							if o, ok := fids[last]; ok {
								return fmt.Sprintf("file number %d is that of %q", last, o)
							}
							fids[last] = key
						case 1:
							if v == "" {
								return "empty media type"
							}
							le := strings.ToLower(ext)
							if w, ok := known[le]; ok && !strings.HasPrefix(v, w) {
								return fmt.Sprintf("media type of %q is %q", key, v)
							}
							if le == ".qqz" || le == "" || le == "." {
								if v != kinds[hd] && len(data) >= 300 {
									return fmt.Sprintf("media type by content is %q, must be %q", v, kinds[hd])
								}
							} else if _, ok := known[le]; ok {
								if o, ok := mimes[le]; ok && o != v {
									return fmt.Sprintf("media type of %q is %q and was %q", key, v, o)
								}
								mimes[le] = v
							}
						default:
							if w := checksum(x, secret, data); v != string(w) {
								return fmt.Sprintf("%s is %x, must be %x", f, v, w)
							}
						}
					}
					for x, v := range tags {
						want[x] = v
					}
					for x, w := range want {
						if v, ok := g[x]; !ok || v != w {
							return fmt.Sprintf("tag %d is %.100q (there: %v), must be %.100q", x, v, ok, w)
						}
					}
					for x, v := range g {
						if _, ok := want[x]; !ok {
							return fmt.Sprintf("tag %d (%.100q) appeared", x, v)
						}
					}
					return ""
				})
			}
			ls.Close()
			os.RemoveAll(dir)
		}
	})
}
