package c13

import (
	"fmt"
	"strings"
	"testing"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

func mapped(s string, f func(c byte) byte) string {
	b := []byte(s)
	for i, c := range b {
		b[i] = f(c)
	}
	return string(b)
}

func slash(c byte) byte {
	if c == '\\' {
		return '/'
	}
	return c
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

func upper(c byte) byte {
	if c >= 'a' && c <= 'z' {
		return c - 32
	}
	return c
}

func join(d, b string) string {
	if d == "" || d == "." {
		return b
	}
	if b == "" || b == "." {
		return d
	}
	return strings.TrimSuffix(d, "/") + "/" + strings.TrimPrefix(b, "/")
}

func pathName(s string) string {
	s = s[strings.LastIndexAny(s, "/\\")+1:]
	if i := strings.IndexByte(s, '.'); i >= 0 {
		s = s[:i]
	}
	return s
}

func chk(name, in, got, want string) string {
	if got != want {
		return fmt.Sprintf("%s(%q) is %q, want %q", name, in, got, want)
	}
	return ""
}

// unary helpers on s, held in memory that can be checked afterwards
func one(s string) string {
	for _, f := range []struct {
		n string
		f func(string) string
		w string
	}{
		{"ToSlash", util.ToSlash, mapped(s, slash)},
		{"ToLower", util.ToLower, mapped(s, lower)},
		{"ToUpper", util.ToUpper, mapped(s, upper)},
		{"ToKey", util.ToKey, mapped(mapped(s, lower), slash)},
		{"PathName", util.PathName, pathName(s)},
	} {
		buf := append([]byte("<"), s...)
		buf = append(buf, '>')
		in := util.B2S(buf[1 : len(buf)-1])
		got := f.f(in)
		if m := chk(f.n, s, got, f.w); m != "" {
			return m
		}
		if string(buf) != "<"+s+">" {
			return fmt.Sprintf("%s(%q) changes its argument to %q", f.n, s, buf)
		}
	}
	return ""
}

func two(d, b string) string {
	if m := chk("JoinPath("+d+")", b, util.JoinPath(d, b), join(d, b)); m != "" {
		return m
	}
	if m := chk("JoinFilePath("+d+")", b, util.JoinFilePath(d, b), join(d, b)); m != "" {
		return m
	}
	pkg := &wpk.Package{Workspace: d}
	if m := chk("FullPath in "+d, b, pkg.FullPath(b), join(d, b)); m != "" {
		return m
	}
	if !strings.HasSuffix(d, "/") && !strings.HasPrefix(b, "/") && b != "" {
		if m := chk("TrimPath in "+d+" of full", b, pkg.TrimPath(pkg.FullPath(b)), b); m != "" {
			return m
		}
	}
	// any full name
	want := ""
	switch {
	case d == "" || d == ".":
		want = b
	case b == d || b == d+"/":
		want = "."
	case strings.HasPrefix(b, d+"/"):
		want = b[len(d)+1:]
	}
	return chk("TrimPath in "+d, b, pkg.TrimPath(b), want)
}

func TestC13(t *testing.T) {
	vh.Run(t, "every string up to five characters over a small alphabet, every pair up to three, all single and double bytes, then random strings; non-trivial: separators, letters or dots present", func(h *vh.H) {
		abc := []byte("/\\.aZ")
		var all []string
		var gen func(p string, n int)
		gen = func(p string, n int) {
			all = append(all, p)
			if n > 0 {
				for _, c := range abc {
					gen(p+string(c), n-1)
				}
			}
		}
		gen("", 5)
		for _, s := range all {
			s := s
			h.Case(s != "", func() string { return fmt.Sprintf("%q", s) }, func() string { return one(s) })
		}
		for i := 0; i < 256; i++ {
			for j := 0; j < 256; j++ {
				s := string([]byte{byte(i), byte(j)})
				h.Case(false, func() string { return fmt.Sprintf("%q", s) }, func() string { return one(s) })
			}
		}
		all = nil
		gen("", 3)
		for _, d := range all {
			for _, b := range all {
				d, b := d, b
				h.Case(d != "" && b != "", func() string { return fmt.Sprintf("%q, %q", d, b) }, func() string {
					if m := two(d, b); m != "" {
						return m
					}
					if m := two(d, d+b); m != "" {
						return m
					}
					return two(d, d+"/"+b)
				})
			}
		}
		for h.Left() {
			r := func() string {
				b := h.Bytes(40)
				k := h.R.Intn(6)
				for i := range b {
					switch h.R.Intn(k + 1) {
					case 0:
						b[i] = "/\\."[h.R.Intn(3)]
					case 1:
						b[i] = byte(60 + h.R.Intn(70))
					case 2:
						b[i] = byte(h.R.Intn(256))
					}
				}
				return string(b)
			}
			s, d := r(), r()
			if h.R.Intn(10) == 0 {
				s = strings.Repeat(s, 1+h.R.Intn(300))
			}
			h.Case(true, func() string { return fmt.Sprintf("%q, %q", d, s) }, func() string {
				if m := one(s); m != "" {
					return m
				}
				if m := two(d, s); m != "" {
					return m
				}
				return two(d, d+"/"+s)
			})
		}
	})
}
