package c14

import (
	"fmt"
	"os"
	"regexp"
	"strings"
	"testing"

	"github.com/schwarzlichtbezirk/wpk/util"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

// a well-formed pattern, leftmost, its name as long as possible
var pat = regexp.MustCompile(`\$\{([A-Za-z_][A-Za-z0-9_]*)\}|%([A-Za-z_][A-Za-z0-9_]*)%|\$([A-Za-z_][A-Za-z0-9_]*)`)

func want(s string, m, env map[string]string) string {
	if !strings.ContainsAny(s, "$%") {
		return s
	}
	return pat.ReplaceAllStringFunc(s, func(p string) string {
		n := strings.Trim(p, "${}%")
		if v, ok := m[n]; ok {
			return v
		}
		if v, ok := env[n]; ok {
			return v
		}
		return p
	})
}

func TestC14(t *testing.T) {
	vh.Run(t, "all texts up to 6 characters of an alphabet of 8, with every character; random texts of patterns, pieces of patterns and other text up to 60 pieces, maps of up to 6 names (empty values, values with patterns) and environments; non-trivial: a pattern is expanded", func(h *vh.H) {
		names := []string{"A", "b", "_", "A1", "HOME_DIR", "a_b2", "zz9", "Path", "PATH_", "VAR", "Z"}
		for _, n := range names {
			old, had := os.LookupEnv(n)
			os.Unsetenv(n)
			if had {
				n := n
				defer os.Setenv(n, old)
			} else {
				n := n
				defer os.Unsetenv(n)
			}
		}
		values := []string{"", "x", "v1", "$A", "%b%", "${VAR}", "long/value with spaces/" + strings.Repeat("q", 40), "$", "%", "A", "}", "\\", "é"}
		one := func(s string, m, env map[string]string) bool {
			w := want(s, m, env)
			return h.Case(w != s, func() string { return fmt.Sprintf("Envfmt(%q, %q), environment %q", s, m, env) }, func() string {
				buf := append([]byte("<"), s...)
				in := string(append(buf, '>'))
				a := in[1 : 1+len(s)]
				got := util.Envfmt(a, m)
				if got != w {
					return fmt.Sprintf("Envfmt(%q, %q) is %q, want %q; environment %q", s, m, got, w, env)
				}
				if in != "<"+s+">" {
					return fmt.Sprintf("Envfmt(%q) changed its argument", s)
				}
				return ""
			})
		}
		setenv := func(env map[string]string) {
			for _, n := range names {
				if v, ok := env[n]; ok {
					os.Setenv(n, v)
				} else {
					os.Unsetenv(n)
				}
			}
		}
		// every character next to every kind of pattern
		if h.Round == 0 {
			m := map[string]string{"A": "value", "A1": "", "_": "$A"}
			setenv(map[string]string{"b": "from env", "A": "hidden"})
			for c := 0; c < 256; c++ {
				x := string([]byte{byte(c)})
				for _, p := range []string{"$A", "${A}", "%A%", "$b", "%b%", "${b}", "$_", "%A1%", "$Z", "${Z}", "%Z%"} {
					for _, f := range []string{x + p, p + x, p + x + p, p[:1] + x + p[1:], p[:len(p)-1] + x + p[len(p)-1:], p[:2] + x + p[2:], x + x + p, p + x + x} {
						one(f, m, map[string]string{"b": "from env", "A": "hidden"})
					}
				}
			}
		}
		h.Part(1, 2)
		alpha := []string{"$", "{", "}", "%", "A", "b", "1", "/"}
		m := map[string]string{"A": "xy", "AA": "", "Ab": "%A%"}
		env := map[string]string{"b": "e", "A": "no"}
		setenv(env)
		var gen func(s string, n int)
		gen = func(s string, n int) {
			if n == 0 {
				one(s, m, env)
				return
			}
			for _, a := range alpha {
				if !h.Left() {
					return
				}
				gen(s+a, n-1)
			}
		}
		for n := 0; n <= 6; n++ {
			gen("", n)
		}
		h.Part(2, 2)
		for h.Left() {
			env = map[string]string{}
			for i := h.R.Intn(4); i > 0; i-- {
				env[names[h.R.Intn(len(names))]] = values[h.R.Intn(len(values))]
			}
			setenv(env)
			for k := 0; k < 50 && h.Left(); k++ {
				var m map[string]string
				if h.R.Intn(4) > 0 {
					m = map[string]string{}
					for i := h.R.Intn(6); i > 0; i-- {
						m[names[h.R.Intn(len(names))]] = values[h.R.Intn(len(values))]
					}
				}
				s := ""
				n := h.R.Intn(8)
				if h.R.Intn(20) == 0 {
					n = h.R.Intn(60)
				}
				for ; n > 0; n-- {
					v := names[h.R.Intn(len(names))]
					switch h.R.Intn(12) {
					case 0, 1:
						s += "$" + v
					case 2, 3:
						s += "${" + v + "}"
					case 4, 5:
						s += "%" + v + "%"
					case 6:
						s += "${" + v
					case 7:
						s += "%" + v
					case 8:
						s += v
					case 9:
						s += []string{"$", "%", "{", "}", "${", "$$", "%%", "$%", "${}", "%$"}[h.R.Intn(10)]
					case 10:
						s += []string{"/", ".", " ", "1", "_", "-", "é", "\x00", "\xff", "[", "@", "`", ":"}[h.R.Intn(13)]
					case 11:
						s += strings.Repeat("path/", h.R.Intn(9))
					}
				}
				one(s, m, env)
			}
		}
	})
}
