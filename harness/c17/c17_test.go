package c17

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"testing"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

// part is one package of a union with what it should show.
type part struct {
	names []string
	body  map[string][]byte
	ws    string
}

func eq(a, b []string) bool {
	return len(a) == len(b) && strings.Join(a, "\n") == strings.Join(b, "\n")
}

func isdir(names []string, d string) bool { return len(vh.Children(names, d)) > 0 }

func view(h *vh.H, u *wpk.Union, l []part, depth int) string {
	r := h.R
	var all []string
	own := map[string]int{}
	for i, p := range l {
		for _, n := range p.names {
			if _, ok := own[n]; !ok {
				own[n] = i
				all = append(all, n)
			}
		}
	}
	if got := u.AllKeys(); !eq(got, all) {
		return fmt.Sprintf("AllKeys gives %q, want %q", got, all)
	}
	body := func(n string) []byte { return l[own[n]].body[vh.Full(l[own[n]].ws, n)] }
	for i := 0; i < 6; i++ {
		q := vh.Ask(r, all)
		s := vh.Spell(r, q)
		if _, ok := own[q]; ok {
			if m := vh.ReadsAs(u, s, body(q)); m != "" {
				return fmt.Sprintf("%s (first held by package %d)", m, own[q])
			}
			fi, _ := u.Stat(s)
			if fi.Name() != path.Base(q) {
				return fmt.Sprintf("Stat(%q) gives name %q", s, fi.Name())
			}
			continue
		}
		if _, err := u.Stat(s); vh.Missing(err) != "" {
			return fmt.Sprintf("Stat(%q): %s", s, vh.Missing(err))
		}
		if b, err := u.ReadFile(s); vh.Missing(err) != "" {
			return fmt.Sprintf("ReadFile(%q) gives %d bytes: %s", s, len(b), vh.Missing(err))
		}
		f, err := u.Open(s)
		if !isdir(all, q) {
			if vh.Missing(err) != "" {
				return fmt.Sprintf("Open(%q): %s", s, vh.Missing(err))
			}
			continue
		}
		if err != nil {
			return fmt.Sprintf("Open(%q) of a directory: %v", s, err)
		}
		if fi, err := f.Stat(); err != nil || !fi.IsDir() || fi.Name() != path.Base(q) {
			return fmt.Sprintf("Open(%q) of a directory gives something that is not it (%v)", s, err)
		}
		f.Close()
	}
	for i := 0; i < 4; i++ {
		pat := vh.Globs(r, all)
		var want []string
		_, bad := path.Match(pat, "")
		if bad == nil {
			for _, k := range all {
				if ok, _ := path.Match(pat, k); ok {
					want = append(want, k)
				}
			}
		}
		got, err := u.Glob(vh.Spell(r, pat))
		if strings.ContainsRune(pat, '\\') {
			continue
		}
		if (err != nil) != (bad != nil) || !eq(got, want) {
			return fmt.Sprintf("Glob(%q) gives %q, %v, want %q, %v", pat, got, err, want, bad)
		}
	}
	for _, d := range append(vh.Dirs(all), ".") {
		if r.Intn(2) == 0 {
			continue
		}
		got, err := u.ReadDir(vh.Spell(r, d))
		want := vh.Children(all, d)
		if err != nil || len(got) != len(want) {
			return fmt.Sprintf("ReadDir(%q) gives %d entries (%v), want %v", d, len(got), err, want)
		}
		for i, c := range want {
			full := path.Join(d, c.Name)
			if got[i].Name() != c.Name || got[i].IsDir() != c.Dir {
				return fmt.Sprintf("ReadDir(%q)[%d] is %q (directory %v), want %v", d, i, got[i].Name(), got[i].IsDir(), c)
			}
			if fi, err := got[i].Info(); !c.Dir && (err != nil || fi.Size() != int64(len(body(full)))) {
				return fmt.Sprintf("ReadDir(%q) entry %q has not the size of the first package's file (%v)", d, c.Name, err)
			}
		}
	}
	for i := 0; i < 2; i++ {
		d := strings.TrimSuffix(vh.Ask(r, all), "/")
		sub, err := u.Sub(vh.Spell(r, d))
		var sl []part
		for _, p := range l {
			if isdir(p.names, d) {
				sl = append(sl, part{vh.Rel(p.names, d), p.body, vh.Full(p.ws, d)})
			}
		}
		if len(sl) == 0 {
			if vh.Missing(err) != "" {
				return fmt.Sprintf("Sub(%q): %s", d, vh.Missing(err))
			}
			continue
		}
		if err != nil {
			return fmt.Sprintf("Sub(%q): %v", d, err)
		}
		su, ok := sub.(*wpk.Union)
		if !ok {
			return fmt.Sprintf("Sub(%q) is a %T", d, sub)
		}
		if len(su.List) != len(sl) {
			return fmt.Sprintf("Sub(%q) has %d packages, want %d", d, len(su.List), len(sl))
		}
		if depth > 0 {
			if m := view(h, su, sl, depth-1); m != "" {
				return fmt.Sprintf("in Sub(%q): %s", d, m)
			}
		}
	}
	return ""
}

func Test(t *testing.T) {
	vh.Run(t, "unions of up to four packages of up to 12 files with common names, equal or different workspaces; every way to find, read, list, glob and enumerate against the first package that holds the name; non-trivial with at least two packages", func(h *vh.H) {
		dir := h.Dir()
		for n := 0; h.Left(); n++ {
			np := h.R.Intn(5)
			base := vh.Names(h.R, 12)
			wss := []string{".", "", "w", "a/b"}
			same := h.R.Intn(2) == 0
			ws0 := wss[h.R.Intn(4)]
			var fps []*vh.FP
			u := &wpk.Union{}
			var l []part
			var desc []string
			for i := 0; i < np; i++ {
				ws := ws0
				if !same {
					ws = wss[h.R.Intn(4)]
				}
				var names []string
				for _, j := range h.R.Perm(len(base)) {
					if h.R.Intn(2) == 0 {
						names = append(names, vh.Full(ws, base[j]))
					}
				}
				if ws != "." && ws != "" && h.R.Intn(2) == 0 {
					names = append(names, "other/x", ws+"x/y")
				}
				f := vh.NewFP(h, dir, fmt.Sprintf("p%d.wpk", i), names, h.R.Intn(3))
				fps = append(fps, f)
				u.List = append(u.List, f.At(ws))
				l = append(l, part{vh.Rel(f.Keys, ws), f.Body, ws})
				desc = append(desc, fmt.Sprintf("%q in workspace %q", names, ws))
			}
			h.Case(np > 1, func() string { return "union of packages with " + strings.Join(desc, "; ") }, func() string {
				return view(h, u, l, 1)
			})
			if np > 0 && (ws0 == "." || ws0 == "") && same {
				h.Case(np > 1, func() string { return "package files of a union" }, func() string {
					for i := range fps {
						g, err := u.Open(fmt.Sprintf("%s/%d", wpk.PackName, i))
						if err != nil {
							return err.Error()
						}
						b, err := io.ReadAll(g)
						g.Close()
						if err != nil || !bytes.Equal(b, fps[i].File[:fps[i].Size]) {
							return fmt.Sprintf("package file %d reads %d bytes (%v)", i, len(b), err)
						}
					}
					if _, err := u.Open(fmt.Sprintf("%s/%d", wpk.PackName, np)); err == nil {
						return "a package file that is not there opens"
					}
					return ""
				})
			}
			if err := u.Close(); err != nil {
				h.Case(true, func() string { return "closing a union" }, func() string { return err.Error() })
			}
		}
	})
}

var _ fs.FS = (*wpk.Union)(nil)
