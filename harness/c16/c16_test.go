package c16

import (
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"testing"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

// check compares a listing asked for at most n entries with what is in the directory.
func check(what string, got []fs.DirEntry, err error, want []vh.Child, n int, size func(string) int) string {
	show := func() string {
		var s []string
		for _, e := range got {
			s = append(s, e.Name())
		}
		return fmt.Sprintf("%s gives %q, %v; there are %v", what, s, err, want)
	}
	exp := len(want)
	if n > 0 && n < exp {
		exp = n
	}
	if len(got) != exp {
		return show() + fmt.Sprintf(": want %d entries", exp)
	}
	if n > len(want) {
		if err != io.EOF {
			return show() + ": want end of directory"
		}
	} else if err != nil {
		return show() + ": want no error"
	}
	have := map[string]vh.Child{}
	for _, c := range want {
		have[c.Name] = c
	}
	for i, e := range got {
		c, ok := have[e.Name()]
		if !ok {
			return show() + fmt.Sprintf(": %q is not there", e.Name())
		}
		if e.IsDir() != c.Dir || e.Type().IsDir() != c.Dir {
			return show() + fmt.Sprintf(": %q is a directory: %v", e.Name(), e.IsDir())
		}
		if fi, err := e.Info(); err != nil || fi.Name() != c.Name || fi.IsDir() != c.Dir || !c.Dir && fi.Size() != int64(size(c.Name)) {
			return show() + fmt.Sprintf(": wrong info of %q (%v)", c.Name, err)
		}
		if i > 0 && got[i-1].Name() >= e.Name() {
			return show() + ": not sorted or twice"
		}
	}
	return ""
}

func limit(h *vh.H, want []vh.Child) int {
	return []int{-1, -5, 0, 1, 2, len(want) - 1, len(want), len(want) + 1, len(want) + 7}[h.R.Intn(9)]
}

func Test(t *testing.T) {
	vh.Run(t, "packages of up to 25 files and unions of up to three of them in one workspace; every directory listed whole and limited, by name and by opening it; non-trivial with at least two entries", func(h *vh.H) {
		dir := h.Dir()
		for n := 0; h.Left(); n++ {
			base := vh.Names(h.R, h.R.Intn(25))
			ws := []string{".", "", "w", "w/a b"}[h.R.Intn(4)]
			np := 1 + h.R.Intn(3)
			u := &wpk.Union{}
			var all []string
			own := map[string]*vh.FP{}
			var desc []string
			var fps []*vh.FP
			for i := 0; i < np; i++ {
				var names []string
				for _, j := range h.R.Perm(len(base)) {
					if np == 1 || h.R.Intn(2) == 0 {
						names = append(names, vh.Full(ws, base[j]))
					}
				}
				if ws == "w" {
					names = append(names, "wx/y")
				}
				f := vh.NewFP(h, dir, fmt.Sprintf("p%d.wpk", i), names, h.R.Intn(3))
				fps = append(fps, f)
				u.List = append(u.List, f.At(ws))
				desc = append(desc, fmt.Sprintf("%q", names))
				for _, k := range vh.Rel(f.Keys, ws) {
					if own[k] == nil {
						own[k] = f
						all = append(all, k)
					}
				}
				pd := vh.Rel(f.Keys, ws)
				for _, d := range append(vh.Dirs(pd), ".") {
					want := vh.Children(pd, d)
					if len(want) == 0 {
						continue
					}
					m := limit(h, want)
					full := vh.Full(ws, d)
					if d == "." {
						full = ws
					}
					size := func(c string) int { return len(f.Body[vh.Full(ws, path.Join(d, c))]) }
					h.Case(len(want) > 1, func() string {
						return fmt.Sprintf("package with %q, directory %q, limit %d", names, full, m)
					}, func() string {
						got, err := f.P.ReadDirN(vh.Spell(h.R, full), m)
						if s := check(fmt.Sprintf("ReadDirN(%d)", m), got, err, want, m, size); s != "" {
							return s
						}
						p := f.At(ws)
						got, err = p.ReadDir(vh.Spell(h.R, d))
						if s := check("ReadDir", got, err, want, -1, size); s != "" {
							return s
						}
						g, err := p.Open(vh.Spell(h.R, d))
						if err != nil {
							return err.Error()
						}
						rd, ok := g.(fs.ReadDirFile)
						if !ok {
							return fmt.Sprintf("an opened directory is a %T", g)
						}
						got, err = rd.ReadDir(m)
						return check(fmt.Sprintf("opened directory, ReadDir(%d)", m), got, err, want, m, size)
					})
				}
			}
			for _, d := range append(vh.Dirs(all), ".") {
				want := vh.Children(all, d)
				if len(want) == 0 {
					continue
				}
				m := limit(h, want)
				size := func(c string) int { k := path.Join(d, c); return len(own[k].Body[vh.Full(ws, k)]) }
				h.Case(len(want) > 1, func() string {
					return fmt.Sprintf("union of %s in workspace %q, directory %q, limit %d", strings.Join(desc, "; "), ws, d, m)
				}, func() string {
					got, err := u.ReadDirN(vh.Spell(h.R, d), m)
					if s := check(fmt.Sprintf("ReadDirN(%d)", m), got, err, want, m, size); s != "" {
						return s
					}
					got, err = u.ReadDir(vh.Spell(h.R, d))
					if s := check("ReadDir", got, err, want, -1, size); s != "" {
						return s
					}
					g, err := u.Open(vh.Spell(h.R, d))
					if err != nil {
						return err.Error()
					}
					rd, ok := g.(fs.ReadDirFile)
					if !ok {
						return fmt.Sprintf("an opened directory is a %T", g)
					}
					got, err = rd.ReadDir(m)
					return check(fmt.Sprintf("opened directory, ReadDir(%d)", m), got, err, want, m, size)
				})
			}
			for _, f := range fps {
				f.Tgr.Close()
			}
		}
	})
}
