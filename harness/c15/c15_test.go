package c15

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"testing"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func eq(a, b []string) bool {
	return strings.Join(a, "\n") == strings.Join(b, "\n") && len(a) == len(b)
}

// view compares a file system with the names it should show and their bytes.
func view(h *vh.H, p *wpk.Package, rel []string, body func(string) []byte, root bool, depth int) string {
	r := h.R
	// enumeration, whole and stopped
	var got []string
	for stop := len(rel) + 1; ; stop = r.Intn(len(rel) + 1) {
		got = nil
		bad := ""
		p.Enum(func(k string, ts wpk.TagsetRaw) bool {
			got = append(got, k)
			if in(rel, k) && ts.Size() != int64(len(body(k))) {
				bad = fmt.Sprintf("Enum gives %q with tags %s", k, vh.Show(ts))
			}
			return len(got) != stop
		})
		if bad != "" {
			return bad
		}
		want := rel
		if stop > 0 && stop < len(rel) {
			want = rel[:stop]
		}
		if !eq(got, want) {
			return fmt.Sprintf("Enum stopped after %d gives %q, want %q", stop, got, want)
		}
		if stop <= len(rel) {
			break
		}
	}
	for i := 0; i < 6; i++ {
		q := vh.Ask(r, rel)
		s := vh.Spell(r, q)
		if q == wpk.PackName {
			continue
		}
		dir := len(vh.Children(rel, q)) > 0
		if in(rel, q) {
			if m := vh.ReadsAs(p, s, body(q)); m != "" {
				return m
			}
			fi, _ := p.Stat(s)
			if fi.Name() != path.Base(q) {
				return fmt.Sprintf("Stat(%q) gives name %q", s, fi.Name())
			}
			continue
		}
		if _, err := p.Stat(s); vh.Missing(err) != "" {
			return fmt.Sprintf("Stat(%q): %s", s, vh.Missing(err))
		}
		if b, err := p.ReadFile(s); vh.Missing(err) != "" {
			return fmt.Sprintf("ReadFile(%q) gives %d bytes: %s", s, len(b), vh.Missing(err))
		}
		f, err := p.Open(s)
		if !dir {
			if vh.Missing(err) != "" {
				return fmt.Sprintf("Open(%q): %s", s, vh.Missing(err))
			}
			continue
		}
		if err != nil {
			return fmt.Sprintf("Open(%q) of a directory: %v", s, err)
		}
		if fi, err := f.Stat(); err != nil || !fi.IsDir() || fi.Name() != path.Base(q) {
			return fmt.Sprintf("Open(%q) of a directory gives something that is not it (%v)", s, err)
		}
		f.Close()
	}
	for i := 0; i < 4; i++ {
		pat := vh.Globs(r, rel)
		var want []string
		_, bad := path.Match(pat, "")
		if bad == nil {
			for _, k := range rel {
				if ok, _ := path.Match(pat, k); ok {
					want = append(want, k)
				}
			}
		}
		got, err := p.Glob(pat)
		if (err != nil) != (bad != nil) || !eq(got, want) {
			return fmt.Sprintf("Glob(%q) gives %q, %v, want %q, %v", pat, got, err, want, bad)
		}
	}
	if root {
		f, err := p.Open(wpk.PackName)
		if err != nil {
			return fmt.Sprintf("Open(%q): %v", wpk.PackName, err)
		}
		io.Copy(io.Discard, f)
		f.Close()
	}
	for i := 0; i < 3; i++ {
		d := strings.TrimSuffix(vh.Ask(r, rel), "/")
		if r.Intn(6) == 0 {
			d = "."
		}
		sub, err := p.Sub(vh.Spell(r, d))
		want := vh.Rel(rel, d)
		if len(want) == 0 {
			if vh.Missing(err) != "" {
				return fmt.Sprintf("Sub(%q): %s", d, vh.Missing(err))
			}
			continue
		}
		if err != nil {
			return fmt.Sprintf("Sub(%q): %v", d, err)
		}
		sp, ok := sub.(*wpk.Package)
		if !ok {
			return fmt.Sprintf("Sub(%q) is a %T", d, sub)
		}
		k := want[r.Intn(len(want))]
		if m := vh.ReadsAs(sub, k, body(vh.Full(d, k))); m != "" {
			return fmt.Sprintf("in Sub(%q): %s", d, m)
		}
		if depth > 0 {
			if m := view(h, sp, want, func(k string) []byte { return body(vh.Full(d, k)) }, false, depth-1); m != "" {
				return fmt.Sprintf("in Sub(%q): %s", d, m)
			}
		}
	}
	return ""
}

func Test(t *testing.T) {
	vh.Run(t, "random packages of up to 20 files opened in one of three access modes; every name relative to a workspace is enumerated, opened, read, globbed and seen through sub-views, missing and near names, directories and deleted names too; non-trivial with at least two files", func(h *vh.H) {
		dir := h.Dir()
		for n := 0; h.Left(); n++ {
			f := vh.NewFP(h, dir, "p.wpk", vh.Names(h.R, h.R.Intn(20)), n%3)
			for i := 0; i < 6; i++ {
				ws := []string{".", ""}[h.R.Intn(2)]
				if ds := vh.Dirs(f.Keys); len(ds) > 0 && h.R.Intn(3) > 0 {
					ws = ds[h.R.Intn(len(ds))]
				} else if h.R.Intn(4) == 0 {
					ws = strings.TrimSuffix(vh.Ask(h.R, f.Keys), "/")
				}
				keys := append([]string{}, f.Keys...)
				rel := vh.Rel(f.Keys, ws)
				h.Case(len(keys) > 1, func() string { return fmt.Sprintf("package with files %q seen from workspace %q", keys, ws) }, func() string {
					return view(h, f.At(ws), rel, func(k string) []byte { return f.Body[vh.Full(ws, k)] }, ws == "." || ws == "", 1)
				})
				if len(f.Keys) > 0 && h.R.Intn(3) == 0 {
					f.Del(f.Keys[h.R.Intn(len(f.Keys))])
				}
			}
			// the package itself
			h.Case(len(f.Keys) > 1, func() string { return fmt.Sprintf("package file seen as %q", wpk.PackName) }, func() string {
				g, err := f.P.Open(wpk.PackName)
				if err != nil {
					return err.Error()
				}
				defer g.Close()
				b, err := io.ReadAll(g)
				if err != nil || !bytes.Equal(b, f.File[:f.Size]) {
					return fmt.Sprintf("reads %d bytes (%v), want the %d before the table", len(b), err, f.Size)
				}
				return ""
			})
			// an entry that does not lie in the file
			if len(f.Keys) > 0 {
				k := f.Keys[h.R.Intn(len(f.Keys))]
				off, size := h.U64(), h.U64()
				N := uint64(len(f.File))
				ok := off <= N && size <= N-off
				h.Case(!ok, func() string {
					return fmt.Sprintf("reading a file with extent %d+%d of a package file of %d bytes", off, size, N)
				}, func() string {
					f.P.SetTagset(k, vh.Entry(k, off, size))
					b, err := f.P.ReadFile(k)
					if (err == nil) != ok || ok && !bytes.Equal(b, f.File[off:off+size]) {
						return fmt.Sprintf("ReadFile gives %d bytes, %v", len(b), err)
					}
					g, err := f.P.Open(k)
					if err == nil {
						b, err = io.ReadAll(g)
						g.Close()
					}
					if (err == nil) != ok || ok && !bytes.Equal(b, f.File[off:off+size]) {
						return fmt.Sprintf("Open and read gives %d bytes, %v", len(b), err)
					}
					return ""
				})
			}
			f.Tgr.Close()
		}
	})
}

var _ fs.FS = (*wpk.Package)(nil)
