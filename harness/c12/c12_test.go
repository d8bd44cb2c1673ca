package c12

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"strings"
	"testing"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

// M is the model: entries by full name; moved ones are appended.
type M struct{ l []vh.Ent }

func (m *M) find(k string) int {
	for i, e := range m.l {
		if e.Key == k {
			return i
		}
	}
	return -1
}

func (m *M) del(i int) vh.Ent {
	e := m.l[i]
	m.l = append(m.l[:i:i], m.l[i+1:]...)
	return e
}

func full(ws, k string) string {
	k = strings.ReplaceAll(k, "\\", "/")
	if ws == "" || ws == "." {
		return k
	}
	if k == "" {
		return ws
	}
	return ws + "/" + k
}

// diff compares the table with the model: every entry, and the order of those in keep.
func diff(pkg *wpk.Package, m *M, moved map[string]bool) string {
	all := &wpk.Package{FTT: pkg.FTT, Workspace: "."}
	var got []vh.Ent
	all.Enum(func(k string, ts wpk.TagsetRaw) bool {
		got = append(got, vh.Ent{Key: k, TS: ts})
		return true
	})
	if len(got) != len(m.l) || all.TagsetNum() != len(m.l) {
		return fmt.Sprintf("%d entries (%d reported), want %d: %s", len(got), all.TagsetNum(), len(m.l), names(got))
	}
	var a, b []string
	for _, e := range got {
		i := m.find(e.Key)
		if i < 0 {
			return fmt.Sprintf("unexpected entry %q", e.Key)
		}
		if !bytes.Equal(e.TS, m.l[i].TS) {
			return fmt.Sprintf("entry %q has tags %s, want %s", e.Key, vh.Show(e.TS), vh.Show(m.l[i].TS))
		}
		if ts, ok := all.GetTagset(e.Key); !ok || !bytes.Equal(ts, e.TS) {
			return fmt.Sprintf("entry %q is enumerated but found: %v", e.Key, ok)
		}
		if !moved[e.Key] {
			a = append(a, e.Key)
		}
	}
	for _, e := range m.l {
		if !moved[e.Key] {
			b = append(b, e.Key)
		}
	}
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		return fmt.Sprintf("order of the other entries is %q, want %q", a, b)
	}
	return ""
}

func names(l []vh.Ent) string {
	var s []string
	for _, e := range l {
		s = append(s, e.Key)
	}
	return fmt.Sprintf("%q", s)
}

type op struct {
	kind    int
	a, b    string
	skip    bool
	prepare func()
}

func (o op) String() string {
	switch o.kind {
	case 0:
		return fmt.Sprintf("Rename(%q,%q)", o.a, o.b)
	case 1:
		return fmt.Sprintf("PutAlias(%q,%q)", o.a, o.b)
	case 2:
		return fmt.Sprintf("RenameDir(%q,%q,%v)", o.a, o.b, o.skip)
	}
	return fmt.Sprintf("DelTagset(%q)", o.a)
}

func run(pkg *wpk.Package, m *M, o op) string {
	ws := pkg.Workspace
	moved := map[string]bool{}
	var held []byte // a tag set handed out before
	var heldc []byte
	if ts, ok := pkg.GetTagset(o.a); ok {
		held, heldc = ts, append([]byte{}, ts...)
	}
	switch o.kind {
	case 0, 1:
		k1, k2 := full(ws, o.a), full(ws, o.b)
		i, j := m.find(k1), m.find(k2)
		var err error
		if o.kind == 0 {
			err = pkg.Rename(o.a, o.b)
		} else {
			err = pkg.PutAlias(o.a, o.b)
		}
		switch {
		case i < 0:
			if !errors.Is(err, fs.ErrNotExist) {
				return fmt.Sprintf("%v on a missing source gives %v", o, err)
			}
		case j >= 0:
			if !errors.Is(err, fs.ErrExist) {
				return fmt.Sprintf("%v on an existing target gives %v", o, err)
			}
		default:
			if err != nil {
				return fmt.Sprintf("%v fails: %v", o, err)
			}
			e := m.l[i]
			if o.kind == 0 {
				m.del(i)
			}
			m.l = append(m.l, vh.Ent{Key: k2, TS: vh.WithPath(e.TS, k2)})
			moved[k2] = true
		}
	case 2:
		od, nd := o.a, o.b
		if od != "" && !strings.HasSuffix(od, "/") {
			od += "/"
		}
		if nd != "" && !strings.HasSuffix(nd, "/") {
			nd += "/"
		}
		n, conflict := 0, false
		pre := od
		if ws != "" && ws != "." {
			pre = ws + "/" + od
		}
		for _, e := range vh.CloneEnts(m.l) {
			if !strings.HasPrefix(e.Key, pre) {
				continue
			}
			k2 := full(ws, nd+e.Key[len(pre):])
			if m.find(k2) >= 0 {
				conflict = true
				if !o.skip {
					break
				}
				continue
			}
			m.del(m.find(e.Key))
			m.l = append(m.l, vh.Ent{Key: k2, TS: vh.WithPath(e.TS, k2)})
			moved[k2] = true
			n++
		}
		c, err := pkg.RenameDir(o.a, o.b, o.skip)
		if c != n {
			return fmt.Sprintf("%v reports %d moved, want %d", o, c, n)
		}
		if conflict && !o.skip && !errors.Is(err, fs.ErrExist) || (!conflict || o.skip) && err != nil {
			return fmt.Sprintf("%v gives error %v, conflict %v", o, err, conflict)
		}
	case 3:
		i := m.find(full(ws, o.a))
		ts, ok := pkg.DelTagset(o.a)
		if ok != (i >= 0) {
			return fmt.Sprintf("%v reports %v", o, ok)
		}
		if i >= 0 {
			if e := m.del(i); !bytes.Equal(ts, e.TS) {
				return fmt.Sprintf("%v returns other tags than stored", o)
			}
		} else if len(ts) != 0 {
			return fmt.Sprintf("%v returns tags of a missing name", o)
		}
	}
	if !bytes.Equal(held, heldc) {
		return fmt.Sprintf("%v changes the tag set of %q given out before", o, o.a)
	}
	if s := diff(pkg, m, moved); s != "" {
		return fmt.Sprintf("after %v: %s", o, s)
	}
	return ""
}

// open makes a package with the entries, from memory (all tag sets in one buffer), from a stream, or by insertion.
func open(l []vh.Ent, way int) (*wpk.Package, error) {
	pkg := wpk.NewPackage()
	var hdr wpk.Header
	hdr.Parse(vh.Hdr(vh.ReadySign, [5]uint64{0, 0, 0, 64, 1 << 40}))
	switch way {
	case 0:
		return pkg, pkg.OpenStream(bytes.NewReader(vh.Pkg(make([]byte, 4096), nil, l)))
	case 1:
		pkg.Init(&hdr)
		_, err := pkg.ReadFrom(bytes.NewReader(vh.EncTab(nil, l)))
		return pkg, err
	}
	pkg.Init(&hdr)
	for _, e := range l {
		ts := append(make([]byte, 0, len(e.TS)+64), e.TS...) // with room behind
		pkg.SetTagset(e.Key, ts)
	}
	return pkg, nil
}

func sequence(h *vh.H, l []vh.Ent, way int, ws string, ops []op) {
	h.Case(len(ops) > 1 || len(l) > 2, func() string {
		return fmt.Sprintf("table %s made by way %d, workspace %q, operations %v", names(l), way, ws, ops)
	}, func() string {
		pkg, err := open(vh.CloneEnts(l), way)
		if err != nil {
			return "opening: " + err.Error()
		}
		pkg.Workspace = ws
		m := &M{vh.CloneEnts(l)}
		for _, o := range ops {
			if s := run(pkg, m, o); s != "" {
				return s
			}
		}
		// the result is still a table that can be written and read
		var w bytes.Buffer
		if _, err := pkg.WriteTo(&w); err != nil {
			return "writing the result: " + err.Error()
		}
		return ""
	})
}

func TestC12(t *testing.T) {
	vh.Run(t, "all pairs of operations over small tables with nested, prefix-sharing and missing names, in the root and in a workspace, tables parsed, read and inserted; random longer sequences; non-trivial: more than one operation or more than two entries", func(h *vh.H) {
		e := func(k string, n int) vh.Ent {
			return vh.Ent{Key: k, TS: vh.Entry(k, 64+uint64(n), uint64(n), vh.KV{T: 10, V: []byte("type")}, vh.KV{T: uint16(100 + n), V: []byte{1, 2}})}
		}
		base := []vh.Ent{e("a/x", 1), e("a/b/x", 2), e("ab/x", 3), e("x", 4), e("a/b/y", 5), e("b/x", 6), e("a", 7), e("w/a/x", 8), e("w/x", 9), e("wa/x", 10), e("w/ab", 11)}
		ns := []string{"a/x", "a/b/x", "x", "b/x", "a\\b\\y", "nope", "c", "a/longer/name/of/file", "a", "ab", "q/x", "z\\y", ""}
		dirs := []string{"a", "a/", "a/b", "b", "ab", "", "x", "c", "c/d/", "nope", "a/b/", "A", "w"}
		var ops []op
		for _, a := range ns {
			for _, b := range ns {
				if b != "" && a != "" {
					ops = append(ops, op{kind: 0, a: a, b: b}, op{kind: 1, a: a, b: b})
				}
			}
			ops = append(ops, op{kind: 3, a: a})
		}
		for _, a := range dirs {
			for _, b := range dirs {
				ops = append(ops, op{kind: 2, a: a, b: b}, op{kind: 2, a: a, b: b, skip: true})
			}
		}
		for _, ws := range []string{".", "", "w", "a"} {
			for way := 0; way < 3; way++ {
				for _, o := range ops {
					sequence(h, base, way, ws, []op{o})
					sequence(h, base[:3], way, ws, []op{o})
				}
			}
		}
		name := func() string { return vh.Name(h.R) }
		for h.Left() {
			ws := []string{".", "", "dir", "a", "a/b"}[h.R.Intn(5)]
			var l []vh.Ent
			has := map[string]bool{}
			for i := h.R.Intn(14); i > 0; i-- {
				k := name()
				if h.R.Intn(2) == 0 {
					k = full(ws, k)
				}
				if !has[k] {
					has[k] = true
					l = append(l, vh.Ent{Key: k, TS: vh.Entry(k, 64+uint64(i), uint64(i), vh.MoreTags(h.R)...)})
				}
			}
			pick := func() string {
				if len(l) == 0 || h.R.Intn(3) == 0 {
					return name()
				}
				k := l[h.R.Intn(len(l))].Key
				if ws != "" && ws != "." {
					k = strings.TrimPrefix(k, ws+"/")
				}
				if h.R.Intn(4) == 0 {
					k = strings.ReplaceAll(k, "/", "\\")
				}
				return k
			}
			dir := func() string {
				k := strings.ReplaceAll(pick(), "\\", "/")
				if i := strings.LastIndexByte(k, '/'); i >= 0 && h.R.Intn(4) > 0 {
					k = k[:i+h.R.Intn(2)]
				}
				return k
			}
			var ops []op
			for i := 1 + h.R.Intn(8); i > 0; i-- {
				o := op{kind: h.R.Intn(4), skip: h.R.Intn(2) == 0}
				if o.kind == 2 {
					o.a, o.b = dir(), dir()
				} else {
					o.a, o.b = pick(), pick()
				}
				ops = append(ops, o)
			}
			sequence(h, l, h.R.Intn(3), ws, ops)
		}
	})
}
