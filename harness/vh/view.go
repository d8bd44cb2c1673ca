package vh

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/bulk"
	"github.com/schwarzlichtbezirk/wpk/fsys"
	"github.com/schwarzlichtbezirk/wpk/mmap"
)

// FP is an opened package with its model.
type FP struct {
	P    *wpk.Package
	Tgr  wpk.Tagger
	Keys []string
	Body map[string][]byte
	TS   map[string][]byte
	Size int // bytes before the table
	File []byte
}

var segs = []string{"a", "b", "c", "ab", "a.b", "b c", "é", "A", "aa", "d-e"}

// Names makes distinct file names of which none is a directory of another.
func Names(r *rand.Rand, n int) (l []string) {
	have, dirs := map[string]bool{}, map[string]bool{}
	k := 2 + r.Intn(len(segs)-1)
	for t := 0; t < 4*n && len(l) < n; t++ {
		var p []string
		for i := r.Intn(4); i >= 0; i-- {
			p = append(p, segs[r.Intn(k)])
		}
		s := strings.Join(p, "/")
		bad := have[s] || dirs[s]
		for i := 1; i < len(p); i++ {
			bad = bad || have[strings.Join(p[:i], "/")]
		}
		if bad {
			continue
		}
		have[s] = true
		for i := 1; i < len(p); i++ {
			dirs[strings.Join(p[:i], "/")] = true
		}
		l = append(l, s)
	}
	return
}

// NewFP builds a package with the names and opens it in one of the three modes.
func NewFP(h *H, dir, file string, names []string, mode int) *FP {
	f := &FP{Keys: append([]string{}, names...), Body: map[string][]byte{}, TS: map[string][]byte{}}
	var data []byte
	off := map[string]int{}
	for _, i := range h.R.Perm(len(names)) {
		b := make([]byte, []int{0, 1, 5, 40, 300}[h.R.Intn(5)])
		h.R.Read(b)
		for j := h.R.Intn(4); j > 0; j-- {
			data = append(data, byte(h.R.Intn(256)))
		}
		off[names[i]] = 64 + len(data)
		f.Body[names[i]] = b
		data = append(data, b...)
	}
	var l []Ent
	for _, n := range names {
		ts := Entry(n, uint64(off[n]), uint64(len(f.Body[n])), MoreTags(h.R)...)
		f.TS[n] = ts
		l = append(l, Ent{n, ts})
	}
	f.File = Pkg(data, nil, l)
	f.Size = 64 + len(data)
	p := h.Path(dir, file)
	if err := os.WriteFile(p, f.File, 0o600); err != nil {
		panic(err)
	}
	f.P = wpk.NewPackage()
	if err := f.P.OpenFile(p); err != nil {
		panic(fmt.Sprintf("opening a good package: %v", err))
	}
	var err error
	switch mode {
	case 0:
		f.Tgr, err = bulk.MakeTagger(p)
	case 1:
		f.Tgr, err = mmap.MakeTagger(p)
	default:
		f.Tgr, err = fsys.MakeTagger(p)
	}
	if err != nil {
		panic(err)
	}
	f.P.Tagger = f.Tgr
	return f
}

// At is the package seen from a workspace.
func (f *FP) At(ws string) *wpk.Package {
	return &wpk.Package{FTT: f.P.FTT, Tagger: f.Tgr, Workspace: ws}
}

// Del removes a name from the package and the model.
func (f *FP) Del(k string) {
	f.P.DelTagset(k)
	for i, s := range f.Keys {
		if s == k {
			f.Keys = append(f.Keys[:i:i], f.Keys[i+1:]...)
			break
		}
	}
}

// Full is the name under a workspace.
func Full(ws, k string) string { return full(ws, k) }

// Rel lists the names under a workspace in table order, without it.
func Rel(keys []string, ws string) (l []string) {
	pre := ""
	if ws != "" && ws != "." {
		pre = ws + "/"
	}
	for _, k := range keys {
		if strings.HasPrefix(k, pre) {
			l = append(l, k[len(pre):])
		}
	}
	return
}

// Dirs lists the directories of the names.
func Dirs(names []string) (l []string) {
	have := map[string]bool{}
	for _, n := range names {
		for d := path.Dir(n); d != "." && d != "/" && !have[d]; d = path.Dir(d) {
			have[d] = true
			l = append(l, d)
		}
	}
	sort.Strings(l)
	return
}

// Child is one line of a directory.
type Child struct {
	Name string
	Dir  bool
}

// Children lists what is directly in a directory ("" or "." for the root), sorted.
func Children(names []string, dir string) (l []Child) {
	pre := ""
	if dir != "" && dir != "." {
		pre = dir + "/"
	}
	have := map[string]bool{}
	for _, n := range names {
		if !strings.HasPrefix(n, pre) {
			continue
		}
		s := n[len(pre):]
		i := strings.IndexByte(s, '/')
		if i >= 0 {
			s = s[:i]
		}
		if !have[s] {
			have[s] = true
			l = append(l, Child{s, i >= 0})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name < l[j].Name })
	return
}

// Spell writes a name with some of its slashes turned.
func Spell(r *rand.Rand, s string) string {
	if r.Intn(3) > 0 {
		return s
	}
	b := []byte(s)
	for i := range b {
		if b[i] == '/' && r.Intn(2) == 0 {
			b[i] = '\\'
		}
	}
	return string(b)
}

// Ask picks a name to look for: a known one, a directory, a near miss.
func Ask(r *rand.Rand, names []string) string {
	var s string
	if len(names) > 0 {
		s = names[r.Intn(len(names))]
	}
	switch r.Intn(8) {
	case 0:
		if d := path.Dir(s); d != "." && s != "" {
			return d
		}
	case 1:
		if len(s) > 1 {
			return s[:len(s)-1]
		}
	case 2:
		return s + "x"
	case 3:
		return segs[r.Intn(len(segs))]
	case 4:
		return segs[r.Intn(len(segs))] + "/" + segs[r.Intn(len(segs))]
	}
	if s == "" {
		return "a"
	}
	return s
}

// Missing says what is wrong with an error that should say that there is no such name.
func Missing(err error) string {
	if err == nil {
		return "no error for a missing name"
	}
	if !errors.Is(err, fs.ErrNotExist) {
		return fmt.Sprintf("error %q for a missing name is not fs.ErrNotExist", err)
	}
	return ""
}

// ReadsAs opens, stats and reads a name that is there, in the ways a file system offers.
func ReadsAs(fsy fs.FS, name string, body []byte) string {
	fi, err := fs.Stat(fsy, name)
	if err != nil {
		return fmt.Sprintf("Stat(%q): %v", name, err)
	}
	if fi.Size() != int64(len(body)) || fi.IsDir() {
		return fmt.Sprintf("Stat(%q) gives size %d, directory %v, want %d bytes", name, fi.Size(), fi.IsDir(), len(body))
	}
	b, err := fs.ReadFile(fsy, name)
	if err != nil || !bytes.Equal(b, body) {
		return fmt.Sprintf("ReadFile(%q) gives %d bytes %.30q (%v), want %d %.30q", name, len(b), b, err, len(body), body)
	}
	f, err := fsy.Open(name)
	if err != nil {
		return fmt.Sprintf("Open(%q): %v", name, err)
	}
	defer f.Close()
	b, err = io.ReadAll(f)
	if err != nil || !bytes.Equal(b, body) {
		return fmt.Sprintf("Open(%q) reads %d bytes %.30q (%v), want %d %.30q", name, len(b), b, err, len(body), body)
	}
	if fi, err = f.Stat(); err != nil || fi.Size() != int64(len(body)) {
		return fmt.Sprintf("Open(%q).Stat: %v", name, err)
	}
	return ""
}

// Globs picks a pattern.
func Globs(r *rand.Rand, names []string) string {
	if r.Intn(8) == 0 {
		return []string{"[", "a[", "[]a", "a/[b", "[a-", "*[", "b[c-]"}[r.Intn(7)]
	}
	var s string
	if len(names) > 0 {
		s = names[r.Intn(len(names))]
	}
	p := strings.Split(s, "/")
	for i := range p {
		switch r.Intn(4) {
		case 0:
			p[i] = "*"
		case 1:
			if len(p[i]) > 0 && p[i][0] < 0x80 {
				p[i] = "?" + p[i][1:]
			}
		case 2:
			p[i] = []string{"[a-b]", "[^a]", "a*", "*b", "?*", "[A-Z]"}[r.Intn(6)]
		}
	}
	return strings.Join(p, "/")
}
