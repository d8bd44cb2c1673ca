package vh

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"
)

// Op is one step of the life of a package.
type Op struct {
	Kind string // pack, file, rename, alias, del, tag, info, sync, reopen
	Key  string
	To   string
	Data []byte
	Fail int // writer operation (over both files) that fails in this step
	Part int
}

func (o Op) String() string {
	s := o.Kind
	switch o.Kind {
	case "pack", "file":
		s = fmt.Sprintf("%s %q %d bytes", o.Kind, o.Key, len(o.Data))
	case "rename", "alias":
		s = fmt.Sprintf("%s %q to %q", o.Kind, o.Key, o.To)
	case "del", "tag":
		s = fmt.Sprintf("%s %q", o.Kind, o.Key)
	case "info":
		s = fmt.Sprintf("info %s", Show(o.Data))
	}
	if o.Fail > 0 {
		s += fmt.Sprintf(" (writer operation %d fails after %d bytes)", o.Fail, o.Part)
	}
	return s
}

// Life is a package with the files it is written to and what they should hold.
type Life struct {
	Pkg    *wpk.Package
	T, W   *Mem // the same for a single-file package
	Split  bool
	Want   []Ent // table in order
	Info   []byte
	Bytes  map[string][]byte // content by name
	Synced bool              // nothing happened since the last Sync
	Syncs  int
	// as of the last Sync
	SWant  []Ent
	SInfo  []byte
	SBytes map[string][]byte
	Broken bool   // a write failed part way
	In     string // step being run
	R      *rand.Rand
	End    int64  // end of data when the last Sync started
	Sum    uint64 // bytes packed
}

func full(ws, k string) string {
	k = strings.ReplaceAll(k, "\\", "/")
	if ws == "" || ws == "." {
		return k
	}
	if k == "" {
		return ws
	}
	return ws + "/" + k
}

func (l *Life) at(k string) int {
	for i, e := range l.Want {
		if e.Key == full(l.Pkg.Workspace, k) {
			return i
		}
	}
	return -1
}

// NewLife makes a package that is not begun yet; on holds the content that was in the file before.
func NewLife(r *rand.Rand, ws string, split bool, on []byte) *Life {
	l := &Life{Split: split, R: r, Bytes: map[string][]byte{}}
	l.W = &Mem{D: append([]byte{}, on...)}
	l.T = l.W
	if split {
		l.T = &Mem{}
	}
	l.Pkg = wpk.NewPackage()
	l.Pkg.Workspace = ws
	return l
}

// Begin starts the package; alias passes the same writer twice for a single-file one.
func (l *Life) Begin(alias bool) error {
	l.In = "begin"
	if l.Split {
		return l.Pkg.Begin(l.T, l.W)
	}
	if alias {
		return l.Pkg.Begin(l.W, l.W)
	}
	return l.Pkg.Begin(l.W, nil)
}

// Do runs one step and keeps account of its effect. The message is not empty if the step gives a wrong result.
func (l *Life) Do(o Op) (err error, bad string) {
	l.In = o.Kind
	l.Synced = false
	l.W.Ops, l.T.Ops = 0, 0
	l.W.Fail, l.T.Fail, l.W.Part, l.T.Part = o.Fail, o.Fail, o.Part, o.Part
	defer func() { l.W.Fail, l.T.Fail = 0, 0 }()
	k := full(l.Pkg.Workspace, o.Key)
	i := l.at(o.Key)
	switch o.Kind {
	case "pack", "file":
		var ts wpk.TagsetRaw
		src := Source(l.R, o.Data, nil)
		p0, n0 := l.W.P, len(l.W.D)
		if o.Kind == "pack" {
			ts, err = l.Pkg.PackData(l.W, src, o.Key)
		} else {
			f := &File{N: "f", R: src, Size: int64(len(o.Data))}
			f.St.Mtim.Sec, f.St.Atim.Sec, f.St.Ctim.Sec = 1, 2, 3
			ts, err = l.Pkg.PackFile(l.W, f, o.Key)
		}
		if err != nil {
			if l.W.P != p0 || len(l.W.D) != n0 {
				l.Broken = true
			}
			return
		}
		if i >= 0 {
			return nil, fmt.Sprintf("%v succeeds though the name is taken", o)
		}
		l.Want = append(l.Want, Ent{k, append([]byte{}, ts...)})
		l.Bytes[k] = o.Data
		l.Sum += uint64(len(o.Data))
	case "rename", "alias":
		j := l.at(o.To)
		if o.Kind == "rename" {
			err = l.Pkg.Rename(o.Key, o.To)
		} else {
			err = l.Pkg.PutAlias(o.Key, o.To)
		}
		if (err == nil) != (i >= 0 && j < 0) {
			return nil, fmt.Sprintf("%v gives %v", o, err)
		}
		if err != nil {
			return
		}
		to := full(l.Pkg.Workspace, o.To)
		e := Ent{to, WithPath(l.Want[i].TS, to)}
		l.Bytes[to] = l.Bytes[k]
		if o.Kind == "rename" {
			l.Want = append(l.Want[:i:i], l.Want[i+1:]...)
			delete(l.Bytes, k)
		}
		l.Want = append(l.Want, e)
	case "del":
		_, ok := l.Pkg.DelTagset(o.Key)
		if ok != (i >= 0) {
			return nil, fmt.Sprintf("%v reports %v", o, ok)
		}
		if ok {
			l.Want = append(l.Want[:i:i], l.Want[i+1:]...)
			delete(l.Bytes, k)
		}
	case "tag":
		if i < 0 {
			return
		}
		ts, _ := l.Pkg.GetTagset(o.Key)
		ts = wpk.CopyTagset(ts).Set(42, wpk.TagRaw(o.Data))
		l.Pkg.SetTagset(o.Key, ts)
		l.Want = append([]Ent{}, l.Want...)
		l.Want[i].TS = append([]byte{}, ts...)
	case "info":
		l.Pkg.SetInfo(append([]byte{}, o.Data...))
		l.Info = append([]byte{}, o.Data...)
	case "sync":
		l.End = l.W.P
		if l.Split {
			err = l.Pkg.Sync(l.T, l.W)
		} else {
			err = l.Pkg.Sync(l.W, nil)
		}
		if err != nil {
			l.Broken = true
			return
		}
		l.Synced = true
		l.Syncs++
		l.SWant, l.SInfo = CloneEnts(l.Want), append([]byte{}, l.Info...)
		l.SBytes = map[string][]byte{}
		for k, v := range l.Bytes {
			l.SBytes[k] = v
		}
	case "reopen", "append":
		p := l.Pkg
		if o.Kind == "reopen" {
			p = wpk.NewPackage()
			p.Workspace = l.Pkg.Workspace
			if err = p.OpenStream(bytes.NewReader(append([]byte{}, l.T.D...))); err != nil {
				return nil, "reopening for appending: " + err.Error()
			}
			l.Pkg = p
		}
		if l.Split {
			err = p.Append(l.T, l.W)
		} else {
			err = p.Append(l.W, nil)
		}
		if err != nil {
			l.Broken = true
		}
	}
	return
}

// Complete tells what is wrong with the files as those of a finished package with the given content.
func (l *Life) Complete(t, w []byte, want []Ent, info []byte, data map[string][]byte) string {
	p := wpk.NewPackage()
	if err := p.OpenStream(bytes.NewReader(t)); err != nil {
		return "the package does not open: " + err.Error()
	}
	if !bytes.Equal(p.GetInfo(), info) {
		return fmt.Sprintf("package information is %s, want %s", Show(p.GetInfo()), Show(info))
	}
	if d := DiffTable(p.FTT, want); d != "" {
		return d
	}
	for _, e := range want {
		_, off, size, ok := EntOf(e.TS, 0, 1<<62)
		if !ok {
			return fmt.Sprintf("%q has tags %s", e.Key, Show(e.TS))
		}
		if off+size > uint64(len(w)) || !bytes.Equal(w[off:off+size], data[e.Key]) {
			return fmt.Sprintf("the bytes at %d+%d are not those packed as %q", off, size, e.Key)
		}
	}
	return ""
}

// Header compares the header with what is in the files after Sync.
func (l *Life) Header() string {
	t := l.T.D
	var v [5]uint64
	for i := range v {
		v[i] = binary.LittleEndian.Uint64(t[24+8*i:])
	}
	if string(t[:24]) != ReadySign {
		return fmt.Sprintf("the signature is %q", t[:24])
	}
	if v[0] != uint64(len(l.Want)) {
		return fmt.Sprintf("the header counts %d entries, there are %d", v[0], len(l.Want))
	}
	tab := EncTab(l.Info, l.Want)
	if v[2] != uint64(len(tab)) {
		return fmt.Sprintf("the header gives a table of %d bytes, it has %d", v[2], len(tab))
	}
	if v[1] > uint64(len(t)) || v[2] > uint64(len(t))-v[1] || !bytes.Equal(t[v[1]:v[1]+v[2]], tab) {
		return fmt.Sprintf("there is no table at the offset %d of the header", v[1])
	}
	dof, dsz := uint64(64), uint64(l.End-64)
	if l.Split {
		dof, dsz = 0, uint64(l.End)
	}
	if !l.Broken && dsz != l.Sum {
		return fmt.Sprintf("the data end at %d after %d bytes were packed", l.End, l.Sum)
	}
	if v[3] != dof {
		return fmt.Sprintf("the header gives the data offset %d, want %d", v[3], dof)
	}
	if v[4] != dsz {
		return fmt.Sprintf("the header gives %d bytes of data, there are %d", v[4], dsz)
	}
	if l.Pkg.DataSize() != uint(dsz) {
		return fmt.Sprintf("DataSize is %d, there are %d bytes of data", l.Pkg.DataSize(), dsz)
	}
	return ""
}

// Ops makes a random life. Between Sync and further packing a single-file package is appended.
func Ops(r *rand.Rand, n int, split bool, data func(int) []byte) (l []Op) {
	var names []string
	name := func() string {
		if len(names) > 0 && r.Intn(2) == 0 {
			return names[r.Intn(len(names))]
		}
		names = append(names, Name(r))
		return names[len(names)-1]
	}
	for i := 0; i < n; i++ {
		o := Op{Kind: []string{"pack", "pack", "pack", "file", "file", "rename", "alias", "del", "tag", "info", "sync", "sync"}[r.Intn(12)], Key: name()}
		switch o.Kind {
		case "pack", "file":
			o.Data = data(300)
			if r.Intn(40) == 0 {
				o.Data = bytes.Repeat([]byte("0123456789abcdef"), r.Intn(6000))
			}
		case "rename", "alias":
			o.To = name()
		case "tag":
			o.Data = data(12)
		case "info":
			o.Data = Enc(MoreTags(r))
		}
		l = append(l, o)
		if o.Kind == "sync" {
			if k := r.Intn(3); k < 2 || !split {
				l = append(l, Op{Kind: []string{"reopen", "append"}[k%2]})
			}
		}
	}
	return append(l, Op{Kind: "sync"})
}
