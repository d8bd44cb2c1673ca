package vh

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"syscall"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
)

// File is an open file in memory with the given times.
type File struct {
	N       string
	R       io.Reader
	Size    int64
	St      syscall.Stat_t
	StatErr error
	Closed  int
}

type fileInfo struct{ f *File }

func (i fileInfo) Name() string       { return i.f.N }
func (i fileInfo) Size() int64        { return i.f.Size }
func (i fileInfo) Mode() fs.FileMode  { return 0o644 }
func (i fileInfo) ModTime() time.Time { return time.Unix(i.f.St.Mtim.Sec, i.f.St.Mtim.Nsec) }
func (i fileInfo) IsDir() bool        { return false }
func (i fileInfo) Sys() interface{}   { return &i.f.St }

func (f *File) Stat() (fs.FileInfo, error) {
	if f.StatErr != nil {
		return nil, f.StatErr
	}
	return fileInfo{f}, nil
}
func (f *File) Read(b []byte) (int, error) { return f.R.Read(b) }
func (f *File) Close() error               { f.Closed++; return nil }

// Source makes a reader over the data in one of several kinds, failing at the end if err is set.
func Source(r *rand.Rand, data []byte, err error) io.Reader {
	if err == nil && r.Intn(3) == 0 {
		return bytes.NewReader(data)
	}
	p := &Pieces{D: data, Last: r.Intn(2) == 0, Err: err}
	for i := r.Intn(4); i > 0; i-- {
		p.S = append(p.S, []int{0, 1, 2, 3, 7, 100, 512, 40000}[r.Intn(8)])
	}
	all0 := true
	for _, s := range p.S {
		all0 = all0 && s == 0
	}
	if all0 {
		p.S = nil
	}
	return p
}

// Table lists the entries of a table in order.
func Table(ftt *wpk.FTT) (l []Ent) {
	p := &wpk.Package{FTT: ftt, Workspace: "."}
	p.Enum(func(k string, ts wpk.TagsetRaw) bool {
		l = append(l, Ent{k, append([]byte{}, ts...)})
		return true
	})
	return
}

// DiffTable compares a table with the expected entries in order.
func DiffTable(ftt *wpk.FTT, want []Ent) string {
	got := Table(ftt)
	for i := 0; i < len(got) && i < len(want); i++ {
		if got[i].Key != want[i].Key {
			return fmt.Sprintf("entry %d is %q, want %q", i, got[i].Key, want[i].Key)
		}
		if !bytes.Equal(got[i].TS, want[i].TS) {
			return fmt.Sprintf("entry %q has tags %s, want %s", got[i].Key, Show(got[i].TS), Show(want[i].TS))
		}
	}
	if len(got) != len(want) || ftt.TagsetNum() != len(want) {
		return fmt.Sprintf("%d entries (%d reported), want %d", len(got), ftt.TagsetNum(), len(want))
	}
	p := &wpk.Package{FTT: ftt, Workspace: "."}
	for _, e := range want {
		if ts, ok := p.GetTagset(e.Key); !ok || !bytes.Equal(ts, e.TS) {
			return fmt.Sprintf("entry %q is listed but looked up with %v, %s", e.Key, ok, Show(ts))
		}
	}
	return ""
}
