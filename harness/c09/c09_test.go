package c09

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"testing"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

type step struct {
	file    bool // PackFile
	key     string
	data    []byte
	srcErr  bool // the source fails after its data
	statErr bool
	fail    int // writer operation that fails, counted from the start of the step
	part    int
	tags    bool // tags are added to the entry afterwards
}

func (s step) String() string {
	n := "PackData"
	if s.file {
		n = "PackFile"
	}
	r := fmt.Sprintf("%s(%q, %d bytes)", n, s.key, len(s.data))
	if s.srcErr {
		r += " with a failing source"
	}
	if s.statErr {
		r += " with failing Stat"
	}
	if s.fail > 0 {
		r += fmt.Sprintf(" with writer operation %d failing after %d bytes", s.fail, s.part)
	}
	return r
}

func full(ws, k string) string {
	k = strings.ReplaceAll(k, "\\", "/")
	if ws == "" || ws == "." {
		return k
	}
	if k == "" {
		return ws
	}
	return ws + "/" + k
}

func run(h *vh.H, ws string, split bool, steps []step) {
	h.Case(len(steps) > 1, func() string {
		return fmt.Sprintf("workspace %q, separate data file %v, %v", ws, split, steps)
	}, func() string {
		w, t := &vh.Mem{}, &vh.Mem{}
		pkg := wpk.NewPackage()
		pkg.Workspace = ws
		var err error
		if split {
			err = pkg.Begin(t, w)
		} else {
			err = pkg.Begin(w, nil)
		}
		if err != nil {
			return "Begin: " + err.Error()
		}
		var want []vh.Ent
		type ext struct {
			off, size uint64
			data      []byte
		}
		var exts []ext
		clean := true // no partial write so far
		for _, s := range steps {
			k := full(ws, s.key)
			known := false
			for _, e := range want {
				known = known || e.Key == k
			}
			var serr error
			if s.srcErr {
				serr = vh.ErrInjected
			}
			src := vh.Source(h.R, s.data, serr)
			before := append([]byte{}, w.D...)
			p0, ds := w.P, pkg.DataSize()
			w.Ops, w.Fail, w.Part = 0, s.fail, s.part
			var ts wpk.TagsetRaw
			var tset []byte
			if s.file {
				f := &vh.File{N: "f", R: src, Size: int64(len(s.data))}
				f.St.Mtim.Sec, f.St.Atim.Sec, f.St.Ctim.Sec = 1, 2, 3
				if s.statErr {
					f.StatErr = vh.ErrInjected
				}
				ts, err = pkg.PackFile(w, f, s.key)
			} else {
				ts, err = pkg.PackData(w, src, s.key)
			}
			hit := w.Fail > 0 && w.Ops >= w.Fail
			w.Fail = 0
			must := known || s.srcErr || hit || s.file && s.statErr
			if must {
				if err == nil {
					return fmt.Sprintf("%v succeeds", s)
				}
				if known && !(s.file && s.statErr) {
					if !errors.Is(err, fs.ErrExist) {
						return fmt.Sprintf("%v under a known name gives %v", s, err)
					}
				}
				if known && (!bytes.Equal(before, w.D) || p0 != w.P) {
					return fmt.Sprintf("%v under a known name writes", s)
				}
				if d := vh.DiffTable(pkg.FTT, want); d != "" {
					return fmt.Sprintf("after failed %v: %s", s, d)
				}
				if pkg.DataSize() != ds {
					return fmt.Sprintf("after failed %v the data size is %d, want %d", s, pkg.DataSize(), ds)
				}
				if !bytes.Equal(before, w.D) || p0 != w.P {
					clean = false
				}
			} else {
				if err != nil {
					return fmt.Sprintf("%v: %v", s, err)
				}
				l, ok := vh.Dec(ts)
				name, off, size, ok2 := vh.EntOf(ts, 0, 1<<62)
				if !ok || !ok2 || name != k {
					return fmt.Sprintf("%v returns tags %s", s, vh.Show(ts))
				}
				if strings.Contains(string(l[vh.Find(l, 3)].V), "\\") {
					return fmt.Sprintf("%v records the name %q", s, l[vh.Find(l, 3)].V)
				}
				if size != uint64(len(s.data)) {
					return fmt.Sprintf("%v records the size %d", s, size)
				}
				if clean && off != uint64(p0) {
					return fmt.Sprintf("%v records the offset %d, the end of data was at %d", s, off, p0)
				}
				if clean && (len(w.D) != len(before)+len(s.data) || w.P != p0+int64(len(s.data))) {
					return fmt.Sprintf("%v: the data file has %d bytes at position %d after %d at %d", s, len(w.D), w.P, len(before), p0)
				}
				n := 3
				if s.file {
					n = 6
				}
				if len(l) != n || vh.Find(l, 1) < 0 || vh.Find(l, 2) < 0 {
					return fmt.Sprintf("%v records the tags %s", s, vh.Show(ts))
				}
				if pkg.DataSize() != ds+uint(len(s.data)) {
					return fmt.Sprintf("after %v the data size is %d, was %d", s, pkg.DataSize(), ds)
				}
				tset = append([]byte{}, ts...)
				want = append(want, vh.Ent{Key: k, TS: tset})
				exts = append(exts, ext{off, size, s.data})
				if s.tags {
					ts = ts.Put(10, wpk.StrTag("added later"))
					pkg.SetTagset(s.key, ts)
					want[len(want)-1].TS = append([]byte{}, ts...)
				}
			}
			if d := vh.DiffTable(pkg.FTT, want); d != "" {
				return fmt.Sprintf("after %v: %s", s, d)
			}
			for i, e := range exts {
				if e.off+e.size > uint64(len(w.D)) || !bytes.Equal(w.D[e.off:e.off+e.size], e.data) {
					return fmt.Sprintf("after %v the bytes of %q are no longer at %d+%d", s, want[i].Key, e.off, e.size)
				}
				if !split && e.off < 64 {
					return fmt.Sprintf("%q lies in the header", want[i].Key)
				}
			}
			if !split && len(w.D) >= 64 && !bytes.Equal(w.D[:64], before[:64]) {
				return fmt.Sprintf("%v changes the header", s)
			}
		}
		return ""
	})
}

// far is a stream at any position that keeps no bytes.
type far struct{ pos int64 }

func (w *far) Write(b []byte) (int, error) { w.pos += int64(len(b)); return len(b), nil }

func (w *far) Seek(o int64, wh int) (int64, error) {
	switch wh {
	case io.SeekStart:
		w.pos = o
	case io.SeekCurrent:
		w.pos += o
	}
	return w.pos, nil
}

type zero struct{}

func (zero) Read(b []byte) (int, error) { return len(b), nil }

// huge packs n bytes at the position pos.
func huge(h *vh.H, pos, n int64) {
	h.Case(true, func() string { return fmt.Sprintf("packing of %d bytes at %d", n, pos) }, func() string {
		pkg := wpk.NewPackage()
		w := &far{pos: pos}
		d := pkg.DataSize()
		ts, err := pkg.PackData(w, io.LimitReader(zero{}, n), "a")
		if err != nil {
			return err.Error()
		}
		got, ok := pkg.GetTagset("a")
		if o, s := ts.Pos(); o != uint(pos) || s != uint(n) || !ok || !bytes.Equal(got, ts) {
			return fmt.Sprintf("recorded extent %d+%d, tags %s", o, s, vh.Show(got))
		}
		if w.pos != pos+n || pkg.DataSize() != d+uint(n) {
			return fmt.Sprintf("stream at %d, data size grows by %d", w.pos, pkg.DataSize()-d)
		}
		return ""
	})
}

func TestC09(t *testing.T) {
	vh.Run(t, "sequences of up to 12 packings into single-file and split packages, in the root and in workspaces, names repeated in several spellings, sources delivering pieces, sources, Stat and the destination failing at any operation; every single failure point for short contents exhaustively; streams at positions about every power of two, a file of 2^32+3 bytes; non-trivial: more than one packing", func(h *vh.H) {
		big := bytes.Repeat([]byte("0123456789abcdef"), 5000)
		for _, ws := range []string{".", "", "w", "a/b"} {
			for _, split := range []bool{false, true} {
				for fail := 0; fail < 6; fail++ {
					for _, n := range []int{0, 1, 7, 300, 70000} {
						for _, part := range []int{0, 1, 5, 40000} {
							for v := 0; v < 8; v++ {
								s := step{file: v&1 > 0, key: "dir/b.txt", data: big[:n], srcErr: v&2 > 0, fail: fail, part: part, statErr: v&4 > 0 && v&1 > 0}
								first := step{key: "dir/a.txt", data: []byte("first")}
								run(h, ws, split, []step{first, s, {key: "dir\\a.txt", data: []byte("again")}, {key: "dir\\b.txt", data: []byte("second"), file: v&1 == 0}, {key: "c", data: []byte("third")}})
							}
						}
					}
				}
			}
		}
		for i := uint(0); i < 63; i++ {
			for _, d := range []int64{-1, 0, 1} {
				huge(h, 1<<i+d, 5)
				if i < 24 {
					huge(h, 64, 1<<i+d)
				}
			}
		}
		huge(h, 64, 1<<32+3)
		for h.Left() {
			ws := []string{".", "", "w", "a/b"}[h.R.Intn(4)]
			var l []step
			for i := 1 + h.R.Intn(12); i > 0; i-- {
				s := step{file: h.R.Intn(2) == 0, key: vh.Name(h.R), data: h.Bytes(300), srcErr: h.R.Intn(6) == 0, statErr: h.R.Intn(8) == 0, tags: h.R.Intn(3) == 0}
				if h.R.Intn(30) == 0 {
					s.data = big[:h.R.Intn(len(big))]
				}
				if len(l) > 0 && h.R.Intn(3) == 0 {
					s.key = l[h.R.Intn(len(l))].key
				}
				if h.R.Intn(4) == 0 {
					s.key = strings.ReplaceAll(s.key, "/", "\\")
				}
				if h.R.Intn(5) == 0 {
					s.fail, s.part = 1+h.R.Intn(4), h.R.Intn(300)
				}
				l = append(l, s)
			}
			run(h, ws, h.R.Intn(2) == 0, l)
		}
	})
}
