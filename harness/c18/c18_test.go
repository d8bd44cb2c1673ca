package c18

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"testing"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/bulk"
	"github.com/schwarzlichtbezirk/wpk/fsys"
	"github.com/schwarzlichtbezirk/wpk/mmap"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

var modes = []struct {
	name string
	mk   func(string) (wpk.Tagger, error)
}{{"bulk", bulk.MakeTagger}, {"mmap", mmap.MakeTagger}, {"fsys", fsys.MakeTagger}}

// walk compares a stored file with its bytes under a sequence of reads, positioned reads and seeks.
func walk(h *vh.H, f wpk.RFile, want []byte, steps int, rewind bool) string {
	ref := bytes.NewReader(want)
	if rewind {
		if p, err := f.Seek(0, io.SeekStart); p != 0 || err != nil {
			return fmt.Sprintf("rewinding gives %d, %v", p, err)
		}
	}
	pos := func() string {
		a, err := f.Seek(0, io.SeekCurrent)
		b, _ := ref.Seek(0, io.SeekCurrent)
		if err != nil || a != b {
			return fmt.Sprintf("position %d (%v), want %d", a, err, b)
		}
		return ""
	}
	for i := 0; i < steps; i++ {
		n := h.R.Intn(len(want) + 8)
		if h.R.Intn(2) == 0 {
			n = h.R.Intn(9)
		}
		switch h.R.Intn(4) {
		case 0, 1: // sequential
			b := make([]byte, n)
			k, err := f.Read(b)
			at, _ := ref.Seek(0, io.SeekCurrent)
			rest := want[min(int(at), len(want)):]
			if k < 0 || k > n || !bytes.HasPrefix(rest, b[:k]) {
				return fmt.Sprintf("read of %d at %d gives %d bytes %.40q, want %.40q", n, at, k, b[:max(0, min(k, n))], rest)
			}
			if n > 0 && k == 0 && len(rest) > 0 {
				return fmt.Sprintf("read of %d at %d of %d gives nothing: %v", n, at, len(want), err)
			}
			if n > 0 && len(rest) == 0 && err != io.EOF {
				return fmt.Sprintf("read at the end (%d of %d) gives %v, want EOF", at, len(want), err)
			}
			if err != nil && (err != io.EOF || k < len(rest)) {
				return fmt.Sprintf("read of %d at %d of %d: %d, %v", n, at, len(want), k, err)
			}
			ref.Seek(int64(k), io.SeekCurrent)
		case 2: // positioned
			at := h.R.Intn(len(want) + 4)
			b, c := make([]byte, n), make([]byte, n)
			k, err := f.ReadAt(b, int64(at))
			wk, werr := ref.ReadAt(c, int64(at))
			if k != wk || !bytes.Equal(b[:k], c[:k]) {
				return fmt.Sprintf("ReadAt(%d, %d) of %d gives %d bytes %.40q (%v), want %d %.40q", n, at, len(want), k, b[:k], err, wk, c[:wk])
			}
			if (err == nil) != (werr == nil) && !(k == n && err == io.EOF) && n > 0 {
				return fmt.Sprintf("ReadAt(%d, %d) of %d gives %v, want %v", n, at, len(want), err, werr)
			}
		case 3:
			wh := h.R.Intn(3)
			var off int64
			cur, _ := ref.Seek(0, io.SeekCurrent)
			to := int64(h.R.Intn(len(want) + 3))
			switch wh {
			case 0:
				off = to
			case 1:
				off = to - cur
			case 2:
				off = to - int64(len(want))
			}
			p, err := f.Seek(off, wh)
			if err != nil || p != to {
				return fmt.Sprintf("Seek(%d, %d) gives %d, %v, want %d", off, wh, p, err, to)
			}
			ref.Seek(to, io.SeekStart)
		}
		if s := pos(); s != "" {
			return s
		}
	}
	if _, err := f.Seek(0, io.SeekStart); err != nil {
		return "rewinding: " + err.Error()
	}
	got, err := io.ReadAll(f)
	if err != nil || !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		return fmt.Sprintf("whole content has %d bytes (%v), want %d, first difference at %d", len(got), err, len(want), i)
	}
	return ""
}

type files struct {
	path string
	data []byte
	tg   []wpk.Tagger
}

func mk(h *vh.H, dir string, n int) *files {
	f := &files{path: h.Path(dir, fmt.Sprintf("data%d.wpf", n)), data: make([]byte, n)}
	h.R.Read(f.data)
	if err := os.WriteFile(f.path, f.data, 0o600); err != nil {
		panic(err)
	}
	for _, m := range modes {
		t, err := m.mk(f.path)
		if err != nil {
			panic(err)
		}
		f.tg = append(f.tg, t)
	}
	return f
}

// one opens one extent in one mode, directly and by name.
func one(h *vh.H, f *files, m int, ts []byte, off, size uint64, steps int, byname bool) {
	n := uint64(len(f.data))
	in := off <= n && size <= n-off
	h.Case(in, func() string {
		return fmt.Sprintf("%s access to extent %d+%d of a data file of %d bytes, tags %s", modes[m].name, off, size, n, vh.Show(ts))
	}, func() string {
		if byname {
			pkg := wpk.NewPackage()
			pkg.Tagger = f.tg[m]
			pkg.SetTagset("dir/name", ts)
			b, err := pkg.ReadFile("dir/name")
			if in != (err == nil) || in && !bytes.Equal(b, f.data[off:off+size]) {
				return fmt.Sprintf("ReadFile gives %d bytes, %v", len(b), err)
			}
			g, err := pkg.Open("dir/name")
			if in != (err == nil) {
				return fmt.Sprintf("Open gives %v", err)
			}
			if in {
				b, err := io.ReadAll(g)
				g.Close()
				if err != nil || !bytes.Equal(b, f.data[off:off+size]) {
					return fmt.Sprintf("opened by name: %d bytes, %v", len(b), err)
				}
			}
		}
		g, err := f.tg[m].OpenTagset(ts)
		if !in {
			if err == nil {
				return "an extent outside of the file is opened"
			}
			return ""
		}
		if err != nil {
			return "not opened: " + err.Error()
		}
		if s := walk(h, g, f.data[off:off+size], steps, false); s != "" {
			return s
		}
		if fi, err := g.Stat(); err != nil || fi.Size() != int64(size) {
			return fmt.Sprintf("Stat: %v", err)
		}
		// another file opened at the same time does not disturb this one
		g2, err := f.tg[m].OpenTagset(ts)
		if err != nil {
			return "not opened again: " + err.Error()
		}
		if s := walk(h, g2, f.data[off:off+size], 2, false); s != "" {
			return "second handle: " + s
		}
		if err := g2.Close(); err != nil {
			return "Close: " + err.Error()
		}
		if s := walk(h, g, f.data[off:off+size], 2, true); s != "" {
			return "after closing another handle: " + s
		}
		if err := g.Close(); err != nil {
			return "Close: " + err.Error()
		}
		return ""
	})
}

func tags(off, size uint64, lo, ls int) []byte {
	w := func(v uint64, l int) []byte {
		b := vh.UintBytes(v)
		for len(b) < l {
			b = append(b, 0)
		}
		return b
	}
	return vh.Enc([]vh.KV{{T: 1, V: w(off, lo)}, {T: 2, V: w(size, ls)}, {T: 3, V: []byte("dir/name")}})
}

// big is a file of 2^33 bytes that holds hardly any disk space: marks of 8 bytes stand about powers of two, zeros elsewhere.
func big(h *vh.H, dir string) (f *files, marks map[uint64][]byte) {
	f = &files{path: h.Path(dir, "big.wpf")}
	w, err := os.Create(f.path)
	if err != nil {
		panic(err)
	}
	defer w.Close()
	if w.Truncate(1<<33) != nil {
		return nil, nil
	}
	marks = map[uint64][]byte{}
	for k := 12; k < 33; k++ {
		for _, at := range []uint64{1<<k - 64, 1 << k, 1<<k + 64} {
			b := make([]byte, 8)
			h.R.Read(b)
			if _, err := w.WriteAt(b, int64(at)); err != nil {
				return nil, nil
			}
			marks[at] = b
		}
	}
	for _, m := range modes {
		t, err := m.mk(f.path)
		if m.name == "bulk" && err != nil { // reads the whole file
			t = nil
		} else if err != nil {
			panic(err)
		}
		f.tg = append(f.tg, t)
	}
	return
}

// far opens a large extent of the large file and looks at its end and at the marks.
func far(h *vh.H, f *files, marks map[uint64][]byte, m int, off, size uint64) {
	const n = 1 << 33
	in := off <= n && size <= n-off
	h.Case(in, func() string {
		return fmt.Sprintf("%s access to extent %d+%d of a data file of %d bytes", modes[m].name, off, size, uint64(n))
	}, func() string {
		g, err := f.tg[m].OpenTagset(tags(off, size, 0, 0))
		if in != (err == nil) {
			return fmt.Sprintf("opening gives %v", err)
		}
		if !in {
			return ""
		}
		defer g.Close()
		if p, err := g.Seek(0, io.SeekEnd); err != nil || p != int64(size) {
			return fmt.Sprintf("the end is at %d, %v", p, err)
		}
		if fi, err := g.Stat(); err != nil || fi.Size() != int64(size) {
			return fmt.Sprintf("Stat: %v", err)
		}
		for at, want := range marks {
			if at < off || at+8 > off+size {
				continue
			}
			b := make([]byte, 8)
			if k, err := g.ReadAt(b, int64(at-off)); k != 8 || err != nil && err != io.EOF || !bytes.Equal(b, want) {
				return fmt.Sprintf("ReadAt(8, %d) gives %d bytes %x, %v, want %x", at-off, k, b, err, want)
			}
			if _, err := g.Seek(int64(at-off), io.SeekStart); err != nil {
				return fmt.Sprintf("Seek(%d): %v", at-off, err)
			}
			if _, err := io.ReadFull(g, b); err != nil || !bytes.Equal(b, want) {
				return fmt.Sprintf("at %d: %x, %v, want %x", at-off, b, err, want)
			}
		}
		return ""
	})
}

func TestC18(t *testing.T) {
	vh.Run(t, "data files of 0 to 400 KiB, and one of 2^33 bytes with marks about every power of two (not in mode bulk); every access mode; extents at and around 0, the end of the file and multiples of 4 and 64 KiB, of zero length, outside of the file and up to 2^64-1; random reads, positioned reads and seeks, opening by name; non-trivial: the extent lies in the file", func(h *vh.H) {
		dir := h.Dir()
		var fs []*files
		for _, n := range []int{0, 1, 100, 4096, 65536, 65537, 200000, 400001} {
			fs = append(fs, mk(h, dir, n))
		}
		edge := func(n uint64) []uint64 {
			return []uint64{0, 1, 99, 4095, 4096, 4097, 65535, 65536, 65537, 131071, 131072, n - 1, n, n + 1, 1<<31 + 5, 1<<32 - 1, 1 << 32, 1<<62 + 3, 1<<63 - 1, 1 << 63, 1<<64 - 65536, 1<<64 - 1}
		}
		for _, f := range fs {
			n := uint64(len(f.data))
			for _, off := range edge(n) {
				for _, size := range append(edge(n), n-off, n-off+1, n-off-1, -off) {
					if n > 100000 && h.R.Intn(3) > 0 {
						continue
					}
					for m := range modes {
						in := off <= n && size <= n-off
						one(h, f, m, tags(off, size, 0, 0), off, size, 6, !in && size < 1<<16 || in && h.R.Intn(4) == 0)
					}
				}
			}
			if !h.Left() {
				break
			}
		}
		// the access mode bulk reads the whole file, so the large one is for the other two
		save := modes
		modes = modes[1:]
		if f, marks := big(h, dir); f != nil {
			for k := 12; k < 33 && h.Left(); k++ {
				for m := range modes {
					p := uint64(1) << k
					far(h, f, marks, m, p-64, 72)
					far(h, f, marks, m, p, 8)
					far(h, f, marks, m, p+64, 8)
					far(h, f, marks, m, p-64, p+200)
					far(h, f, marks, m, 0, p+200)
					far(h, f, marks, m, 3, p)
					far(h, f, marks, m, 1<<33-p, p)
					far(h, f, marks, m, 1<<33-p, p+1)
				}
			}
			for _, t := range f.tg {
				t.Close()
			}
			os.Remove(f.path)
		}
		modes = save
		for h.Left() {
			f := fs[h.R.Intn(len(fs))]
			n := uint64(len(f.data))
			var off, size uint64
			if h.R.Intn(6) == 0 {
				off, size = h.U64(), h.U64()
			} else {
				off = uint64(h.R.Int63n(int64(n) + 2))
				if h.R.Intn(3) == 0 {
					e := edge(n)
					off = e[h.R.Intn(14)]
				}
				size = uint64(h.R.Int63n(int64(n) + 2))
				if off <= n && h.R.Intn(4) > 0 {
					size = uint64(h.R.Int63n(int64(n-off) + 1))
				}
				if h.R.Intn(2) == 0 {
					size %= 40
				}
			}
			l := []int{0, 0, 4, 8}
			one(h, f, h.R.Intn(3), tags(off, size, l[h.R.Intn(4)], l[h.R.Intn(4)]), off, size, 1+h.R.Intn(20), false)
		}
		for _, f := range fs {
			for i, t := range f.tg {
				if err := t.Close(); err != nil {
					panic(fmt.Sprintf("closing %s: %v", modes[i].name, err))
				}
			}
		}
	})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
