//verif:race
package c23

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

// stream is the destination: it lets other goroutines run inside every operation and tells when two operations overlap.
type stream struct {
	vh.Mem
	y    *yielder
	busy int32
	bad  int32
}

func (s *stream) in() {
	if !atomic.CompareAndSwapInt32(&s.busy, 0, 1) {
		atomic.StoreInt32(&s.bad, 1)
	}
	s.y.yield()
}

func (s *stream) out() { s.y.yield(); atomic.StoreInt32(&s.busy, 0) }

func (s *stream) Write(b []byte) (int, error)        { s.in(); defer s.out(); return s.Mem.Write(b) }
func (s *stream) Read(b []byte) (int, error)         { s.in(); defer s.out(); return s.Mem.Read(b) }
func (s *stream) Seek(o int64, w int) (int64, error) { s.in(); defer s.out(); return s.Mem.Seek(o, w) }

// yielder yields the processor a varying number of times.
type yielder struct{ n, k uint32 }

func (y *yielder) yield() {
	n := atomic.AddUint32(&y.n, 2654435761)
	for i := (n >> 16) % (y.k + 1); i > 0; i-- {
		runtime.Gosched()
	}
}

type source struct {
	r io.Reader
	y *yielder
}

func (s *source) Read(b []byte) (int, error) { s.y.yield(); return s.r.Read(b) }

type item struct {
	key  string
	ws   string
	data []byte
	file bool
	bad  bool // the source fails after its data
	ts   wpk.TagsetRaw
	err  error
}

func full(ws, k string) string {
	if ws == "" || ws == "." {
		return k
	}
	return ws + "/" + k
}

func run(h *vh.H, split bool, gs int, items []*item, pre []*item) {
	h.Case(gs > 1 && len(items) > 1, func() string {
		s := ""
		for _, it := range items {
			s += fmt.Sprintf(" %q(%d bytes, file %v, failing %v)", full(it.ws, it.key), len(it.data), it.file, it.bad)
		}
		return fmt.Sprintf("%d goroutines packing into one stream, separate data file %v, %d files packed before:%s", gs, split, len(pre), s)
	}, func() string {
		y := &yielder{n: uint32(h.R.Uint32()), k: uint32(h.R.Intn(4))}
		w, t := &stream{y: y}, &stream{y: y}
		pkg := wpk.NewPackage()
		var err error
		if split {
			err = pkg.Begin(t, w)
		} else {
			err = pkg.Begin(w, nil)
		}
		if err != nil {
			return "Begin: " + err.Error()
		}
		srcs := map[*item]io.Reader{}
		for _, it := range append(append([]*item{}, pre...), items...) {
			var e error
			if it.bad {
				e = vh.ErrInjected
			}
			srcs[it] = &source{vh.Source(h.R, it.data, e), y}
		}
		put := func(it *item) {
			v := &wpk.Package{FTT: pkg.FTT, Tagger: pkg.Tagger, Workspace: it.ws}
			if it.file {
				f := &vh.File{N: "f", R: srcs[it], Size: int64(len(it.data))}
				f.St.Mtim.Sec, f.St.Atim.Sec, f.St.Ctim.Sec = 1, 2, 3
				it.ts, it.err = v.PackFile(w, f, it.key)
			} else {
				it.ts, it.err = v.PackData(w, srcs[it], it.key)
			}
		}
		for _, it := range pre {
			put(it)
		}
		// each goroutine packs its share one after another
		var wg sync.WaitGroup
		var left int32 = int32(gs)
		for g := 0; g < gs; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				atomic.AddInt32(&left, -1)
				for k := 0; atomic.LoadInt32(&left) > 0 && k < 1000; k++ {
					runtime.Gosched()
				}
				for i := g; i < len(items); i += gs {
					put(items[i])
				}
			}(g)
		}
		wg.Wait()
		if w.bad != 0 {
			return "two operations on the stream ran at the same time"
		}
		// the extents tile what was written
		var sum uint64
		type ext struct{ a, b int }
		var exts []ext
		want := 0
		gaps := false
		for _, it := range append(append([]*item{}, pre...), items...) {
			if it.bad {
				gaps = true
				if it.err == nil {
					return fmt.Sprintf("packing %q from a failing source succeeds", full(it.ws, it.key))
				}
				continue
			}
			if it.err != nil {
				return fmt.Sprintf("packing %q: %v", full(it.ws, it.key), it.err)
			}
			k := full(it.ws, it.key)
			name, off, size, ok := vh.EntOf(it.ts, 0, 1<<62)
			if !ok || name != k {
				return fmt.Sprintf("packing %q returns tags %s", k, vh.Show(it.ts))
			}
			if size != uint64(len(it.data)) {
				return fmt.Sprintf("%q of %d bytes is recorded with %d bytes", k, len(it.data), size)
			}
			if off+size > uint64(len(w.D)) || !bytes.Equal(w.D[off:off+size], it.data) {
				return fmt.Sprintf("the recorded extent %d+%d of %q does not hold its content", off, size, k)
			}
			for _, e := range exts {
				if size > 0 && e.b > e.a && int(off) < e.b && e.a < int(off+size) {
					return fmt.Sprintf("the extent %d+%d of %q overlaps another one, %d+%d", off, size, k, e.a, e.b-e.a)
				}
			}
			exts = append(exts, ext{int(off), int(off + size)})
			sum += size
			want++
			got, ok := pkg.GetTagset(k)
			if !ok || !bytes.Equal(got, it.ts) {
				return fmt.Sprintf("the table holds %s for %q, packing returned %s", vh.Show(got), k, vh.Show(it.ts))
			}
		}
		if uint64(pkg.DataSize()) != sum {
			return fmt.Sprintf("the data size is %d, the files have %d bytes together", pkg.DataSize(), sum)
		}
		base := 0
		if !split {
			base = 64
		}
		if !gaps && uint64(len(w.D)) != sum+uint64(base) {
			return fmt.Sprintf("%d bytes are written, the files have %d", len(w.D)-base, sum)
		}
		n := 0
		dup := ""
		seen := map[string]bool{}
		pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
			if seen[k] {
				dup = k
			}
			seen[k] = true
			n++
			return true
		})
		if n != want || dup != "" {
			return fmt.Sprintf("the table has %d entries (%q twice), %d files were packed", n, dup, want)
		}
		return ""
	})
}

func TestC23(t *testing.T) {
	vh.Run(t, "1 to 8 goroutines packing up to 24 files of 0 to 70000 bytes, as data or as files, through views of one or several workspaces, sources in pieces, some failing, into a stream that lets others run inside each operation; single and split packages; race detector on; non-trivial: at least 2 goroutines and 2 files", func(h *vh.H) {
		h.Slow(60 * time.Second)
		for h.Left() {
			gs := 1 + h.R.Intn(8)
			n := h.R.Intn(25)
			ws := []string{"", ".", "dir", "dir/sub", "other"}
			mixed := h.R.Intn(3) == 0
			bad := h.R.Intn(4) == 0
			w0 := ws[h.R.Intn(len(ws))]
			used := map[string]bool{}
			mk := func() *item {
				it := &item{ws: w0, file: h.R.Intn(3) == 0}
				if mixed {
					it.ws = ws[h.R.Intn(len(ws))]
				}
				for {
					it.key = fmt.Sprintf("%sf%d", strings.Repeat("d/", h.R.Intn(3)), h.R.Intn(200))
					if !used[full(it.ws, it.key)] {
						break
					}
				}
				used[full(it.ws, it.key)] = true
				s := h.R.Intn(40)
				switch h.R.Intn(30) {
				case 0:
					s = h.R.Intn(70000)
				case 1, 2:
					s = h.R.Intn(3000)
				case 3:
					s = 0
				}
				it.data = h.Bytes(s)
				it.bad = bad && h.R.Intn(5) == 0
				return it
			}
			var pre, items []*item
			for i := h.R.Intn(3); i > 0; i-- {
				it := mk()
				it.bad = false
				pre = append(pre, it)
			}
			for ; n > 0; n-- {
				items = append(items, mk())
			}
			run(h, h.R.Intn(2) == 0, gs, items, pre)
		}
	})
}
