package c10

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"testing"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/bulk"
	"github.com/schwarzlichtbezirk/wpk/fsys"
	"github.com/schwarzlichtbezirk/wpk/mmap"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

func desc(ws string, split bool, on int, ops []vh.Op) func() string {
	return func() string {
		return fmt.Sprintf("workspace %q, separate data file %v, started over a file of %d bytes: %v", ws, split, on, ops)
	}
}

func live(h *vh.H, ws string, split, alias bool, on []byte, ops []vh.Op) {
	h.Case(len(ops) > 2, desc(ws, split, len(on), ops), func() string {
		l := vh.NewLife(h.R, ws, split, on)
		if split {
			l.T.D = append([]byte{}, on...)
			l.W.D = nil
		}
		if err := l.Begin(alias); err != nil {
			return "Begin: " + err.Error()
		}
		for i, o := range ops {
			err, bad := l.Do(o)
			if bad != "" {
				return fmt.Sprintf("step %d: %s", i, bad)
			}
			if o.Fail == 0 && err != nil && (o.Kind == "sync" || o.Kind == "reopen" || o.Kind == "append") {
				return fmt.Sprintf("step %d, %v: %v", i, o, err)
			}
			if l.Synced {
				if d := l.Complete(l.T.D, l.W.D, l.Want, l.Info, l.Bytes); d != "" {
					return fmt.Sprintf("after step %d, %v: %s", i, o, d)
				}
				if d := l.Header(); d != "" {
					return fmt.Sprintf("after step %d, %v: %s", i, o, d)
				}
			}
		}
		return ""
	})
}

// disk does the same with real files and reads back in every access mode.
func disk(h *vh.H, split bool, ops []vh.Op) {
	h.Case(true, desc(".", split, 0, ops), func() string {
		h.OnDisk()
		dir := h.Dir()
		tp, wp := h.Path(dir, "p.wpk"), h.Path(dir, "p.wpf")
		if split {
			tp = h.Path(dir, "p.wpt")
		} else {
			wp = tp
		}
		var t, w *os.File
		open := func() (err error) {
			if t, err = os.OpenFile(tp, os.O_RDWR|os.O_CREATE, 0o644); err != nil {
				return
			}
			w = nil
			if split {
				w, err = os.OpenFile(wp, os.O_RDWR|os.O_CREATE, 0o644)
			}
			return
		}
		shut := func() {
			t.Close()
			if w != nil {
				w.Close()
			}
		}
		if err := open(); err != nil {
			return err.Error()
		}
		defer func() { shut() }()
		var wpf wpk.WriteSeekCloser
		data := func() io.WriteSeeker {
			if split {
				return w
			}
			return t
		}
		if split {
			wpf = w
		}
		pkg := wpk.NewPackage()
		if err := pkg.Begin(t, wpf); err != nil {
			return "Begin: " + err.Error()
		}
		want := map[string][]byte{}
		for i, o := range ops {
			switch o.Kind {
			case "pack", "file":
				if _, err := pkg.PackData(data(), vh.Source(h.R, o.Data, nil), o.Key); err == nil {
					want[o.Key] = o.Data
				}
			case "rename":
				if pkg.Rename(o.Key, o.To) == nil {
					want[o.To] = want[o.Key]
					delete(want, o.Key)
				}
			case "alias":
				if pkg.PutAlias(o.Key, o.To) == nil {
					want[o.To] = want[o.Key]
				}
			case "del":
				pkg.DelTagset(o.Key)
				delete(want, o.Key)
			case "reopen", "append":
				shut()
				if err := open(); err != nil {
					return err.Error()
				}
				if split {
					wpf = w
				}
				pkg = wpk.NewPackage()
				if err := pkg.OpenFile(tp); err != nil {
					return fmt.Sprintf("step %d: OpenFile: %v", i, err)
				}
				if err := pkg.Append(t, wpf); err != nil {
					return fmt.Sprintf("step %d: Append: %v", i, err)
				}
			case "sync":
				if err := pkg.Sync(t, wpf); err != nil {
					return fmt.Sprintf("step %d: Sync: %v", i, err)
				}
				p := wpk.NewPackage()
				if err := p.OpenFile(tp); err != nil {
					return fmt.Sprintf("step %d: the package does not open: %v", i, err)
				}
				if p.IsSplitted() != split {
					return fmt.Sprintf("step %d: IsSplitted is %v", i, p.IsSplitted())
				}
				if p.TagsetNum() != len(want) {
					return fmt.Sprintf("step %d: %d names, want %d", i, p.TagsetNum(), len(want))
				}
				for m, mk := range []func(string) (wpk.Tagger, error){bulk.MakeTagger, mmap.MakeTagger, fsys.MakeTagger} {
					fp := wp
					if h.R.Intn(2) == 0 && split {
						fp = wpk.MakeDataPath(tp)
					}
					tg, err := mk(fp)
					if err != nil {
						return err.Error()
					}
					p.Tagger = tg
					for k, v := range want {
						b, err := p.ReadFile(k)
						if err != nil || !bytes.Equal(b, v) {
							tg.Close()
							return fmt.Sprintf("step %d: in mode %d %q reads %d bytes, %v; %d bytes were packed", i, m, k, len(b), err, len(v))
						}
					}
					tg.Close()
				}
			}
		}
		return ""
	})
}

func TestC10(t *testing.T) {
	vh.Run(t, "lives of up to 25 steps (packing, renaming, aliasing, deleting, tagging, package information, Sync, reopening or continuing with Append), single-file and split, in the root and in workspaces, begun on new and on non-empty files, with up to one failing step; after every Sync the files are opened and compared with the account, the header with the real counts and places; a part with real files and all access modes; non-trivial: more than two steps", func(h *vh.H) {
		// around the sizes at which counters change their length
		for _, split := range []bool{false, true} {
			for _, n := range []int{0, 1, 190, 191, 192, 193, 254, 255, 256, 257, 65470, 65471, 65472, 65535, 65536, 65537} {
				x := bytes.Repeat([]byte{'x'}, n)
				live(h, ".", split, false, nil, []vh.Op{{Kind: "pack", Key: "a", Data: x}, {Kind: "pack", Key: "b", Data: x}, {Kind: "sync"}, {Kind: "reopen"}, {Kind: "pack", Key: "c", Data: x}, {Kind: "sync"}})
			}
			for n := 0; n < 8; n++ {
				ops := []vh.Op{{Kind: "info", Data: vh.Enc([]vh.KV{{T: 116, V: []byte("label")}})}, {Kind: "sync"}}
				for i := 0; i < n; i++ {
					ops = append(ops, vh.Op{Kind: []string{"reopen", "append"}[i%2]}, vh.Op{Kind: "pack", Key: fmt.Sprint("f", i), Data: []byte("data")[:i%5]}, vh.Op{Kind: "sync"})
				}
				live(h, "", split, true, nil, ops)
			}
			var many []vh.Op
			for i := 0; i < 300; i++ {
				many = append(many, vh.Op{Kind: "pack", Key: fmt.Sprintf("f%d", i), Data: []byte{byte(i)}})
			}
			live(h, "w", split, false, nil, append(many, vh.Op{Kind: "sync"}))
		}
		for h.Left() {
			split := h.R.Intn(2) == 0
			ws := []string{".", "", "w", "a/b"}[h.R.Intn(4)]
			var on []byte
			if h.R.Intn(4) == 0 {
				on = h.Bytes(400)
				if h.R.Intn(2) == 0 {
					on = vh.Pkg([]byte("old data"), nil, []vh.Ent{{Key: "old", TS: vh.Entry("old", 64, 8)}})
				}
			}
			ops := vh.Ops(h.R, 1+h.R.Intn(22), split, h.Bytes)
			if h.R.Intn(4) == 0 {
				i := h.R.Intn(len(ops))
				if k := ops[i].Kind; k == "pack" || k == "file" {
					ops[i].Fail, ops[i].Part = 1+h.R.Intn(4), h.R.Intn(5)
				}
			}
			live(h, ws, split, h.R.Intn(2) == 0, on, ops)
			if h.R.Intn(20) == 0 {
				disk(h, split, vh.Ops(h.R, 1+h.R.Intn(12), split, h.Bytes))
			}
		}
	})
}
