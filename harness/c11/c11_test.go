package c11

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

func opens(t []byte) error {
	p := wpk.NewPackage()
	return p.OpenStream(bytes.NewReader(append([]byte{}, t...)))
}

// live runs the steps and looks at the files after every single write.
func live(h *vh.H, ws string, split, alias bool, on []byte, ops []vh.Op) {
	h.Case(len(ops) > 2, func() string {
		return fmt.Sprintf("workspace %q, separate data file %v, started over a file of %d bytes: %v", ws, split, len(on), ops)
	}, func() string {
		l := vh.NewLife(h.R, ws, split, on)
		if split {
			l.T.D = append([]byte{}, on...)
			l.W.D = nil
		}
		bad := ""
		note := func(what string) {
			if bad != "" {
				return
			}
			if !split {
				if opens(l.T.D) != nil {
					return
				}
				if l.In != "sync" {
					if d := l.Complete(l.T.D, l.W.D, l.SWant, l.SInfo, l.SBytes); l.Syncs == 0 || d != "" {
						bad = fmt.Sprintf("stopped in %s after the %s the file is accepted as a finished package: %s", l.In, what, d)
					}
					return
				}
				if d := l.Complete(l.T.D, l.W.D, l.Want, l.Info, l.Bytes); d != "" {
					bad = fmt.Sprintf("stopped in %s after the %s the file is accepted but not complete: %s", l.In, what, d)
				}
				return
			}
			if strings.HasPrefix(what, "failed write") && (l.In == "append" || l.In == "reopen") {
				return // a signature written in part
			}
			if l.Syncs > 0 && l.In != "sync" {
				if d := l.Complete(l.T.D, l.W.D, l.SWant, l.SInfo, l.SBytes); d != "" {
					bad = fmt.Sprintf("stopped in %s after the %s the content of the last Sync is lost: %s", l.In, what, d)
				}
			}
		}
		l.T.OnOp, l.W.OnOp = note, note
		l.T.Once, l.W.Once = true, true
		if err := l.Begin(alias); err != nil {
			return "Begin: " + err.Error()
		}
		if bad != "" {
			return bad
		}
		for i, o := range ops {
			_, b := l.Do(o)
			if b != "" {
				return fmt.Sprintf("step %d: %s", i, b)
			}
			if bad == "" && !split && !l.Synced && o.Kind != "sync" && opens(l.T.D) == nil {
				if d := l.Complete(l.T.D, l.W.D, l.SWant, l.SInfo, l.SBytes); l.Syncs == 0 || d != "" {
					bad = "the file is accepted as a finished package: " + d
				}
			}
			if bad != "" {
				return fmt.Sprintf("step %d, %v: %s", i, o, bad)
			}
			if o.Fail > 0 && (o.Kind == "sync" || o.Kind == "append" || o.Kind == "reopen") {
				if !split && l.Synced == false && opens(l.T.D) == nil && o.Kind == "sync" {
					if d := l.Complete(l.T.D, l.W.D, l.Want, l.Info, l.Bytes); d != "" {
						return fmt.Sprintf("step %d, %v: the file is accepted but not complete: %s", i, o, d)
					}
				}
				return ""
			}
		}
		return ""
	})
}

func TestC11(t *testing.T) {
	vh.Run(t, "lives of up to 20 steps (packing, renaming, deleting, tags, information, Sync, reopening and appending), single-file and split, looked at after every write of Begin, Append, packing and Sync; steps with a failing seek or write at every operation, after which the step is over; non-trivial: more than two steps", func(h *vh.H) {
		base := []vh.Op{{Kind: "pack", Key: "a", Data: []byte("alpha")}, {Kind: "file", Key: "b", Data: nil}, {Kind: "sync"}}
		for _, split := range []bool{false, true} {
			for _, alias := range []bool{false, true} {
				for _, next := range []string{"reopen", "append"} {
					// the file packed looks like a table of the same length
					for _, n := range []int{0, 1, 3} {
						info := func(c byte) []byte { return vh.Enc([]vh.KV{{T: 116, V: []byte{c, c, c, c}}}) }
						var ops []vh.Op
						var es []vh.Ent
						end := uint64(64)
						if split {
							end = 0
						}
						for i := 0; i < n; i++ {
							k := fmt.Sprint("f", i)
							ops = append(ops, vh.Op{Kind: "pack", Key: k, Data: []byte("data")})
							es = append(es, vh.Ent{Key: k, TS: vh.Entry(k, end, 4)})
							end += 4
						}
						ops = append(ops, vh.Op{Kind: "info", Data: info('A')}, vh.Op{Kind: "sync"}, vh.Op{Kind: next}, vh.Op{Kind: "pack", Key: "x", Data: vh.EncTab(info('B'), es)}, vh.Op{Kind: "pack", Key: "y", Data: []byte("more")}, vh.Op{Kind: "sync"})
						live(h, ".", split, alias, nil, ops)
					}
					live(h, ".", split, alias, nil, append(append([]vh.Op{}, base...), vh.Op{Kind: next}, vh.Op{Kind: "pack", Key: "c", Data: []byte("gamma gamma gamma")}, vh.Op{Kind: "del", Key: "a"}, vh.Op{Kind: "sync"}))
					live(h, ".", split, alias, nil, append(append([]vh.Op{}, base...), vh.Op{Kind: next}, vh.Op{Kind: "sync"}))
					for f := 1; f < 14; f++ {
						for _, part := range []int{0, 1, 3, 16} {
							l := append(append([]vh.Op{}, base...), vh.Op{Kind: next}, vh.Op{Kind: "pack", Key: "c", Data: bytes.Repeat([]byte("gamma"), 300), Fail: f, Part: part}, vh.Op{Kind: "file", Key: "d", Data: []byte("delta"), Fail: f, Part: part}, vh.Op{Kind: "sync"}, vh.Op{Kind: next}, vh.Op{Kind: "sync"})
							live(h, ".", split, alias, nil, l)
							l = append(append([]vh.Op{}, base...), vh.Op{Kind: next}, vh.Op{Kind: "pack", Key: "c", Data: []byte("gamma")}, vh.Op{Kind: "sync", Fail: f, Part: part})
							live(h, ".", split, alias, nil, l)
							l = append(append([]vh.Op{}, base...), vh.Op{Kind: next, Fail: f, Part: part})
							live(h, ".", split, alias, nil, l)
						}
					}
				}
			}
		}
		for h.Left() {
			split := h.R.Intn(2) == 0
			ws := []string{".", "", "w", "a/b"}[h.R.Intn(4)]
			var on []byte
			if h.R.Intn(5) == 0 {
				on = vh.Pkg([]byte("old data"), nil, []vh.Ent{{Key: "old", TS: vh.Entry("old", 64, 8)}})
			}
			ops := vh.Ops(h.R, 1+h.R.Intn(18), split, h.Bytes)
			if h.R.Intn(3) == 0 {
				i := h.R.Intn(len(ops))
				ops[i].Fail, ops[i].Part = 1+h.R.Intn(9), h.R.Intn(17)
			}
			live(h, ws, split, h.R.Intn(2) == 0, on, ops)
		}
	})
}
