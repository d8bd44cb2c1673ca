package c22

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/zzverif/vh"
)

type inst struct{ sec, ns int64 }

func (i inst) String() string { return fmt.Sprintf("%d.%09d", i.sec, i.ns) }

func same(t time.Time, i inst) bool { return t.Unix() == i.sec && int64(t.Nanosecond()) == i.ns }

func get(ts wpk.TagsetRaw, tid int) time.Time {
	switch tid {
	case 5:
		return ts.ModTime()
	case 6:
		return ts.AccessTime()
	case 7:
		return ts.ChangeTime()
	}
	return ts.BirthTime()
}

func form(i inst, ms bool) []byte {
	b := make([]byte, 8, 12)
	if ms {
		binary.LittleEndian.PutUint64(b, uint64(i.sec*1000+i.ns/1000000))
		return b
	}
	binary.LittleEndian.PutUint64(b, uint64(i.sec))
	return binary.LittleEndian.AppendUint32(b, uint32(i.ns))
}

// check reads every time of an entry; at[tid] is nil if it is not recorded.
func check(ts wpk.TagsetRaw, at [9]*inst) string {
	for tid := 5; tid <= 8; tid++ {
		if at[tid] == nil {
			continue
		}
		if t := get(ts, tid); !same(t, *at[tid]) {
			return fmt.Sprintf("time %d reads back as %d.%09d, stored was %v (tags %s)", tid, t.Unix(), t.Nanosecond(), *at[tid], vh.Show(ts))
		}
	}
	if ts.HasChangeTime() != (at[7] != nil) {
		return fmt.Sprintf("HasChangeTime is %v (tags %s)", ts.HasChangeTime(), vh.Show(ts))
	}
	if ts.HasBirthTime() != (at[8] != nil) {
		return fmt.Sprintf("HasBirthTime is %v (tags %s)", ts.HasBirthTime(), vh.Show(ts))
	}
	return ""
}

// stored: times in a tag set written by hand, or with the constructors, in both formats.
func stored(h *vh.H, at [9]*inst, ms [9]bool, order []int, ctor bool, others []vh.KV) {
	h.Case(true, func() string {
		return fmt.Sprintf("entry with times %v in milliseconds %v, order %v, by constructors %v, other tags %v", at[5:], ms[5:], order, ctor, others)
	}, func() string {
		l := append([]vh.KV{}, others...)
		ts := wpk.TagsetRaw(vh.Enc(others))
		want := at
		for _, tid := range order {
			if at[tid] == nil {
				continue
			}
			i := *at[tid]
			if ms[tid] {
				i.ns -= i.ns % 1000000
				want[tid] = &i
			}
			l = append(l, vh.KV{T: uint16(tid), V: form(i, ms[tid])})
			t := time.Unix(at[tid].sec, at[tid].ns)
			if ms[tid] {
				ts = ts.Put(wpk.TID(tid), wpk.UnixmsTag(t))
			} else {
				ts = ts.Put(wpk.TID(tid), wpk.TimeTag(t))
			}
		}
		if !ctor {
			ts = vh.Enc(l)
		}
		return check(ts, want)
	})
}

// packed: times of a packed file, in the returned entry, in the table, and after writing and reading the table.
func packed(h *vh.H, m, a, c inst, key string) {
	h.Case(true, func() string {
		return fmt.Sprintf("file %q packed with modification, access and change times %v %v %v", key, m, a, c)
	}, func() string {
		w := &vh.Mem{}
		pkg := wpk.NewPackage()
		if err := pkg.Begin(w, nil); err != nil {
			return err.Error()
		}
		f := &vh.File{N: "f", R: bytes.NewReader([]byte("content")), Size: 7}
		f.St.Mtim.Sec, f.St.Mtim.Nsec = m.sec, m.ns
		f.St.Atim.Sec, f.St.Atim.Nsec = a.sec, a.ns
		f.St.Ctim.Sec, f.St.Ctim.Nsec = c.sec, c.ns
		ts, err := pkg.PackFile(w, f, key)
		if err != nil {
			return err.Error()
		}
		var at [9]*inst
		at[5], at[6], at[7] = &m, &a, &c
		if s := check(ts, at); s != "" {
			return "returned entry: " + s
		}
		ts, ok := pkg.GetTagset(key)
		if !ok {
			return "no entry"
		}
		if s := check(ts, at); s != "" {
			return "entry in the table: " + s
		}
		if fi, err := pkg.Stat(key); err != nil || !same(fi.ModTime(), m) {
			return "Stat does not give the modification time"
		}
		if err := pkg.Sync(w, nil); err != nil {
			return err.Error()
		}
		p2 := wpk.NewPackage()
		if err := p2.OpenStream(bytes.NewReader(w.D)); err != nil {
			return "reopening: " + err.Error()
		}
		if ts, ok = p2.GetTagset(key); !ok {
			return "no entry after reopening"
		}
		if s := check(ts, at); s != "" {
			return "entry after reopening: " + s
		}
		return ""
	})
}

func TestC22(t *testing.T) {
	vh.Run(t, "entries with any subset of the four times, each in one of the two formats, written by hand and with the constructors, among other tags; files packed with arbitrary times and read back from the returned entry, the table and the reopened package; instants before, at and after the epoch and at the borders of the range; all are non-trivial", func(h *vh.H) {
		sec := []int64{0, 1, -1, 59, -60, 1700000000, -1700000000, 1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1 << 32, 253402300799, -62135596800, -62135596801, 1 << 40, -1 << 40, 9223372036854774, -9223372036854774}
		wide := append(append([]int64{}, sec...), 1<<62, -1<<62, 1<<63-1, -1<<63, 1<<63-1-62135596800, 1<<63-62135596800)
		ns := []int64{0, 1, 999, 1000000, 999999, 500000000, 999000000, 999999999, 1000001, 123456789}
		pick := func(l []int64) inst {
			i := inst{l[h.R.Intn(len(l))], ns[h.R.Intn(len(ns))]}
			if h.R.Intn(3) == 0 {
				i.sec = h.R.Int63n(1<<uint(1+h.R.Intn(52))) - h.R.Int63n(1<<uint(1+h.R.Intn(52)))
			}
			if h.R.Intn(3) == 0 {
				i.ns = h.R.Int63n(1000000000)
			}
			return i
		}
		for mask := 0; mask < 16; mask++ {
			for f := 0; f < 16; f++ {
				for k := 0; k < 8; k++ {
					var at [9]*inst
					var ms [9]bool
					for b := 0; b < 4; b++ {
						ms[5+b] = f>>b&1 > 0
						if mask>>b&1 > 0 {
							i := inst{sec[(k*3+b)%len(sec)], ns[(k*5+b*3)%len(ns)]}
							at[5+b] = &i
						}
					}
					stored(h, at, ms, []int{5, 6, 7, 8}, k%2 == 0, nil)
				}
			}
		}
		for _, s := range wide {
			for _, n := range ns {
				i := inst{s, n}
				packed(h, i, inst{7, 8}, inst{9, 10}, "a")
				packed(h, inst{7, 8}, i, inst{9, 10}, "a")
				packed(h, inst{7, 8}, inst{9, 10}, i, "a")
			}
		}
		for h.Left() {
			if h.R.Intn(2) == 0 {
				packed(h, pick(wide), pick(wide), pick(wide), vh.Name(h.R))
				continue
			}
			var at [9]*inst
			var ms [9]bool
			order := []int{5, 6, 7, 8}
			h.R.Shuffle(4, func(i, j int) { order[i], order[j] = order[j], order[i] })
			for _, tid := range order {
				ms[tid] = h.R.Intn(2) == 0
				l := sec
				if !ms[tid] {
					l = wide
				}
				if h.R.Intn(4) > 0 {
					i := pick(l)
					at[tid] = &i
				}
			}
			var others []vh.KV
			for _, x := range vh.MoreTags(h.R) {
				if x.T < 5 || x.T > 8 {
					others = append(others, x)
				}
			}
			stored(h, at, ms, order, h.R.Intn(2) == 0, others)
		}
	})
}
