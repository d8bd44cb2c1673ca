package vh

import (
	"encoding/binary"
	"math/rand"
	"strings"
)

// Ent is an entry of the model of a tags table.
type Ent struct {
	Key string
	TS  []byte
}

func le16(n int) []byte { return binary.LittleEndian.AppendUint16(nil, uint16(n)) }

// EncTab is the documented form of a tags table.
func EncTab(info []byte, l []Ent) []byte {
	b := append(le16(len(info)), info...)
	for _, e := range l {
		b = append(append(b, le16(len(e.TS))...), e.TS...)
	}
	return append(b, 0, 0)
}

// UintOf reads an unsigned tag of 1, 2, 4 or 8 bytes.
func UintOf(v []byte) (uint64, bool) {
	switch len(v) {
	case 1, 2, 4, 8:
		var b [8]byte
		copy(b[:], v)
		return binary.LittleEndian.Uint64(b[:]), true
	}
	return 0, false
}

// UintBytes is the shortest of the four unsigned forms.
func UintBytes(v uint64) []byte {
	b := binary.LittleEndian.AppendUint64(nil, v)
	switch {
	case v < 1<<8:
		return b[:1]
	case v < 1<<16:
		return b[:2]
	case v < 1<<32:
		return b[:4]
	}
	return b
}

// EntOf says whether a tag set is a valid entry of a package with the given data section, and its name and extent.
func EntOf(ts []byte, dof, dsz uint64) (key string, off, size uint64, ok bool) {
	l, ok := Dec(ts)
	if !ok {
		return
	}
	p, o, s := Find(l, 3), Find(l, 1), Find(l, 2)
	ok = false
	if p < 0 || o < 0 || s < 0 {
		return
	}
	var k1, k2 bool
	off, k1 = UintOf(l[o].V)
	size, k2 = UintOf(l[s].V)
	if !k1 || !k2 || off < dof || off-dof > dsz || size > dsz-(off-dof) {
		return
	}
	return strings.ReplaceAll(string(l[p].V), "\\", "/"), off, size, true
}

// DecTab reads a tags table: package information, entries and length, or a refusal.
func DecTab(b []byte, dof, dsz uint64) (info []byte, l []Ent, n int, ok bool) {
	names := map[string]bool{}
	for first := true; ; first = false {
		if n+2 > len(b) {
			return
		}
		k := int(binary.LittleEndian.Uint16(b[n:]))
		n += 2
		if !first && k == 0 {
			return info, l, n, true
		}
		if n+k > len(b) {
			return
		}
		ts := b[n : n+k : n+k]
		n += k
		if first {
			if _, ok := Dec(ts); !ok {
				return info, l, n, false
			}
			info = ts
			continue
		}
		key, _, _, ok := EntOf(ts, dof, dsz)
		if !ok || names[key] {
			return info, l, n, false
		}
		names[key] = true
		l = append(l, Ent{key, ts})
	}
}

// Entry makes the tags of an entry in the order the packer uses.
func Entry(key string, off, size uint64, more ...KV) []byte {
	return Enc(append([]KV{{1, UintBytes(off)}, {2, UintBytes(size)}, {3, []byte(key)}}, more...))
}

// Name makes a file name out of few parts, so that prefixes and equal names occur.
func Name(r *rand.Rand) string {
	parts := []string{"a", "b", "ab", "dir", "dir2", "я", "A", "x.txt", "дир", "a b", "..", "z.tar.gz", "\x80", "(", "[1]"}
	s := parts[r.Intn(len(parts))]
	for r.Intn(3) > 0 && len(s) < 60 {
		s += "/" + parts[r.Intn(len(parts))]
	}
	return s
}

// MoreTags makes further tags with distinct ids above 3, now and then repeated ones.
func MoreTags(r *rand.Rand) (l []KV) {
	for r.Intn(3) > 0 {
		v := make([]byte, []int{0, 1, 2, 3, 4, 8, 12, 16, 200}[r.Intn(9)])
		r.Read(v)
		l = append(l, KV{uint16([]int{4, 5, 6, 9, 10, 11, 110, 116, 255, 256, 257, 258, 259, 0x0103, 65535}[r.Intn(15)]), v})
	}
	return
}

// Pkg puts a package file together: header, data, table; the offsets of the entries are in the file.
func Pkg(data []byte, info []byte, l []Ent) []byte {
	tab := EncTab(info, l)
	b := Hdr(ReadySign, [5]uint64{uint64(len(l)), uint64(64 + len(data)), uint64(len(tab)), 64, uint64(len(data))})
	return append(append(b, data...), tab...)
}

// CloneEnts is a deep copy.
func CloneEnts(l []Ent) (r []Ent) {
	for _, e := range l {
		r = append(r, Ent{e.Key, append([]byte{}, e.TS...)})
	}
	return
}

// WithPath is the tag set with another name in its first name tag.
func WithPath(ts []byte, name string) []byte {
	l, _ := Dec(ts)
	c := append([]KV{}, l...)
	if i := Find(c, 3); i >= 0 {
		c[i].V = []byte(name)
	} else {
		c = append(c, KV{3, []byte(name)})
	}
	return Enc(c)
}
