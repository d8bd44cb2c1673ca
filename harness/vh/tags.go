package vh

import (
	"encoding/binary"
	"fmt"
)

// KV is a tag of the model.
type KV struct {
	T uint16
	V []byte
}

// Enc is the documented encoding of a list of tags.
func Enc(l []KV) []byte {
	b := []byte{}
	for _, x := range l {
		b = binary.LittleEndian.AppendUint16(b, x.T)
		b = binary.LittleEndian.AppendUint16(b, uint16(len(x.V)))
		b = append(b, x.V...)
	}
	return b
}

// Dec parses a tag set; ok is false when the bytes end inside a tag.
func Dec(b []byte) (l []KV, ok bool) {
	p := 0
	for p < len(b) {
		if p+4 > len(b) {
			return l, false
		}
		t, n := binary.LittleEndian.Uint16(b[p:]), int(binary.LittleEndian.Uint16(b[p+2:]))
		if p+4+n > len(b) {
			return l, false
		}
		l = append(l, KV{t, b[p+4 : p+4+n : p+4+n]})
		p += 4 + n
	}
	return l, true
}

func Find(l []KV, t uint16) int {
	for i, x := range l {
		if x.T == t {
			return i
		}
	}
	return -1
}

func Show(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%v... (%d bytes)", b[:300], len(b))
	}
	return fmt.Sprint(b)
}
