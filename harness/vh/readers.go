package vh

import (
	"errors"
	"fmt"
	"io"
)

// Pieces delivers data in pieces of the given sizes (cyclically), the last one with or without io.EOF.
type Pieces struct {
	D    []byte
	S    []int
	Last bool // deliver the last piece together with io.EOF
	Err  error // instead of io.EOF
	i, p int
}

func (r *Pieces) Read(b []byte) (int, error) {
	e := r.Err
	if e == nil {
		e = io.EOF
	}
	if r.p >= len(r.D) {
		return 0, e
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	if len(r.S) > 0 {
		n = r.S[r.i%len(r.S)]
		r.i++
	}
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], r.D[r.p:])
	r.p += n
	if r.Last && r.p == len(r.D) {
		return n, e
	}
	return n, nil
}

// Pos is the number of bytes delivered.
func (r *Pieces) Pos() int { return r.p }

// Mem is a file in memory: io.ReadWriteSeeker. Fail > 0: the Fail-th operation and all later ones fail
// (a failing write stores the first Part bytes of what it is given).
type Mem struct {
	D      []byte
	P      int64
	Fail   int
	Part   int
	Once   bool // only the Fail-th operation fails
	Ops    int
	Log    []string
	Pieces []int
	pi     int
	OnOp   func(what string) // called after every operation that changed the content
}

var ErrInjected = errors.New("injected fault")

func (m *Mem) op() bool {
	m.Ops++
	return m.Fail > 0 && (m.Ops == m.Fail || m.Ops > m.Fail && !m.Once)
}

func (m *Mem) put(b []byte) {
	if len(b) == 0 {
		return
	}
	if d := m.P + int64(len(b)) - int64(len(m.D)); d > 0 {
		m.D = append(m.D, make([]byte, d)...)
	}
	copy(m.D[m.P:], b)
	m.P += int64(len(b))
}

func (m *Mem) Write(b []byte) (int, error) {
	if m.op() {
		n := m.Part
		if n > len(b) {
			n = len(b)
		}
		if m.Ops > m.Fail {
			n = 0
		}
		m.put(b[:n])
		if n > 0 && m.OnOp != nil {
			m.OnOp(fmt.Sprintf("failed write of %d of %d bytes ending at %d", n, len(b), m.P))
		}
		return n, ErrInjected
	}
	m.put(b)
	if m.OnOp != nil {
		m.OnOp(fmt.Sprintf("write of %d bytes ending at %d", len(b), m.P))
	}
	return len(b), nil
}

func (m *Mem) Read(b []byte) (int, error) {
	if m.op() {
		return 0, ErrInjected
	}
	if m.P >= int64(len(m.D)) {
		return 0, io.EOF
	}
	n := len(b)
	if len(m.Pieces) > 0 && n > 0 {
		if k := m.Pieces[m.pi%len(m.Pieces)]; k < n {
			n = k
		}
		m.pi++
	}
	n = copy(b[:n], m.D[m.P:])
	m.P += int64(n)
	return n, nil
}

func (m *Mem) Seek(o int64, w int) (int64, error) {
	if m.op() {
		return 0, ErrInjected
	}
	switch w {
	case io.SeekCurrent:
		o += m.P
	case io.SeekEnd:
		o += int64(len(m.D))
	}
	if o < 0 {
		return 0, errors.New("negative position")
	}
	m.P = o
	return o, nil
}

func (m *Mem) Close() error { return nil }

// Hdr is the documented form of a package header.
func Hdr(sign string, v [5]uint64) []byte {
	b := []byte(sign)
	for _, x := range v {
		for i := 0; i < 8; i++ {
			b = append(b, byte(x>>(8*i)))
		}
	}
	return b
}

// ReadyHdr and BuildHdr are the two signatures.
const (
	ReadySign = "Whirlwind 3.4 Package   "
	BuildSign = "Whirlwind 3.4 Prebuild  "
)
