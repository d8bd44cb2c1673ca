// Package vh: support for the bounded companions of the checks.
package vh

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"sync"
	"testing"
	"time"
)

type H struct {
	T        *testing.T
	R        *rand.Rand
	Budget   time.Duration
	Round    int
	Repo     string
	Scratch  string
	mu       sync.Mutex
	t0       time.Time
	cases    int64
	nontr    int64
	samples  []string
	rule     string
	curDesc  func() string
	curT     time.Time
	failed   bool
	what     string
	replay   string
	slow     time.Duration
	disk     bool
	deadline time.Time
	nt       int
}

func env(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Run sets up a companion. rule says how the cases are made and which are non-trivial.
func Run(t *testing.T, rule string, f func(h *H)) {
	seed := env("VERIF_SEED", 1)
	h := &H{T: t, R: rand.New(rand.NewSource(int64(seed))), rule: rule, Budget: time.Duration(env("VERIF_BUDGET", 5)) * time.Second,
		Round: env("VERIF_ROUND", 0), Repo: os.Getenv("VERIF_REPO"), Scratch: os.Getenv("VERIF_SCRATCH"), t0: time.Now(), slow: 20 * time.Second}
	if h.Scratch == "" {
		h.Scratch = t.TempDir()
	}
	h.deadline = h.t0.Add(h.Budget)
	stop := make(chan bool)
	go h.watch(stop)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopT); ok {
					return
				}
				panic(r)
			}
		}()
		f(h)
	}()
	close(stop)
	h.write(true)
	if h.failed {
		t.Fail()
	}
}

type stopT struct{}

func (h *H) watch(stop chan bool) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(500 * time.Millisecond):
		}
		h.mu.Lock()
		d, ct := h.curDesc, h.curT
		h.mu.Unlock()
		if d != nil && time.Since(ct) > h.slow {
			h.failed, h.what, h.replay = true, "does not return within "+h.slow.String()+": "+d(), ""
			h.write(false)
			os.Exit(1)
		}
	}
}

func (h *H) write(done bool) {
	f := os.Getenv("VERIF_RESULT")
	b, _ := json.MarshalIndent(map[string]interface{}{"Cases": h.cases, "Nontrivial": h.nontr, "Rule": h.rule, "Samples": h.samples, "Failed": h.failed, "What": h.what, "Replay": h.replay, "Done": done}, "", " ")
	if f == "" {
		fmt.Println(string(b))
		return
	}
	os.WriteFile(f, b, 0o644)
}

// Left: is there time left for more random cases?
func (h *H) Left() bool { return !h.failed && time.Now().Before(h.deadline) }

// Part limits the following cases to a share of the budget: part i of n.
func (h *H) Part(i, n int) { h.deadline = h.t0.Add(h.Budget * time.Duration(i) / time.Duration(n)) }

// OnDisk makes every case leave its description on disk before it runs (for code that may bring the process down).
func (h *H) OnDisk() { h.disk = true }

// Slow sets the time after which a case counts as hanging.
func (h *H) Slow(d time.Duration) { h.slow = d }

// Case runs one case. f returns "" or what is wrong; a panic is a failure too. The first failure ends the run.
func (h *H) Case(nontrivial bool, desc func() string, f func() string) bool {
	if h.failed {
		panic(stopT{})
	}
	h.mu.Lock()
	h.curDesc, h.curT = desc, time.Now()
	h.mu.Unlock()
	if h.disk {
		if r := os.Getenv("VERIF_RESULT"); r != "" {
			os.WriteFile(r+".current", []byte(desc()), 0o644)
		}
	}
	h.cases++
	if nontrivial {
		h.nontr++
		h.nt++
		if len(h.samples) < 3 && (h.nt == 1 || h.nt == 50 || h.nt == 1000) {
			s := desc()
			if len(s) > 400 {
				s = s[:400] + "..."
			}
			h.samples = append(h.samples, s)
		}
	}
	var msg, stack string
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg = fmt.Sprintf("panic: %v", r)
				stack = string(debug.Stack())
			}
		}()
		msg = f()
	}()
	h.mu.Lock()
	h.curDesc = nil
	h.mu.Unlock()
	if msg != "" {
		h.failed, h.what, h.replay = true, msg, "case: "+desc()+"\n"+stack
		panic(stopT{})
	}
	return true
}

// Dir makes a fresh scratch directory.
func (h *H) Dir() string {
	d, err := os.MkdirTemp(h.Scratch, "d")
	if err != nil {
		panic(err)
	}
	return d
}

func (h *H) Path(dir, n string) string { return filepath.Join(dir, n) }

// Bytes makes a random byte slice with len 0..n, biased to small values.
func (h *H) Bytes(n int) []byte {
	l := h.R.Intn(n + 1)
	b := make([]byte, l)
	small := h.R.Intn(2) == 0
	for i := range b {
		if small {
			b[i] = byte(h.R.Intn(4))
		} else {
			b[i] = byte(h.R.Intn(256))
		}
	}
	return b
}

// U64 makes an integer biased to the borders of the machine widths.
func (h *H) U64() uint64 {
	switch h.R.Intn(4) {
	case 0:
		return h.R.Uint64() >> uint(h.R.Intn(64))
	case 1:
		b := []uint64{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 1<<63 - 1, 1 << 63, 1<<64 - 1}
		return b[h.R.Intn(len(b))] + uint64(h.R.Intn(5)) - 2
	case 2:
		return uint64(1)<<uint(h.R.Intn(64)) + uint64(h.R.Intn(3)) - 1
	}
	return h.R.Uint64()
}
