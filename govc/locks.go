package main

// Mutexes: lock discipline of the functions under contract.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isSync(t types.Type) bool {
	switch typeName(t) {
	case "sync.Mutex", "sync.RWMutex":
		return true
	}
	return false
}

// embKey numbers a field that has an address of its own.
func (e *Eng) embKey(t types.Type, i int) int {
	k := fmt.Sprintf("%s.%d", typeName(t), i)
	if n, ok := e.embs[k]; ok {
		return n
	}
	n := len(e.embs) + 1
	if n >= embK {
		unsup("too many embedded fields")
	}
	e.embs[k] = n
	return n
}

func (e *Eng) heldMap(st *State) *Term { return e.heapGet(st, "G:held", SInt) }

func (e *Eng) setHeld(st *State, r *Term, v int64) {
	h := e.heldMap(st)
	e.noteWrite(st, "G:held", r)
	st.heap["G:held"] = e.c.Store(h, r, e.c.Int(v))
}

// lockOp interprets the operations of sync.Mutex and sync.RWMutex: state 0 free, 1 shared, 2 exclusive.
// Taking a lock that this goroutine holds would block for ever.
func (e *Eng) lockOp(st *State, n string, args []Val, res ssa.Value, pos token.Pos) bool {
	if !strings.HasPrefix(n, "sync.Mutex.") && !strings.HasPrefix(n, "sync.RWMutex.") {
		return false
	}
	op := n[strings.LastIndex(n, ".")+1:]
	m := e.scalar(args[0])
	c := e.c
	cur := c.Select(e.heldMap(st), m)
	var from, to int64
	switch op {
	case "Lock":
		from, to = 0, 2
	case "RLock":
		from, to = 0, 1
	case "Unlock":
		from, to = 2, 0
	case "RUnlock":
		from, to = 1, 0
	default:
		unsup("lock operation %s", n)
	}
	if from == 0 {
		e.need(st, "lock", "the lock is not held already", pos, c.Eq(cur, c.Int(0)))
		e.acquire(st, pos)
		e.shAcquire(st, m, pos)
	} else {
		e.need(st, "lock", "the lock released is held", pos, c.Eq(cur, c.Int(from)))
	}
	e.setHeld(st, m, to)
	if to == 0 {
		e.shRelease(st, m)
	}
	e.setRes(st, res, Tuple{})
	return true
}

// acquire counts critical sections: a guarded operation has exactly one.
func (e *Eng) acquire(st *State, pos token.Pos) {
	st.nacq++
	if e.ct == nil || e.ct.Flags["guarded"] == "" {
		return
	}
	g := e.c.Bool(st.nacq <= 1 && len(st.loops) == 0)
	e.oblige(st, "lock", "one critical section", e.p.Pos(pos), "", g)
}

// guard: an operation with the flag `guarded` touches memory shared with other goroutines only while it holds its lock.
func (e *Eng) guard(st *State, ref *Term, write bool) {
	if e.ct == nil || e.lockOf == nil || e.dry > 0 || st.dead || e.entry == nil || !e.running {
		return
	}
	c := e.c
	if ref != nil {
		if ref.alloc || ref.Kind == kInt {
			return
		}
		if _, ok := e.isStrref(ref); ok {
			return
		}
		if e.freshRef(ref) == c.tru {
			return
		}
	}
	lv := int64(1)
	what := "shared memory is read under the lock"
	if write {
		lv, what = 2, "shared memory is written under the exclusive lock"
	}
	g := c.Le(c.Int(lv), c.Select(e.heldMap(st), e.lockOf))
	if g == c.tru || st.pcset[g] {
		e.oblige(st, "lock", what, "", "", c.tru)
		return
	}
	if ref != nil {
		g = c.Or(g, e.freshRef(ref))
	}
	e.oblige(st, "lock", what, "", "", g)
}

// A shared contract (flag shared=LOCK) speaks of a function that runs beside others doing the same. What the lock
// protects (`shares`) has unknown values whenever the lock is not held, and may be changed only while it is;
// what others may change at any time (`volatile`) gets unknown values, with its invariant (`keeps`),
// when the lock is taken and given back. locked(x) and unlocked(x) are the values at those two points.

func copyHeap(h map[string]*Term) map[string]*Term {
	n := make(map[string]*Term, len(h))
	for k, v := range h {
		n[k] = v
	}
	return n
}

func (e *Eng) interfere(st *State, cl []Clause) {
	w, r := e.checkWr, e.running
	e.checkWr, e.running = false, false
	nt := e.c.Fresh("top", SInt)
	e.assume(st, e.c.Le(st.top, nt))
	st.top = nt
	for _, m := range cl {
		env := &Env{st: st, vars: e.params, ct: e.ct}
		e.havocMods(st, &Contract{Name: e.name, Mod: []Clause{m}}, env)
	}
	e.checkWr, e.running = w, r
}

func (e *Eng) keeps(st *State) {
	for _, k := range e.ct.Keeps {
		e.assume(st, e.evalBool(&Env{st: st, vars: e.params, ct: e.ct}, k.E))
	}
}

// shUnchanged: outside the lock the function itself changes nothing of what is shared.
func (e *Eng) shUnchanged(st *State, pos token.Pos) {
	c := e.c
	env := &Env{st: st, vars: e.params, ct: e.ct}
	for _, m := range e.ct.Shares {
		for _, l := range e.modLoc(env, m.E) {
			if l.off != nil || l.any {
				unsup("shares %s", m.Src)
			}
			a := c.Select(e.heapGet(st, l.fam, l.leaf), l.ref)
			b := c.Select(e.heapGet(&State{heap: st.out}, l.fam, l.leaf), l.ref)
			e.oblige(st, "lock", "changed only under the lock: "+m.Src, e.p.Pos(pos), m.Src, c.Eq(a, b))
		}
	}
}

func (e *Eng) shStart(st *State) {
	if e.ct.Flags["shared"] == "" {
		return
	}
	if e.mergeOn {
		unsup("shared contract with merging")
	}
	pr := &parser{t: lex(e.ct.Flags["shared"], e.ct.Pos)}
	e.shLock = e.ghostKey(e.eval(&Env{st: st, vars: e.params, ct: e.ct}, pr.expr()))
	for _, m := range append(append([]Clause(nil), e.ct.Shares...), e.ct.Volatile...) { // name every location
		for _, l := range e.modLoc(&Env{st: st, vars: e.params, ct: e.ct}, m.E) {
			e.heapGet(st, l.fam, l.leaf)
		}
	}
	st.acq = copyHeap(st.heap)
	st.rel, st.out = st.acq, st.acq
}

func (e *Eng) shAcquire(st *State, m *Term, pos token.Pos) {
	if e.shLock == nil || st.acq == nil || m != e.shLock {
		return
	}
	e.oblige(st, "lock", "one critical section", e.p.Pos(pos), "", e.c.Bool(st.nacq <= 1 && len(st.loops) == 0))
	e.shUnchanged(st, pos)
	e.interfere(st, e.ct.Shares)
	e.interfere(st, e.ct.Volatile)
	e.keeps(st)
	st.acq = copyHeap(st.heap)
}

func (e *Eng) shRelease(st *State, m *Term) {
	if e.shLock == nil || st.acq == nil || m != e.shLock {
		return
	}
	e.interfere(st, e.ct.Volatile)
	e.keeps(st)
	st.rel = copyHeap(st.heap)
	e.interfere(st, e.ct.Shares)
	st.out = copyHeap(st.heap)
}
