package main

import (
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Merging of paths where the arms of a condition meet again (contract flag merge): the differing values become
// fresh constants tied to the arm taken.

type merger struct {
	depth int
	at    *ssa.BasicBlock
	got   []*State
}

// postDom finds the block where all arms of the condition at the end of b meet, when no loop lies between.
func (e *Eng) postDom(b *ssa.BasicBlock) *ssa.BasicBlock {
	if r, ok := e.pdom[b]; ok {
		return r
	}
	fn := b.Parent()
	n := len(fn.Blocks)
	// pd[i]: set of blocks that every way from i to a return passes; blocks that only panic do not count
	all := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1))
	pd := make([]*big.Int, n)
	for i, x := range fn.Blocks {
		pd[i] = all
		if len(x.Succs) == 0 {
			pd[i] = new(big.Int).SetBit(new(big.Int), i, 1)
			if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Panic); ok {
				pd[i] = all
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if len(fn.Blocks[i].Succs) == 0 {
				continue
			}
			s := all
			for _, y := range fn.Blocks[i].Succs {
				s = new(big.Int).And(s, pd[y.Index])
			}
			s = new(big.Int).SetBit(new(big.Int).Set(s), i, 1)
			if s.Cmp(pd[i]) != 0 {
				pd[i] = s
				ch = true
			}
		}
	}
	// the nearest one: reached first in a walk from b
	var r *ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{b: true}
	q := append([]*ssa.BasicBlock{}, b.Succs...)
	lps := e.loops(fn)
	ok := true
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		if pd[b.Index].Bit(x.Index) == 1 {
			if r == nil {
				r = x
			} else if r != x {
				ok = false
			}
			continue
		}
		if lps[x] != nil {
			ok = false
		}
		q = append(q, x.Succs...)
	}
	if !ok || r != nil && lps[r] != nil {
		r = nil
	}
	if seen[nil] {
		r = nil
	}
	e.pdom[b] = r
	return r
}

// arrive: the state has reached the block a merge waits at.
func (e *Eng) arrive(st *State) bool {
	if n := len(e.mergers); n > 0 {
		m := e.mergers[n-1]
		if m.depth == len(st.frames) && st.fr().blk == m.at {
			m.got = append(m.got, st)
			return true
		}
	}
	return false
}

// mergeIf runs the two arms up to the block where they meet.
func (e *Eng) mergeIf(st, s2 *State, at *ssa.BasicBlock, a, b *ssa.BasicBlock) bool {
	m := &merger{depth: len(st.frames), at: at}
	e.mergers = append(e.mergers, m)
	saved := e.work
	for _, x := range []struct {
		s *State
		b *ssa.BasicBlock
	}{{st, a}, {s2, b}} {
		if x.s.dead {
			continue
		}
		cp := x.s
		if cp == st {
			cp = st.clone()
		}
		e.work = nil
		if e.goTo(cp, x.b) {
			e.work = append(e.work, cp)
		}
		for len(e.work) > 0 {
			s := e.work[len(e.work)-1]
			e.work = e.work[:len(e.work)-1]
			for !s.dead {
				e.steps++
				if e.steps > e.maxStep {
					unsup("step limit")
				}
				if !e.step(s) {
					break
				}
			}
		}
	}
	e.work = saved
	e.mergers = e.mergers[:len(e.mergers)-1]
	var out []*State
	for _, s := range m.got {
		if s.dead {
			continue
		}
		done := false
		for i, o := range out {
			if r := e.merge(o, s); r != nil {
				out[i], done = r, true
				break
			}
		}
		if !done {
			out = append(out, s)
		}
	}
	if len(out) == 0 {
		st.dead = true
		return false
	}
	for _, o := range out[1:] {
		if !e.arrive(o) {
			e.fork(o)
		}
	}
	*st = *out[0]
	if e.arrive(st) {
		c := *st
		e.mergers[len(e.mergers)-1].got[len(e.mergers[len(e.mergers)-1].got)-1] = &c
		return false
	}
	return true
}

type cantMerge struct{}

func (e *Eng) merge(a, b *State) (r *State) {
	c := e.c
	if len(a.frames) != len(b.frames) || a.nacq != b.nacq || len(a.loops) != len(b.loops) {
		return nil
	}
	for i := range a.loops {
		if a.loops[i] != b.loops[i] {
			return nil
		}
	}
	for i, f := range a.frames {
		g := b.frames[i]
		if f.fn != g.fn || f.blk != g.blk || f.pc != g.pc || len(f.defers) != len(g.defers) {
			return nil
		}
	}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(cantMerge); ok {
				r = nil
				return
			}
			panic(x)
		}
	}()
	// path facts
	var common, ao, bo []*Term
	for _, t := range a.pc {
		if b.pcset[t] {
			common = append(common, t)
		} else {
			ao = append(ao, t)
		}
	}
	for _, t := range b.pc {
		if !a.pcset[t] {
			bo = append(bo, t)
		}
	}
	var g *Term
	for _, t := range ao {
		if b.pcset[c.Not(t)] {
			g = t
			break
		}
	}
	if g == nil {
		return nil
	}
	n := a.clone()
	n.pc, n.pcset, n.iv = nil, map[*Term]bool{}, map[*Term]Interval{}
	for k, x := range a.iv {
		y, ok := b.iv[k]
		if !ok {
			continue
		}
		var z Interval
		if x.lo != nil && y.lo != nil {
			z.lo = x.lo
			if y.lo.Cmp(z.lo) < 0 {
				z.lo = y.lo
			}
		}
		if x.hi != nil && y.hi != nil {
			z.hi = x.hi
			if y.hi.Cmp(z.hi) > 0 {
				z.hi = y.hi
			}
		}
		n.iv[k] = z
	}
	for _, t := range common {
		n.pc = append(n.pc, t)
		n.pcset[t] = true
	}
	mk := &mixer{e: e, a: a, b: b, n: n, g: g, memo: map[[2]*Term]*Term{}}
	for _, t := range ao {
		if t != g {
			mk.fact(g, t)
		}
	}
	for _, t := range bo {
		if t != c.Not(g) {
			mk.fact(c.Not(g), t)
		}
	}
	if a.top != b.top {
		n.top = mk.term(a.top, b.top)
	}
	for i, f := range n.frames {
		h := b.frames[i]
		for k, v := range f.regs {
			w, ok := h.regs[k]
			if !ok {
				delete(f.regs, k)
				continue
			}
			if in, ok2 := k.(ssa.Instruction); ok2 && i == len(n.frames)-1 {
				if d := in.Block(); d != nil && d != f.blk && !d.Dominates(f.blk) {
					delete(f.regs, k) // not usable here
					continue
				}
			}
			f.regs[k] = mk.val(v, w)
		}
	}
	fams := map[string]bool{}
	for k := range a.heap {
		fams[k] = true
	}
	for k := range b.heap {
		fams[k] = true
	}
	for k := range fams {
		x, ok1 := a.heap[k]
		y, ok2 := b.heap[k]
		if !ok1 {
			x = e.base0[k]
		}
		if !ok2 {
			y = e.base0[k]
		}
		if x == nil || y == nil {
			panic(cantMerge{})
		}
		if x != y && !strings.HasPrefix(k, "C:") {
			panic(cantMerge{}) // shared memory differs: two paths are easier to reason about
		}
		mk.fam = k
		n.heap[k] = mk.term(x, y)
	}
	mk.fam = ""
	for k, x := range a.ghost {
		y, ok := b.ghost[k]
		if !ok {
			panic(cantMerge{})
		}
		n.ghost[k] = mk.term(x, y)
	}
	for k := range b.ghost {
		if _, ok := a.ghost[k]; !ok {
			panic(cantMerge{})
		}
	}
	var tr []string
	for i, s := range a.trace {
		if i >= len(b.trace) || b.trace[i] != s {
			break
		}
		tr = append(tr, s)
	}
	n.trace = append(tr, "either way")
	return n
}

type mixer struct {
	e       *Eng
	a, b, n *State
	g       *Term
	fam     string
	memo    map[[2]*Term]*Term
}

func (m *mixer) fact(g, t *Term) { m.e.assume(m.n, m.e.c.Imp(g, t)) }

func (m *mixer) val(v, w Val) Val {
	switch x := v.(type) {
	case *Term:
		y, ok := w.(*Term)
		if !ok || x.Sort != y.Sort {
			panic(cantMerge{})
		}
		return m.term(x, y)
	case *VStruct:
		y, ok := w.(*VStruct)
		if !ok || len(x.f) != len(y.f) {
			panic(cantMerge{})
		}
		r := &VStruct{typ: x.typ}
		for i := range x.f {
			r.f = append(r.f, m.val(x.f[i], y.f[i]))
		}
		return r
	case Tuple:
		y, ok := w.(Tuple)
		if !ok || len(x) != len(y) {
			panic(cantMerge{})
		}
		var r Tuple
		for i := range x {
			r = append(r, m.val(x[i], y[i]))
		}
		return r
	case *VArr:
		y, ok := w.(*VArr)
		if !ok || x.off != y.off {
			panic(cantMerge{})
		}
		return &VArr{row: m.term(x.row, y.row), off: x.off, typ: x.typ}
	case *Ptr:
		y, ok := w.(*Ptr)
		if !ok || x.fam != y.fam {
			panic(cantMerge{})
		}
		return &Ptr{fam: x.fam, ref: m.term(x.ref, y.ref), idx: m.opt(x.idx, y.idx), typ: x.typ}
	case *Clo:
		y, ok := w.(*Clo)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			panic(cantMerge{})
		}
		r := &Clo{fn: x.fn}
		for i := range x.binds {
			r.binds = append(r.binds, m.val(x.binds[i], y.binds[i]))
		}
		return r
	}
	if v == w {
		return v
	}
	panic(cantMerge{})
}

func (m *mixer) opt(a, b *Term) *Term {
	if a == nil && b == nil {
		return nil
	}
	if a == nil || b == nil {
		panic(cantMerge{})
	}
	return m.term(a, b)
}

func (m *mixer) term(a, b *Term) *Term {
	c := m.e.c
	if a == b {
		return a
	}
	if r, ok := m.memo[[2]*Term{a, b}]; ok {
		return r
	}
	r := m.term1(a, b)
	_ = c
	m.memo[[2]*Term{a, b}] = r
	return r
}

func (m *mixer) term1(a, b *Term) *Term {
	c := m.e.c
	g := m.g
	switch a.Sort {
	case SBool:
		return c.And(c.Imp(g, a), c.Imp(c.Not(g), b))
	case SSlice:
		return c.MkSlice(m.term(c.SRef(a), c.SRef(b)), m.term(c.SOff(a), c.SOff(b)), m.term(c.SLen(a), c.SLen(b)), m.term(c.SCap(a), c.SCap(b)))
	case SIface:
		return c.MkIface(m.term(c.ITag(a), c.ITag(b)), m.term(c.IVal(a), c.IVal(b)))
	}
	if base, refs := commonBase(a, b); base != nil {
		r := base
		for _, x := range refs {
			r = c.Store(r, x, m.term(c.Select(a, x), c.Select(b, x)))
		}
		return r
	}
	x := c.Fresh("either", a.Sort)
	switch a.Sort {
	case SInt:
		ia, ok1 := c.ival(a, m.a.iv)
		ib, ok2 := c.ival(b, m.b.iv)
		if ok1 && ok2 {
			var lo, hi *big.Int
			if ia.lo != nil && ib.lo != nil {
				lo = ia.lo
				if ib.lo.Cmp(lo) < 0 {
					lo = ib.lo
				}
			}
			if ia.hi != nil && ib.hi != nil {
				hi = ia.hi
				if ib.hi.Cmp(hi) > 0 {
					hi = ib.hi
				}
			}
			c.SetRange(x, lo, hi)
		}
	case SStr:
		c.SetRange(c.Len(x), new(big.Int), maxLen)
	default:
		if m.fam == "E:u8" {
			c.markBytes(x)
		}
	}
	m.fact(g, c.Eq(x, a))
	m.fact(c.Not(g), c.Eq(x, b))
	return x
}

// commonBase of two chains of stores, with the places where they may differ.
func commonBase(a, b *Term) (*Term, []*Term) {
	in := map[*Term]bool{}
	for t := a; ; t = t.Args[0] {
		in[t] = true
		if !(t.Kind == kApp && t.Op == "store") {
			break
		}
	}
	base := b
	for !in[base] {
		if !(base.Kind == kApp && base.Op == "store") {
			return nil, nil
		}
		base = base.Args[0]
	}
	var refs []*Term
	seen := map[*Term]bool{}
	for _, t := range []*Term{a, b} {
		for ; t != base; t = t.Args[0] {
			if !seen[t.Args[1]] {
				seen[t.Args[1]] = true
				refs = append(refs, t.Args[1])
			}
		}
	}
	return base, refs
}
