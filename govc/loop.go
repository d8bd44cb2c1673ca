package main

// Loops: cut at the header, write-set discovery, Houdini invariant inference, termination measures.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	mapr bool // iteration over a map
}

type LoopRec struct {
	loop  *Loop
	depth int
	name  string
	clock int
	topL  *Term
	meas  bool
}

func (e *Eng) loops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if m, ok := e.loopsOf[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				l := m[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	for _, l := range m {
		for b := range l.body {
			for _, in := range b.Instrs {
				if n, ok := in.(*ssa.Next); ok && !n.IsString {
					l.mapr = true
				}
			}
		}
	}
	e.loopsOf[fn] = m
	return m
}

// WriteSet of a loop body.
type WriteSet struct {
	rec    *LoopRec
	rows   map[string]map[*Term]bool
	whole  map[string]bool // families written at refs that vary
	grew   bool
	onVary func(st *State, fam string, ref *Term)
}

func (w *WriteSet) add(e *Eng, st *State, fam string, ref *Term) {
	if ref == nil { // whole family
		if !w.whole[fam] {
			w.whole[fam] = true
			w.grew = true
		}
		if w.onVary != nil {
			w.onVary(st, fam, nil)
		}
		return
	}
	if ref.birth > w.rec.clock {
		if ref.alloc {
			return // object of this iteration
		}
		if r, _, ok := e.c.unEmb(ref); ok && r.alloc {
			return
		}
		if !w.whole[fam] {
			w.whole[fam] = true
			w.grew = true
		}
		if w.onVary != nil {
			w.onVary(st, fam, ref)
		}
		return
	}
	m := w.rows[fam]
	if m == nil {
		m = map[*Term]bool{}
		w.rows[fam] = m
	}
	if !m[ref] {
		m[ref] = true
		w.grew = true
	}
}

type LoopVar struct {
	name string
	sort string
	typ  types.Type
	phi  *ssa.Phi
	fam  string
	ref  *Term
	fix  *Term // the same throughout the loop
	made bool  // a slice made before the loop
}

func (v *LoopVar) get(e *Eng, st *State, f *Frame) *Term {
	if v.fix != nil {
		return v.fix
	}
	if v.phi != nil {
		t, _ := f.regs[v.phi].(*Term)
		return t
	}
	return e.c.Select(e.heapGet(st, v.fam, ""), v.ref)
}

type Cand struct {
	desc string
	eval func(st *State, f *Frame) (*Term, bool)
	conf string // family confined
}

func (w *WriteSet) famList() []string {
	s := map[string]bool{}
	for k := range w.rows {
		s[k] = true
	}
	for k := range w.whole {
		s[k] = true
	}
	var out []string
	for k := range s {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedRefs(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (e *Eng) makeHead(st *State, rec *LoopRec, w *WriteSet, cands []*Cand, keep map[*ssa.Phi]bool) *State {
	c := e.c
	hs := st.clone()
	f := hs.fr()
	rec.clock = c.clock
	rec.topL = st.top
	nt := c.Fresh("top", SInt)
	hs.top = nt
	e.assume(hs, c.Le(st.top, nt))
	// phis
	for _, in := range rec.loop.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if keep[ph] {
			continue
		}
		name := ph.Comment
		if name == "" {
			name = ph.Name()
		}
		f.regs[ph] = e.symVal(hs, name, ph.Type(), true)
	}
	// heap
	for _, fam := range w.famList() {
		h, ok := hs.heap[fam]
		if !ok {
			h = e.heapGet(hs, fam, "")
		}
		if w.whole[fam] {
			n := c.Fresh(mangle(fam), h.Sort)
			if fam == "E:u8" {
				c.markBytes(n)
			}
			// frame: rows of older objects keep their content
			for _, cd := range cands {
				if cd.conf == fam {
					r := c.BoundVar("r", SInt)
					conds := []*Term{c.Le(r, rec.topL)}
					for _, x := range sortedRefs(w.rows[fam]) {
						conds = append(conds, c.Not(c.Eq(r, x)))
					}
					s := c.Select(n, r)
					e.assume(hs, c.Forall([]*Term{r}, c.Imp(c.And(conds...), c.Eq(s, c.Select(h, r))), []*Term{s}))
				}
			}
			hs.heap[fam] = n
			e.noteWrite(hs, fam, nil)
			continue
		}
		for _, r := range sortedRefs(w.rows[fam]) {
			x := c.Fresh(mangle(fam)+"_row", c.elemSort(h.Sort))
			if fam == "E:u8" {
				c.markBytes(x)
			}
			e.typeRow(hs, fam, x)
			h = c.Store(h, r, x)
			e.noteWrite(hs, fam, r)
		}
		hs.heap[fam] = h
	}
	for _, cd := range cands {
		if cd.eval == nil {
			continue
		}
		if t, ok := cd.eval(hs, f); ok {
			e.assume(hs, t)
		}
	}
	return hs
}

// typeRow gives a havocked row its type range.
func (e *Eng) typeRow(st *State, fam string, x *Term) {
	if t, ok := e.famType(fam); ok {
		e.typed(st, x, t)
	}
}

// famType finds the Go type stored in a field or cell family.
func (e *Eng) famType(fam string) (types.Type, bool) {
	t, ok := e.famTypes[fam]
	return t, ok
}

func (e *Eng) explore(hs *State, rec *LoopRec, w *WriteSet, onBack func(st *State)) {
	s1, s2 := e.stopAt, e.onBack
	e.stopAt, e.onBack = rec, onBack
	e.dry++
	e.collect = append(e.collect, w)
	hs.loops = append(hs.loops, rec)
	func() {
		defer func() {
			e.collect = e.collect[:len(e.collect)-1]
			e.dry--
			e.stopAt, e.onBack = s1, s2
		}()
		e.run(hs)
	}()
}

func (e *Eng) enterLoop(st *State, lp *Loop) bool {
	c := e.c
	f := st.fr()
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > 6 {
		unsup("loop nesting")
	}
	e.loopNo++
	rec := &LoopRec{loop: lp, depth: len(st.frames), name: fmt.Sprintf("loop at %s", e.p.Pos(loopPos(lp)))}
	w := &WriteSet{rec: rec, rows: map[string]map[*Term]bool{}, whole: map[string]bool{}}
	// phis that hold executor-level values must be invariant
	keep := map[*ssa.Phi]bool{}
	init := map[*ssa.Phi]Val{}
	var phis []*ssa.Phi
	for _, in := range lp.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		init[ph] = f.regs[ph]
		switch f.regs[ph].(type) {
		case *Term, *VStruct, Tuple:
		default:
			keep[ph] = true
		}
	}
	// write set and invariant phis
	for round := 0; ; round++ {
		if round > 8 {
			unsup("write set does not stabilise")
		}
		w.grew = false
		hs := e.makeHead(st, rec, w, nil, keep)
		hf := hs.fr()
		headv := map[*ssa.Phi]Val{}
		for _, ph := range phis {
			headv[ph] = hf.regs[ph]
		}
		e.explore(hs, rec, w, func(b *State) {
			for _, ph := range phis {
				if keep[ph] && b.fr().regs[ph] != init[ph] {
					unsup("pointer varies in a loop")
				}
			}
		})
		if !w.grew {
			break
		}
	}
	if w.rows != nil && e.collectGhost(st, w) {
		// nothing: ghost families are ordinary families
	}
	// variables
	var vars []*LoopVar
	for _, ph := range phis {
		if keep[ph] {
			continue
		}
		if t, ok := init[ph].(*Term); ok {
			vars = append(vars, &LoopVar{name: ph.Comment + ":" + ph.Name(), sort: t.Sort, typ: ph.Type(), phi: ph})
		}
	}
	for _, fam := range w.famList() {
		if w.whole[fam] || strings.HasPrefix(fam, "E:") || strings.HasPrefix(fam, "M:") {
			continue
		}
		for _, r := range sortedRefs(w.rows[fam]) {
			t, _ := e.famType(fam)
			if st.heap[fam] == nil {
				e.heapGet(st, fam, c.elemSort(e.famSort[fam]))
			}
			vars = append(vars, &LoopVar{name: fam, sort: c.elemSort(st.heap[fam].Sort), typ: t, fam: fam, ref: r})
		}
	}
	cands := e.candidates(st, rec, w, vars, init)
	// initial filter
	var qs []*Query
	var idx []*Cand
	var live []*Cand
	for _, cd := range cands {
		if cd.eval == nil {
			live = append(live, cd)
			continue
		}
		t, ok := cd.eval(st, f)
		if !ok || t == c.fls {
			continue
		}
		if t == c.tru || st.pcset[t] {
			live = append(live, cd)
			continue
		}
		q := e.query(st.pc, st.iv, t)
		q.label = cd.desc
		qs = append(qs, q)
		idx = append(idx, cd)
	}
	for i, ok := range e.sv.Batch(qs, e.houdT) {
		if ok {
			live = append(live, idx[i])
		}
	}
	if e.verbose {
		fmt.Printf("  [%s] %s: %d candidates, %d hold initially, writes %v whole %v\n", e.name, rec.name, len(cands), len(live), w.famList(), keysB(w.whole))
	}
	var backs []*State
	var hs *State
	for round := 0; ; round++ {
		if round > 60 {
			unsup("invariant inference does not converge")
		}
		e.houds++
		backs = nil
		bad := map[string]bool{}
		w.grew = false
		hs = e.makeHead(st, rec, w, live, keep)
		w.onVary = func(b *State, fam string, ref *Term) {
			if bad[fam] {
				return
			}
			if ref == nil {
				// a nested loop or call wrote the family at unknown rows
				bad[fam] = !e.nestedConfined(b, fam)
				return
			}
			goal := []*Term{c.Lt(rec.topL, ref)}
			for _, x := range sortedRefs(w.rows[fam]) {
				goal = append(goal, c.Eq(ref, x))
			}
			if !e.sv.Prove(e.query(b.pc, b.iv, c.Or(goal...)), e.houdT) {
				bad[fam] = true
			}
		}
		head := hs.clone()
		e.explore(hs.clone(), rec, w, func(b *State) { backs = append(backs, b) })
		w.onVary = nil
		if w.grew {
			// can happen when pruning differs; start over with the larger set
			if e.verbose {
				fmt.Println("   write set grew")
			}
			st2 := st
			_ = st2
			unsup("write set grew during inference")
		}
		_ = head
		removed := false
		var next []*Cand
		var qs []*Query
		var owner []int
		fail := make([]bool, len(live))
		for i, cd := range live {
			if cd.conf != "" {
				if bad[cd.conf] {
					fail[i] = true
				}
				continue
			}
			for _, b := range backs {
				t, ok := cd.eval(b, b.fr())
				if !ok || t == c.fls {
					fail[i] = true
					break
				}
				if t == c.tru || b.pcset[t] {
					continue
				}
				q := e.query(b.pc, b.iv, t)
				q.label = cd.desc
				qs = append(qs, q)
				owner = append(owner, i)
			}
		}
		for j, ok := range e.sv.BatchSkip(qs, e.houdT, func(j int) bool { return fail[owner[j]] }, func(j int) { fail[owner[j]] = true }) {
			if !ok {
				fail[owner[j]] = true
			}
		}
		for i, cd := range live {
			if fail[i] {
				removed = true
				if e.verbose {
					fmt.Printf("   - drop %s\n", cd.desc)
				}
			} else {
				next = append(next, cd)
			}
		}
		live = next
		if !removed {
			break
		}
	}
	if e.verbose {
		for _, cd := range live {
			fmt.Printf("   + inv %s\n", cd.desc)
		}
	}
	e.invUsed += len(live)
	// termination
	hsv := hs
	rec.meas = lp.mapr || len(backs) == 0
	var mdesc string
	if !rec.meas {
		mdesc = e.findMeasure(st, rec, vars, hsv, backs, init)
		rec.meas = mdesc != ""
	}
	if e.dry == 0 {
		for _, cd := range live {
			e.obls = append(e.obls, &Oblig{Fn: e.name, Kind: "inv", Label: rec.name, Src: cd.desc, Goal: c.tru})
		}
		if rec.meas {
			e.obls = append(e.obls, &Oblig{Fn: e.name, Kind: "measure", Label: rec.name, Src: mdesc, Goal: c.tru})
		} else {
			e.oblige(st, "measure", rec.name+" terminates", e.p.Pos(loopPos(lp)), "", c.fls)
		}
	}
	fs := e.makeHead(st, rec, w, live, keep)
	fs.loops = append(fs.loops, rec)
	fs.trace = append(fs.trace, rec.name+": arbitrary iteration")
	*st = *fs
	return !st.dead
}

func keysB(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func (e *Eng) nestedConfined(b *State, fam string) bool {
	// frames of inner loops are stated relative to their own entry; they are confined to
	// newer objects exactly when the inner loop kept its own confinement.
	return e.innerConf[fam]
}

func (e *Eng) collectGhost(st *State, w *WriteSet) bool { return false }

func loopPos(l *Loop) (p tokenPos) {
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, b := range l.head.Parent().Blocks {
		if l.body[b] {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					return in.Pos()
				}
			}
		}
	}
	return 0
}

func (e *Eng) backEdge(st *State, r *LoopRec) {}

// candidates: instances of the global templates and of the contract's inv templates.
func (e *Eng) candidates(st *State, rec *LoopRec, w *WriteSet, vars []*LoopVar, init map[*ssa.Phi]Val) []*Cand {
	c := e.c
	f := st.fr()
	var out []*Cand
	seen := map[string]bool{}
	add := func(desc string, ev func(st *State, f *Frame) (*Term, bool)) {
		if seen[desc] {
			return
		}
		seen[desc] = true
		out = append(out, &Cand{desc: desc, eval: ev})
	}
	for fam := range w.whole {
		out = append(out, &Cand{desc: "confined " + fam, conf: fam})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].desc < out[j].desc })
	var ints, bools, slices []*LoopVar
	for _, v := range vars {
		switch v.sort {
		case SInt:
			if v.typ == nil {
				ints = append(ints, v)
			} else if _, ok := basicInt(v.typ); ok {
				ints = append(ints, v)
			}
		case SBool:
			bools = append(bools, v)
		case SSlice:
			slices = append(slices, v)
		}
	}
	// bounds
	type bound struct {
		d string
		t *Term
	}
	var bounds []bound
	bs := map[*Term]bool{}
	addB := func(d string, t *Term) {
		if t != nil && t.Sort == SInt && !bs[t] {
			bs[t] = true
			bounds = append(bounds, bound{d, t})
		}
	}
	addLen := func(d string, v Val) {
		if t, ok := v.(*Term); ok {
			if t.Sort == SSlice {
				addB("len("+d+")", c.SLen(t))
			} else if t.Sort == SStr {
				addB("len("+d+")", c.Len(t))
			}
		}
	}
	for _, p := range f.fn.Params {
		addLen(p.Name(), f.regs[p])
	}
	for b := range rec.loop.body {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				for _, o := range []ssa.Value{bo.X, bo.Y} {
					if _, ok := basicInt(o.Type()); !ok {
						continue
					}
					if k, ok := o.(*ssa.Const); ok {
						if t, ok := e.constVal(k).(*Term); ok {
							addB(c.Str(t), t)
						}
					} else if in2, ok := o.(ssa.Instruction); ok && rec.loop.body[in2.Block()] {
						continue
					} else if v, ok := f.regs[o]; ok {
						if t, ok := v.(*Term); ok {
							addB(o.Name(), t)
						}
					}
				}
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if v, ok := f.regs[*op]; ok {
					if in2, ok := (*op).(ssa.Instruction); ok && rec.loop.body[in2.Block()] {
						continue
					}
					addLen((*op).Name(), v)
				}
			}
		}
	}
	// lengths of slices held beside written fields
	for _, v := range vars {
		if v.ref == nil {
			continue
		}
		for _, fam := range sortedKeys(st.heap) {
			if strings.HasPrefix(fam, "F:") && c.elemSort(st.heap[fam].Sort) == SSlice && !w.whole[fam] && !w.rows[fam][v.ref] {
				t := c.Select(st.heap[fam], v.ref)
				if t.Op == "select" && t.Args[0] == e.base0[fam] {
					continue
				}
				addB("len("+fam+")", c.SLen(t))
			}
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].t.id < bounds[j].t.id })
	get := func(v *LoopVar) func(st *State, f *Frame) *Term {
		return func(st *State, f *Frame) *Term { return v.get(e, st, f) }
	}
	for _, v := range ints {
		g := get(v)
		v0 := g(st, f)
		add(v.name+" == init", func(st *State, f *Frame) (*Term, bool) { return c.Eq(g(st, f), v0), true })
		add(v.name+" >= init", func(st *State, f *Frame) (*Term, bool) { return c.Le(v0, g(st, f)), true })
		add(v.name+" <= init", func(st *State, f *Frame) (*Term, bool) { return c.Le(g(st, f), v0), true })
		for _, k := range []int64{0, -1} {
			k := k
			add(fmt.Sprintf("%s >= %d", v.name, k), func(st *State, f *Frame) (*Term, bool) { return c.Le(c.Int(k), g(st, f)), true })
		}
		if e.simple { // only the contract's own pairs and bounds
			continue
		}
		for _, b := range bounds {
			b := b
			add(v.name+" <= "+b.d, func(st *State, f *Frame) (*Term, bool) { return c.Le(g(st, f), b.t), true })
			add(v.name+" < "+b.d, func(st *State, f *Frame) (*Term, bool) { return c.Lt(g(st, f), b.t), true })
			if b.t.Kind == kInt {
				add(v.name+" >= "+b.d, func(st *State, f *Frame) (*Term, bool) { return c.Le(b.t, g(st, f)), true })
				add(v.name+" != "+b.d, func(st *State, f *Frame) (*Term, bool) { return c.Not(c.Eq(g(st, f), b.t)), true })
			}
		}
		for _, u := range ints {
			if u == v {
				continue
			}
			h := get(u)
			u0 := h(st, f)
			add(v.name+" <= "+u.name, func(st *State, f *Frame) (*Term, bool) { return c.Le(g(st, f), h(st, f)), true })
			add(v.name+" < "+u.name, func(st *State, f *Frame) (*Term, bool) { return c.Lt(g(st, f), h(st, f)), true })
			add(v.name+" - init <= "+u.name+" - init", func(st *State, f *Frame) (*Term, bool) {
				return c.Le(c.Sub(g(st, f), v0), c.Sub(h(st, f), u0)), true
			})
			if v.name < u.name {
				add(v.name+" - "+u.name+" == init", func(st *State, f *Frame) (*Term, bool) {
					return c.Eq(c.Sub(g(st, f), h(st, f)), c.Sub(v0, u0)), true
				})
				add(v.name+" + "+u.name+" == init", func(st *State, f *Frame) (*Term, bool) {
					return c.Eq(c.Add(g(st, f), h(st, f)), c.Add(v0, u0)), true
				})
			}
		}
	}
	for _, v := range vars {
		if v.sort == SInt && len(ints) > 0 {
			isInt := false
			for _, u := range ints {
				if u == v {
					isInt = true
				}
			}
			if isInt {
				continue
			}
		}
		g := get(v)
		v0 := g(st, f)
		add(v.name+" == init", func(st *State, f *Frame) (*Term, bool) { return c.Eq(g(st, f), v0), true })
		if v.sort == SIface {
			add(v.name+" == nil", func(st *State, f *Frame) (*Term, bool) { return c.Eq(g(st, f), c.NilIface()), true })
		}
		if v.sort == SInt { // reference
			add(v.name+" fresh", func(st *State, f *Frame) (*Term, bool) { return c.Lt(rec.topL, g(st, f)), true })
			add(v.name+" nil or fresh", func(st *State, f *Frame) (*Term, bool) {
				return c.Or(c.Eq(g(st, f), c.Int(0)), c.Lt(rec.topL, g(st, f))), true
			})
			add(v.name+" is nil", func(st *State, f *Frame) (*Term, bool) { return c.Eq(g(st, f), c.Int(0)), true })
		}
	}
	et := e.entryTop
	for _, s := range slices {
		g := get(s)
		s0 := g(st, f)
		same := func(st *State, f *Frame) *Term { return c.Eq(g(st, f), s0) }
		frsh := func(st *State, f *Frame) *Term {
			return c.And(c.Lt(rec.topL, c.SRef(g(st, f))), c.Not(e.isRO(c.SRef(g(st, f)))))
		}
		add(s.name+" fresh", func(st *State, f *Frame) (*Term, bool) { return frsh(st, f), true })
		add(s.name+" same ref", func(st *State, f *Frame) (*Term, bool) { return c.Eq(c.SRef(g(st, f)), c.SRef(s0)), true })
		add(s.name+" same or fresh", func(st *State, f *Frame) (*Term, bool) {
			return c.Or(c.Eq(c.SRef(g(st, f)), c.SRef(s0)), frsh(st, f)), true
		})
		if et != nil {
			add(s.name+" since entry", func(st *State, f *Frame) (*Term, bool) { return c.Lt(et, c.SRef(g(st, f))), true })
			add(s.name+" empty or since entry", func(st *State, f *Frame) (*Term, bool) {
				return c.Or(c.And(c.Eq(c.SRef(g(st, f)), c.Int(0)), c.Eq(c.SCap(g(st, f)), c.Int(0))), c.Lt(et, c.SRef(g(st, f)))), true
			})
		}
		add(s.name+" same len", func(st *State, f *Frame) (*Term, bool) { return c.Eq(c.SLen(g(st, f)), c.SLen(s0)), true })
		add(s.name+" off 0", func(st *State, f *Frame) (*Term, bool) { return c.Eq(c.SOff(g(st, f)), c.Int(0)), true })
		add(s.name+" same off", func(st *State, f *Frame) (*Term, bool) { return c.Eq(c.SOff(g(st, f)), c.SOff(s0)), true })
		for _, b := range bools {
			bg := get(b)
			add(b.name+" => "+s.name+" fresh", func(st *State, f *Frame) (*Term, bool) { return c.Imp(bg(st, f), frsh(st, f)), true })
			add("!"+b.name+" => "+s.name+" same", func(st *State, f *Frame) (*Term, bool) { return c.Imp(c.Not(bg(st, f)), same(st, f)), true })
			add(b.name+" => "+s.name+" same", func(st *State, f *Frame) (*Term, bool) { return c.Imp(bg(st, f), same(st, f)), true })
			add("!"+b.name+" => "+s.name+" fresh", func(st *State, f *Frame) (*Term, bool) { return c.Imp(c.Not(bg(st, f)), frsh(st, f)), true })
			add(b.name+" => "+s.name+" off 0", func(st *State, f *Frame) (*Term, bool) {
				return c.Imp(bg(st, f), c.Eq(c.SOff(g(st, f)), c.Int(0))), true
			})
		}
	}
	// contract templates
	if e.ct != nil {
		for _, iv := range e.ct.Inv {
			e.instTemplates(false, iv, append(vars[:len(vars):len(vars)], e.fixedVars(st, w, vars)...), st, rec, func(desc string, ev func(st *State, f *Frame) (*Term, bool)) { add(desc, ev) })
		}
	}
	return out
}

// fixedVars: what a template may also speak of: counters of the loops around and local maps.
func (e *Eng) fixedVars(st *State, w *WriteSet, vars []*LoopVar) []*LoopVar {
	var out []*LoopVar
	seen := map[*Term]bool{}
	for _, l := range st.loops {
		if l.depth < 1 || l.depth > len(st.frames) || l == w.rec {
			continue
		}
		fr := st.frames[l.depth-1]
		for _, in := range l.loop.head.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if _, ok := basicInt(ph.Type()); !ok {
				continue
			}
			if t, ok := fr.regs[ph].(*Term); ok && t.Sort == SInt && !seen[t] {
				seen[t] = true
				out = append(out, &LoopVar{name: "outer " + ph.Name(), sort: SInt, typ: ph.Type(), fix: t})
			}
		}
	}
	type cand struct {
		n string
		v *LoopVar
	}
	var ms []cand
	for _, fr := range st.frames {
		for k, v := range fr.regs {
			t, ok := v.(*Term)
			if !ok {
				continue
			}
			if al, ok := k.(*ssa.Alloc); ok {
				et := al.Type().Underlying().(*types.Pointer).Elem()
				if _, ok := et.Underlying().(*types.Map); !ok || w.whole[cellFam(et)] || w.rows[cellFam(et)][t] {
					continue
				}
				x, ok := e.load(st, t, et).(*Term)
				if ok {
					ms = append(ms, cand{fr.fn.Name() + "." + k.Name(), &LoopVar{name: "map " + k.Name(), sort: SInt, typ: et, fix: x}})
				}
				continue
			}
			switch k.(type) {
			case *ssa.MakeSlice, *ssa.Slice:
				if t.Sort == SSlice {
					ms = append(ms, cand{fr.fn.Name() + "." + k.Name(), &LoopVar{name: "slice " + k.Name(), sort: SSlice, typ: k.Type(), fix: t, made: true}})
				}
				continue
			}
			if _, ok := k.Type().Underlying().(*types.Map); ok {
				ms = append(ms, cand{fr.fn.Name() + "." + k.Name(), &LoopVar{name: "map " + k.Name(), sort: SInt, typ: k.Type(), fix: t}})
			}
		}
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].n < ms[j].n })
	for _, m := range ms {
		if !seen[m.v.fix] {
			seen[m.v.fix] = true
			out = append(out, m.v)
		}
	}
	return out
}

// hasVar: the function has a variable of that name that changes in some loop.
func hasVar(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && ph.Comment == name {
				return true
			}
		}
	}
	return false
}

func (e *Eng) instTemplates(num bool, cl Clause, vars []*LoopVar, st *State, rec *LoopRec, add func(string, func(*State, *Frame) (*Term, bool))) {
	var rec2 func(i int, bind []*LoopVar)
	n := len(cl.Vars)
	rec2 = func(i int, bind []*LoopVar) {
		if i == n {
			b := append([]*LoopVar(nil), bind...)
			d := cl.Src
			for k, v := range b {
				d += fmt.Sprintf(" [%s:=%s]", cl.Vars[k].Name, v.name)
			}
			add(d, func(st *State, f *Frame) (t *Term, ok bool) {
				defer func() {
					if r := recover(); r != nil {
						if se, is := r.(specErr); is {
							if e.verbose {
								fmt.Println("   template skipped:", se.msg)
							}
							t, ok = nil, false
							return
						}
						panic(r)
					}
				}()
				env := e.baseEnv(st)
				env.frame = f
				env.topL = rec.topL
				for k, v := range b {
					t := v.get(e, st, f)
					env.vars[cl.Vars[k].Name] = &SVal{t: t, typ: v.typ}
				}
				if num {
					return e.eval(env, cl.E).t, true
				}
				return e.evalBool(env, cl.E), true
			})
			return
		}
		want := cl.Vars[i].Sort
		named := "" // a name with an underscore at its end means the variable of that name, if there is one
		if nm := cl.Vars[i].Name; strings.HasSuffix(nm, "_") {
			for _, v := range vars {
				if s, _, ok := strings.Cut(v.name, ":"); ok && s+"_" == nm {
					named = s
				}
			}
			if named == "" && hasVar(rec.loop.head.Parent(), nm[:len(nm)-1]) { // of another loop
				return
			}
		}
		for _, v := range vars {
			if named != "" && !strings.HasPrefix(v.name, named+":") {
				continue
			}
			if v.made && !strings.HasSuffix(cl.Vars[i].Name, "_") {
				continue
			}
			if want == "GoMap" {
				if v.typ == nil {
					continue
				}
				if _, ok := v.typ.Underlying().(*types.Map); !ok {
					continue
				}
			} else if v.sort != want {
				continue
			}
			if want == SInt && v.typ != nil {
				if _, ok := basicInt(v.typ); !ok {
					continue
				}
			}
			dup := false
			for _, u := range bind {
				if u == v {
					dup = true
				}
			}
			if !dup {
				rec2(i+1, append(bind, v))
			}
		}
	}
	rec2(0, nil)
}

func (e *Eng) findMeasure(st *State, rec *LoopRec, vars []*LoopVar, hs *State, backs []*State, init map[*ssa.Phi]Val) string {
	c := e.c
	hf := hs.fr()
	var ms []*Cand
	var ints []*LoopVar
	for _, v := range vars {
		if v.sort == SInt {
			if v.typ != nil {
				if _, ok := basicInt(v.typ); !ok {
					continue
				}
			}
			ints = append(ints, v)
		}
	}
	for _, m := range e.ctMeasures() {
		m := m
		ms = append(ms, &Cand{desc: "measure", eval: func(st *State, f *Frame) (t *Term, ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(specErr); is {
						t, ok = nil, false
						return
					}
					panic(r)
				}
			}()
			env := e.baseEnv(st)
			env.frame = f
			return e.eval(env, m).t, true
		}})
	}
	if e.ct != nil {
		for _, cl := range e.ct.Falls {
			e.instTemplates(true, cl, vars, st, rec, func(d string, ev func(*State, *Frame) (*Term, bool)) {
				ms = append(ms, &Cand{desc: "measure " + d, eval: ev})
			})
		}
	}
	for _, v := range ints {
		v := v
		// decreasing: exists K: v - K; increasing: K - v.  The bound is found from the guard:
		// increasing needs v_head <= K with K the value of v at head + positive slack; use
		// intervals of the back state: any upper bound on v_head valid in every back state.
		ms = append(ms, &Cand{desc: v.name + " increases to a bound", eval: func(st *State, f *Frame) (*Term, bool) {
			return c.Mul(c.Int(-1), v.get(e, st, f)), true
		}})
		ms = append(ms, &Cand{desc: v.name + " decreases", eval: func(st *State, f *Frame) (*Term, bool) { return v.get(e, st, f), true }})
	}
	for _, m := range ms {
		h, ok := m.eval(hs, hf)
		if !ok {
			continue
		}
		var qs []*Query
		good := true
		for _, b := range backs {
			t, ok := m.eval(b, b.fr())
			if !ok {
				good = false
				break
			}
			dec := c.Lt(t, h)
			if strings.HasPrefix(m.desc, "measure") { // a value of the contract language: bounded below by hypothesis
				dec = c.And(dec, c.Le(c.Int(0), h))
			}
			// machine integers are bounded below, so a strictly decreasing value terminates
			// only if it is bounded by a loop-invariant quantity: every machine integer is.
			if dec == c.fls {
				good = false
				break
			}
			qs = append(qs, e.query(b.pc, b.iv, dec))
		}
		if !good {
			continue
		}
		all := true
		for _, ok := range e.sv.Batch(qs, e.houdT) {
			all = all && ok
		}
		if all {
			return m.desc
		}
	}
	return ""
}
