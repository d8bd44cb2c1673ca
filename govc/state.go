package main

// Machine state of the symbolic executor, memory access.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type VStruct struct {
	typ types.Type
	f   []Val
}
type VArr struct {
	row, off *Term
	typ      *types.Array
}
type Tuple []Val
type Ptr struct {
	fam      string
	ref, idx *Term
	typ      types.Type // pointee
}
type Clo struct {
	fn    *ssa.Function
	binds []Val
}

// MapIter is the value of a Range instruction.
type MapIter struct {
	m   *Term
	typ *types.Map
	str *Term
}

type Deferred struct {
	common *ssa.CallCommon
	args   []Val
	fn     Val
	instr  *ssa.Defer
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	blk    *ssa.BasicBlock
	pc     int
	prev   *ssa.BasicBlock
	defers []Deferred
	call   ssa.Value // value in the caller that receives the result (nil for defer/root)
	onret  func(st *State, res []Val)
	inDef  bool
}

type State struct {
	heap   map[string]*Term
	pc     []*Term
	pcset  map[*Term]bool
	frames []*Frame
	top    *Term
	iv     map[*Term]Interval
	loops  []*LoopRec
	trace  []string
	dead   bool
	ghost  map[string]*Term
	nacq   int // critical sections entered
	// heaps of a shared contract: when its lock was taken, given back, and since then
	acq, rel, out map[string]*Term
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)), pc: append([]*Term(nil), s.pc...), top: s.top,
		nacq: s.nacq, acq: s.acq, rel: s.rel, out: s.out, pcset: make(map[*Term]bool, len(s.pcset)), iv: make(map[*Term]Interval, len(s.iv)), ghost: make(map[string]*Term, len(s.ghost))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.pcset {
		n.pcset[k] = v
	}
	for k, v := range s.iv {
		n.iv[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.regs = make(map[ssa.Value]Val, len(f.regs))
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.defers = append([]Deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	n.loops = append([]*LoopRec(nil), s.loops...)
	n.trace = append([]string(nil), s.trace...)
	return n
}

func (s *State) fr() *Frame { return s.frames[len(s.frames)-1] }

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// assume adds a path fact.
func (e *Eng) assume(st *State, f *Term) {
	c := e.c
	if f == c.tru {
		return
	}
	if f == c.fls {
		st.dead = true
	}
	if f.Kind == kApp && f.Op == "and" {
		for _, a := range f.Args {
			e.assume(st, a)
		}
		return
	}
	if st.pcset[f] {
		return
	}
	if st.pcset[c.Not(f)] {
		st.dead = true
	}
	st.pcset[f] = true
	st.pc = append(st.pc, f)
	e.refine(st, f)
}

func (e *Eng) setIv(st *State, t *Term, lo, hi *big.Int) {
	if t.Kind == kInt {
		return
	}
	o := st.iv[t]
	if lo != nil && (o.lo == nil || o.lo.Cmp(lo) < 0) {
		o.lo = lo
	}
	if hi != nil && (o.hi == nil || o.hi.Cmp(hi) > 0) {
		o.hi = hi
	}
	if o.lo != nil && o.hi != nil && o.lo.Cmp(o.hi) > 0 {
		st.dead = true
	}
	st.iv[t] = o
}

// refine derives intervals from a fact.
func (e *Eng) refine(st *State, f *Term) {
	c := e.c
	if f.Kind != kApp {
		return
	}
	switch f.Op {
	case "<=":
		e.refineLin(st, c.Sub(f.Args[0], f.Args[1]))
	case "=":
		if f.Args[0].Sort == SInt {
			d := c.Sub(f.Args[0], f.Args[1])
			e.refineLin(st, d)
			e.refineLin(st, c.Mul(c.Int(-1), d))
		}
	}
}

// refineLin: d <= 0, derive bounds of unit-coefficient atoms.
func (e *Eng) refineLin(st *State, d *Term) {
	c := e.c
	l := c.toLin(d)
	for t, k := range l.cs {
		if !k.IsInt64() || (k.Int64() != 1 && k.Int64() != -1) {
			continue
		}
		rest := c.Sub(d, c.Mul(c.Big(k), t))
		iv, ok := c.ival(rest, st.iv)
		if !ok || iv.lo == nil {
			continue
		}
		if k.Sign() > 0 { // t <= -rest
			e.setIv(st, t, nil, new(big.Int).Neg(iv.lo))
		} else { // rest <= t
			e.setIv(st, t, iv.lo, nil)
		}
	}
}

// ---- heap

func (e *Eng) famSortOf(fam string, leaf string) string {
	if s, ok := e.famSort[fam]; ok {
		return s
	}
	var s string
	switch {
	case strings.HasPrefix(fam, "E:"):
		s = arrOf(arrOf(leaf))
	default:
		s = arrOf(leaf)
	}
	e.famSort[fam] = s
	return s
}

func (e *Eng) heapGet(st *State, fam, leaf string) *Term {
	if t, ok := st.heap[fam]; ok {
		return t
	}
	s := e.famSortOf(fam, leaf)
	t := e.c.Sym(mangle(fam)+"@0", s)
	if fam == "E:u8" {
		e.c.markBytes(t)
	}
	st.heap[fam] = t
	e.base0[fam] = t
	return t
}

func (e *Eng) isStrref(r *Term) (*Term, bool) {
	if r.Kind == kApp && r.Op == "strref" {
		return r.Args[0], true
	}
	return nil, false
}

func (e *Eng) strref(s *Term) *Term {
	return e.c.App("strref", SInt, s)
}

// row reads the element array of object ref in family fam.
func (e *Eng) row(st *State, fam string, ref *Term, leaf string) *Term {
	if fam == "E:u8" {
		if s, ok := e.isStrref(ref); ok {
			return e.c.Sarr(s)
		}
	}
	e.guard(st, ref, false)
	return e.c.Select(e.heapGet(st, fam, leaf), ref)
}

func (e *Eng) noteWrite(st *State, fam string, ref *Term) {
	for _, w := range e.collect {
		w.add(e, st, fam, ref)
	}
}

func (e *Eng) setRow(st *State, fam string, ref, row *Term, leaf string) {
	h := e.heapGet(st, fam, leaf)
	e.noteWrite(st, fam, ref)
	st.heap[fam] = e.c.Store(h, ref, row)
}

// typed records the type invariant of a term.
func (e *Eng) typed(st *State, t *Term, typ types.Type) *Term {
	c := e.c
	if t.free {
		return t
	}
	if i, ok := basicInt(typ); ok {
		lo, hi := intRange(i)
		if t.Kind != kInt {
			c.SetRange(t, lo, hi)
		}
		return t
	}
	if n, ok := isFloat(typ); ok {
		c.SetRange(t, new(big.Int), new(big.Int).Sub(pow2(n), big.NewInt(1)))
		return t
	}
	if t.Kind == kInt || t.alloc {
		return t
	}
	switch typ.Underlying().(type) {
	case *types.Pointer:
		el := typ.Underlying().(*types.Pointer).Elem().Underlying()
		if _, ok := el.(*types.Struct); ok {
			c.SetRange(t, new(big.Int), nil)
		}
		if st != nil {
			e.assume(st, c.Le(t, st.top))
		}
	case *types.Map, *types.Chan, *types.Signature:
		c.SetRange(t, new(big.Int), nil)
		if st != nil {
			e.assume(st, c.Le(t, st.top))
		}
	case *types.Slice:
		e.sliceInv(t)
		if st != nil {
			e.assume(st, c.Le(c.SRef(t), st.top))
		}
	case *types.Interface:
		c.SetRange(c.ITag(t), new(big.Int), nil)
		if st != nil && t.Op != "mk-iface" {
			e.assume(st, c.Le(c.IVal(t), st.top))
		}
	}
	return t
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 47)

func (e *Eng) sliceInv(t *Term) {
	c := e.c
	if t.Op == "mk-slice" || t.Op == "ite" {
		return
	}
	c.SetRange(c.SLen(t), new(big.Int), maxLen)
	c.SetRange(c.SCap(t), new(big.Int), maxLen)
	c.SetRange(c.SOff(t), new(big.Int), maxLen)
}

// symVal makes an unconstrained value of a type.
func (e *Eng) symVal(st *State, hint string, t types.Type, fresh bool) Val {
	c := e.c
	mkt := func(h, s string) *Term {
		if fresh {
			return c.Fresh(h, s)
		}
		return c.Sym(h, s)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &VStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, e.symVal(st, hint+"."+u.Field(i).Name(), u.Field(i).Type(), fresh))
		}
		return v
	case *types.Array:
		s := sortOf(u.Elem())
		if s == "" {
			unsup("array of composite")
		}
		return &VArr{row: mkt(hint, arrOf(s)), off: c.Int(0), typ: u}
	case *types.Tuple:
		var tu Tuple
		for i := 0; i < u.Len(); i++ {
			tu = append(tu, e.symVal(st, fmt.Sprintf("%s.%d", hint, i), u.At(i).Type(), fresh))
		}
		return tu
	}
	x := mkt(hint, sortOf(t))
	return e.typed(st, x, t)
}

func (e *Eng) zero(t types.Type) Val {
	c := e.c
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &VStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, e.zero(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		s := sortOf(u.Elem())
		if s == "" {
			unsup("array of composite %s", t)
		}
		return &VArr{row: c.ConstArr(arrOf(s), e.zeroTerm(u.Elem())), off: c.Int(0), typ: u}
	}
	return e.zeroTerm(t)
}

func (e *Eng) zeroTerm(t types.Type) *Term {
	c := e.c
	switch sortOf(t) {
	case SBool:
		return c.fls
	case SStr:
		return c.StrLit("")
	case SSlice:
		return c.NilSlice()
	case SIface:
		return c.NilIface()
	}
	return c.Int(0)
}

func structFields(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldFam(t types.Type, i int) string {
	return "F:" + typeName(t) + "." + structFields(t).Field(i).Name()
}

// fieldAddr: address of field i of the struct at p.
func (e *Eng) fieldAddr(p Val, st types.Type, i int) Val {
	f := structFields(st).Field(i)
	switch q := p.(type) {
	case *Term:
		switch f.Type().Underlying().(type) {
		case *types.Struct:
			if isSync(f.Type()) {
				return e.c.Emb(q, e.embKey(st, i))
			}
			return q
		case *types.Array:
			return e.c.Emb(q, e.embKey(st, i))
		}
		return &Ptr{fam: fieldFam(st, i), ref: q, typ: f.Type()}
	case *Ptr:
		return &Ptr{fam: q.fam + "." + f.Name(), ref: q.ref, idx: q.idx, typ: f.Type()}
	}
	unsup("fieldAddr of %T", p)
	return nil
}

func (e *Eng) sizeof(t types.Type) int64 { return e.p.sizes.Sizeof(t) }

func (e *Eng) scalar(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Clo:
		return e.cloTerm(x)
	case *ssa.Function:
		return e.cloTerm(&Clo{fn: x})
	case *Ptr:
		if x.idx == nil && strings.HasPrefix(x.fam, "C:") {
			return x.ref
		}
		// interior pointer leaking into memory: give it an opaque identity
		args := []*Term{x.ref}
		if x.idx != nil {
			args = append(args, x.idx)
		}
		t := e.c.App("iptr_"+mangle(x.fam), SInt, args...)
		e.iptr[t] = x
		return t
	}
	unsup("scalar of %T", v)
	return nil
}

func (e *Eng) cloTerm(x *Clo) *Term {
	for t, o := range e.clos {
		if o == x {
			return t
		}
		if len(x.binds) == 0 && len(o.binds) == 0 && o.fn == x.fn {
			return t
		}
	}
	t := e.c.Int(int64(1000000 + len(e.clos)))
	e.clos[t] = x
	return t
}

func (e *Eng) unscalar(t *Term, typ types.Type) Val {
	if x, ok := e.clos[t]; ok {
		return x
	}
	if x, ok := e.iptr[t]; ok {
		return x
	}
	return t
}

// load reads a value of type t at address p.
func (e *Eng) load(st *State, p Val, t types.Type) Val {
	c := e.c
	switch q := p.(type) {
	case *Term:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			v := &VStruct{typ: t}
			for i := 0; i < u.NumFields(); i++ {
				v.f = append(v.f, e.load(st, e.fieldAddr(q, t, i), u.Field(i).Type()))
			}
			return v
		case *types.Array:
			s := sortOf(u.Elem())
			if s == "" {
				unsup("load array of composites")
			}
			return &VArr{row: e.row(st, elemFam(u.Elem()), q, s), off: c.Int(0), typ: u}
		}
		e.guard(st, q, false)
		return e.unscalar(e.typed(st, c.Select(e.heapGet(st, cellFam(t), sortOf(t)), q), t), t)
	case *Ptr:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			v := &VStruct{typ: t}
			for i := 0; i < u.NumFields(); i++ {
				v.f = append(v.f, e.load(st, e.fieldAddr(q, t, i), u.Field(i).Type()))
			}
			return v
		case *types.Array:
			s := sortOf(u.Elem())
			if s == "" || q.idx == nil || !strings.HasPrefix(q.fam, "E:") {
				unsup("load array %s", q.fam)
			}
			return &VArr{row: e.row(st, q.fam, q.ref, s), off: q.idx, typ: u}
		}
		if q.fam == "E:u8" && e.sizeof(t) > 1 {
			row := e.row(st, "E:u8", q.ref, SInt)
			n := int(e.sizeof(t))
			bs := make([]*Term, n)
			for i := range bs {
				bs[i] = e.byteAt(row, c.Add(q.idx, c.Int(int64(i))))
			}
			v := e.leSum(bs)
			if i, ok := basicInt(t); ok && i.signed {
				v = e.toSigned(v, i.bits)
			}
			return e.typed(st, v, t)
		}
		s := sortOf(t)
		if q.idx == nil {
			e.guard(st, q.ref, false)
			return e.unscalar(e.typed(st, c.Select(e.heapGet(st, q.fam, s), q.ref), t), t)
		}
		return e.unscalar(e.typed(st, c.Select(e.row(st, q.fam, q.ref, s), q.idx), t), t)
	}
	unsup("load through %T", p)
	return nil
}

func (e *Eng) byteAt(row, i *Term) *Term {
	t := e.c.Select(row, i)
	if t.Kind != kInt && !t.free {
		e.c.SetRange(t, new(big.Int), big.NewInt(255))
	}
	return t
}

// leSum: little-endian value; recognises the bytes of one term.
func (e *Eng) leSum(bs []*Term) *Term {
	c := e.c
	if u := e.bytesOf(bs); u != nil {
		return u
	}
	var as []*Term
	for i, b := range bs {
		as = append(as, c.Mul(c.Big(pow2(8*i)), b))
	}
	return c.Add(as...)
}

func (e *Eng) leByte(u *Term, i int) *Term {
	c := e.c
	return c.Mod(c.Div(u, c.Big(pow2(8*i))), c.Int(256))
}

func (e *Eng) bytesOf(bs []*Term) *Term {
	c := e.c
	b0 := bs[0]
	var u *Term
	if b0.Kind == kApp && b0.Op == "mod" && b0.Args[1].Kind == kInt && b0.Args[1].N.Int64() == 256 {
		u = b0.Args[0]
	} else {
		return nil
	}
	for i, b := range bs {
		if e.leByte(u, i) != b {
			return nil
		}
	}
	iv, ok := c.ival(u, nil)
	if !ok || iv.lo == nil || iv.hi == nil || iv.lo.Sign() < 0 || iv.hi.Cmp(pow2(8*len(bs))) >= 0 {
		return nil
	}
	return u
}

func (e *Eng) toSigned(v *Term, bits int) *Term {
	c := e.c
	if iv, ok := c.ival(v, nil); ok && iv.lo != nil && iv.hi != nil && iv.lo.Cmp(new(big.Int).Neg(pow2(bits-1))) >= 0 && iv.hi.Cmp(pow2(bits-1)) < 0 {
		return v
	}
	// inverse of toUnsigned
	if v.Kind == kApp && v.Op == "mod" && v.Args[1].Kind == kInt && v.Args[1].N.Cmp(pow2(bits)) == 0 {
		if iv, ok := c.ival(v.Args[0], nil); ok && iv.lo != nil && iv.hi != nil && iv.lo.Cmp(new(big.Int).Neg(pow2(bits-1))) >= 0 && iv.hi.Cmp(pow2(bits-1)) < 0 {
			return v.Args[0]
		}
	}
	return c.Ite(c.Le(c.Big(pow2(bits-1)), v), c.Sub(v, c.Big(pow2(bits))), v)
}

// store writes a value of type t at address p.
func (e *Eng) store(st *State, p Val, t types.Type, v Val) {
	c := e.c
	switch q := p.(type) {
	case *Term:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			sv, ok := v.(*VStruct)
			if !ok {
				unsup("store struct from %T", v)
			}
			for i := 0; i < u.NumFields(); i++ {
				e.store(st, e.fieldAddr(q, t, i), u.Field(i).Type(), sv.f[i])
			}
			return
		case *types.Array:
			av := v.(*VArr)
			s := sortOf(u.Elem())
			fam := elemFam(u.Elem())
			e.checkWrite(st, fam, q, c.Int(0), c.Int(u.Len()))
			row := av.row
			if av.off.Kind != kInt || av.off.N.Sign() != 0 {
				row = c.Wr(e.row(st, fam, q, s), c.Int(0), c.ViewS(seqFor(fam, s), av.row, av.off, c.Int(u.Len())))
			}
			e.setRow(st, fam, q, row, s)
			return
		}
		fam := cellFam(t)
		e.checkWrite(st, fam, q, nil, nil)
		h := e.heapGet(st, fam, sortOf(t))
		e.noteWrite(st, fam, q)
		st.heap[fam] = c.Store(h, q, e.scalar(v))
		return
	case *Ptr:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			sv, ok := v.(*VStruct)
			if !ok {
				unsup("store struct from %T", v)
			}
			for i := 0; i < u.NumFields(); i++ {
				e.store(st, e.fieldAddr(q, t, i), u.Field(i).Type(), sv.f[i])
			}
			return
		case *types.Array:
			unsup("store array inside slice")
		}
		if q.fam == "E:u8" && e.sizeof(t) > 1 {
			n := int(e.sizeof(t))
			e.checkWrite(st, q.fam, q.ref, q.idx, c.Int(int64(n)))
			row := e.row(st, "E:u8", q.ref, SInt)
			u := e.scalar(v)
			if i, ok := basicInt(t); ok && i.signed {
				u = c.Mod(u, c.Big(pow2(i.bits)))
			}
			for i := 0; i < n; i++ {
				row = c.Store(row, c.Add(q.idx, c.Int(int64(i))), e.leByte(u, i))
			}
			e.setRow(st, "E:u8", q.ref, row, SInt)
			return
		}
		s := sortOf(t)
		if q.idx == nil {
			e.checkWrite(st, q.fam, q.ref, nil, nil)
			h := e.heapGet(st, q.fam, s)
			e.noteWrite(st, q.fam, q.ref)
			st.heap[q.fam] = c.Store(h, q.ref, e.scalar(v))
			return
		}
		e.checkWrite(st, q.fam, q.ref, q.idx, c.Int(1))
		row := e.row(st, q.fam, q.ref, s)
		e.setRow(st, q.fam, q.ref, c.Store(row, q.idx, e.scalar(v)), s)
		return
	}
	unsup("store through %T", p)
}

func (e *Eng) alloc(st *State, hint string) *Term {
	c := e.c
	r := c.AllocRef(hint)
	c.SetRange(r, big.NewInt(1), nil)
	e.assume(st, c.Lt(st.top, r))
	st.top = r
	return r
}

// ---- maps (M:<K>:<V>:dom / :val / :len)

func mapFam(m *types.Map) string {
	return "M:" + typeName(m.Key()) + ":" + typeName(m.Elem())
}

func (e *Eng) mapSorts(m *types.Map) (k, v string) {
	k, v = sortOf(m.Key()), sortOf(m.Elem())
	if k == "" {
		unsup("map key %s", m.Key())
	}
	if v == "" {
		v = SInt // composite map values: opaque
	}
	return
}

func (e *Eng) mapDom(st *State, m *types.Map, ref *Term) *Term {
	k, _ := e.mapSorts(m)
	e.guard(st, ref, false)
	return e.c.Select(e.heapGet(st, mapFam(m)+":dom", arrKV(k, SBool)), ref)
}
func (e *Eng) mapVal(st *State, m *types.Map, ref *Term) *Term {
	k, v := e.mapSorts(m)
	return e.c.Select(e.heapGet(st, mapFam(m)+":val", arrKV(k, v)), ref)
}
func (e *Eng) mapSetDom(st *State, m *types.Map, ref, d *Term) {
	k, _ := e.mapSorts(m)
	fam := mapFam(m) + ":dom"
	e.checkWrite(st, fam, ref, nil, nil)
	h := e.heapGet(st, fam, arrKV(k, SBool))
	e.noteWrite(st, fam, ref)
	st.heap[fam] = e.c.Store(h, ref, d)
}
func (e *Eng) mapSetVal(st *State, m *types.Map, ref, d *Term) {
	k, v := e.mapSorts(m)
	fam := mapFam(m) + ":val"
	e.checkWrite(st, fam, ref, nil, nil)
	h := e.heapGet(st, fam, arrKV(k, v))
	e.noteWrite(st, fam, ref)
	st.heap[fam] = e.c.Store(h, ref, d)
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
