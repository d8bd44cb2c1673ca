package main

// Symbolic execution of SSA functions, obligation generation.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Fn    string
	Kind  string // post, pre, safety, frame, inv, measure, lemma, lock ...
	Label string
	Pos   string
	PC    []*Term
	Goal  *Term
	Trace []string
	Src   string
	IV    map[*Term]Interval
}

type Eng struct {
	c       *Ctx
	p       *Program
	db      *SpecDB
	sv      *Solver
	ct      *Contract
	fn      *ssa.Function
	name    string
	famSort map[string]string
	base0   map[string]*Term // entry-state base arrays
	iptr    map[*Term]*Ptr
	clos    map[*Term]*Clo
	collect []*WriteSet
	dry     int
	obls    []*Oblig
	oblKey  map[string]bool
	params  map[string]*SVal
	entry   *State // state at entry (for old)
	mods    []modLoc
	modAll  bool
	checkWr bool
	returns int
	usedCt  map[string]bool
	assumed map[string]bool
	inlined map[string]bool
	loopNo  int
	invUsed int
	steps   int
	work    []*State
	onBack  func(st *State)
	stopAt  *LoopRec
	finalCk func(st *State, res []Val)
	loopsOf map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	tids    map[string]*Term
	notes   []string
	dets    []string
	houds   int
	simple  bool // flag simple: no automatic pairs of loop variables
	maxStep int
	baseTop *Term
	depth   int

	mergeOn    bool
	mergers    []*merger
	pdom       map[*ssa.BasicBlock]*ssa.BasicBlock
	famTypes   map[string]types.Type
	innerConf  map[string]bool
	entryTop   *Term
	hide       map[string]bool // specification functions left uninterpreted
	houdT      time.Duration
	verbose    bool
	tagType    map[*Term]types.Type
	inlineOnly map[string]bool
	ghosts     map[string]*SVal
	symMemo    map[*Term][]*Term
	lemmas     []*lemInfo
	lemAx      map[*Lemma]*Term
	pure       *State
	recD       int
	embs       map[string]int
	shLock     *Term // the lock of a shared contract
	lockOf     *Term // the lock of a guarded operation
	running    bool  // executing, not evaluating contract clauses
	lemUsed    map[string]bool
}

type modLoc struct {
	fam      string
	ref      *Term
	off, len *Term // window (byte/elements), nil = whole row
	any      bool  // all refs
	leaf     string
	typ      types.Type
}

func (e *Eng) oblige(st *State, kind, label, pos, src string, goal *Term) {
	if e.dry > 0 || st.dead {
		return
	}
	if goal == e.c.tru {
		k := kind + "|" + label + "|" + pos + "|" + src
		if kind == "post" || kind == "pre" {
			k += fmt.Sprint(e.returns)
		}
		if !e.oblKey[k] {
			e.oblKey[k] = true
			e.obls = append(e.obls, &Oblig{Fn: e.name, Kind: kind, Label: label, Pos: pos, Goal: goal, Src: src})
		}
		return
	}
	if st.pcset[goal] {
		goal = e.c.tru
	}
	o := &Oblig{Fn: e.name, Kind: kind, Label: label, Pos: pos, PC: append([]*Term(nil), st.pc...), Goal: goal, Src: src, Trace: append([]string(nil), st.trace...)}
	o.IV = make(map[*Term]Interval, len(st.iv))
	for k, v := range st.iv {
		o.IV[k] = v
	}
	e.obls = append(e.obls, o)
}

// safety obligation; afterwards the condition is assumed (the run would have panicked).
func (e *Eng) need(st *State, kind, label string, pos token.Pos, goal *Term) {
	if goal == e.c.tru {
		e.oblige(st, kind, label, e.p.Pos(pos), "", goal)
		return
	}
	if e.ct == nil || e.ct.Flags["panics"] != "ok" {
		e.oblige(st, kind, label, e.p.Pos(pos), "", goal)
	}
	e.assume(st, goal)
}

// ---- values

func (e *Eng) val(st *State, f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &Clo{fn: x}
	case *ssa.Global:
		return e.globalRef(x)
	case *ssa.Builtin:
		return x
	}
	r, ok := f.regs[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), f.fn)
	}
	return r
}

func (e *Eng) term(st *State, f *Frame, v ssa.Value) *Term { return e.scalar(e.val(st, f, v)) }

func (e *Eng) globalRef(g *ssa.Global) Val {
	// globals are old objects at symbolic, pairwise distinct addresses
	r := e.c.Sym("glob_"+pkgShort(g.Pkg.Pkg)+"."+g.Name(), SInt)
	e.c.SetRange(r, big.NewInt(1), nil)
	t := g.Type().Underlying().(*types.Pointer).Elem()
	e.c.isOld[r] = true
	_ = t
	return r
}

func (e *Eng) globalOf(t *Term) (string, bool) {
	if t.Kind == kSym && strings.HasPrefix(t.Op, "glob_") {
		return t.Op[5:], true
	}
	return "", false
}

func (e *Eng) constVal(x *ssa.Const) Val {
	c := e.c
	t := x.Type()
	if x.Value == nil {
		if _, ok := t.(*types.Tuple); ok {
			return Tuple{}
		}
		return e.zero(t)
	}
	switch {
	case isBoolT(t):
		return c.Bool(constant.BoolVal(x.Value))
	case isString(t):
		return c.StrLit(constant.StringVal(x.Value))
	}
	if _, ok := basicInt(t); ok {
		return c.Big(constBig(x.Value))
	}
	if n, ok := isFloat(t); ok {
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		return c.Big(floatBits(f, n))
	}
	if isParamType(t) {
		return c.Big(constBig(x.Value))
	}
	unsup("constant %s", x)
	return nil
}

func isParamType(t types.Type) bool { _, ok := t.(*types.TypeParam); return ok }

// ---- driver

func (e *Eng) newFrame(fn *ssa.Function, args []Val, binds []Val) *Frame {
	f := &Frame{fn: fn, regs: map[ssa.Value]Val{}, blk: fn.Blocks[0]}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			f.regs[v] = binds[i]
		}
	}
	return f
}

// run executes until all paths end.
func (e *Eng) run(st *State) {
	saved := e.work
	e.work = []*State{st}
	for len(e.work) > 0 {
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		for !s.dead {
			e.steps++
			if e.steps > e.maxStep {
				unsup("step limit")
			}
			if !e.step(s) {
				break
			}
		}
	}
	e.work = saved
}

func (e *Eng) fork(st *State) { e.work = append(e.work, st) }

// feasible: quick ground check.
func (e *Eng) feasible(st *State, cond *Term) bool {
	if st.dead || cond == e.c.fls || st.pcset[e.c.Not(cond)] {
		return false
	}
	if cond == e.c.tru || st.pcset[cond] {
		return true
	}
	if e.sv == nil {
		return true
	}
	return !e.sv.QuickUnsat(e, st.pc, st.iv, cond)
}

// proves: quick check that pc implies cond.
func (e *Eng) proves(st *State, cond *Term) bool {
	if cond == e.c.tru || st.pcset[cond] {
		return true
	}
	if cond == e.c.fls {
		return false
	}
	return e.sv.QuickUnsat(e, st.pc, st.iv, e.c.Not(cond))
}

func (e *Eng) step(st *State) bool {
	e.running = true
	defer func() { e.running = false }()
	f := st.fr()
	if f.pc >= len(f.blk.Instrs) {
		unsup("fell off block")
	}
	in := f.blk.Instrs[f.pc]
	f.pc++
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		f.regs[x] = e.doAlloc(st, x)
	case *ssa.Store:
		t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		p := e.val(st, f, x.Addr)
		e.nilCheck(st, p, x.Pos())
		e.store(st, p, t, e.val(st, f, x.Val))
	case *ssa.UnOp:
		f.regs[x] = e.unop(st, f, x)
	case *ssa.BinOp:
		f.regs[x] = e.binop(st, x.Op, e.val(st, f, x.X), e.val(st, f, x.Y), x.X.Type(), x.Y.Type(), x.Type(), x.Pos())
	case *ssa.Phi:
		unsup("stray phi")
	case *ssa.FieldAddr:
		p := e.val(st, f, x.X)
		e.nilCheck(st, p, x.Pos())
		f.regs[x] = e.fieldAddr(p, x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
	case *ssa.Field:
		v := e.val(st, f, x.X)
		sv, ok := v.(*VStruct)
		if !ok {
			unsup("field of %T", v)
		}
		f.regs[x] = sv.f[x.Field]
	case *ssa.IndexAddr:
		f.regs[x] = e.indexAddr(st, f, x)
	case *ssa.Index:
		v := e.val(st, f, x.X)
		i := e.term(st, f, x.Index)
		if a, ok := v.(*VArr); ok {
			e.need(st, "safety", "index", x.Pos(), e.c.And(e.c.Le(e.c.Int(0), i), e.c.Lt(i, e.c.Int(a.typ.Len()))))
			f.regs[x] = e.typed(st, e.c.Select(a.row, e.c.Add(a.off, i)), x.Type())
			break
		}
		s := e.scalar(v)
		e.need(st, "safety", "index", x.Pos(), e.c.And(e.c.Le(e.c.Int(0), i), e.c.Lt(i, e.c.Len(s))))
		f.regs[x] = e.typed(st, e.c.At(s, i), x.Type())
	case *ssa.Slice:
		f.regs[x] = e.slice(st, f, x)
	case *ssa.MakeSlice:
		f.regs[x] = e.makeSlice(st, f, x)
	case *ssa.MakeMap:
		f.regs[x] = e.makeMap(st, x)
	case *ssa.MakeClosure:
		b := make([]Val, len(x.Bindings))
		for i, v := range x.Bindings {
			b[i] = e.val(st, f, v)
		}
		f.regs[x] = &Clo{fn: x.Fn.(*ssa.Function), binds: b}
	case *ssa.MakeInterface:
		f.regs[x] = e.makeIface(st, e.val(st, f, x.X), x.X.Type())
	case *ssa.MakeChan:
		f.regs[x] = e.alloc(st, "chan")
	case *ssa.ChangeType:
		v := e.val(st, f, x.X)
		if s, ok := v.(*VStruct); ok {
			v = &VStruct{typ: x.Type(), f: s.f}
		}
		f.regs[x] = v
	case *ssa.ChangeInterface:
		f.regs[x] = e.val(st, f, x.X)
	case *ssa.Convert:
		f.regs[x] = e.convert(st, f, x)
	case *ssa.MultiConvert:
		unsup("multiconvert")
	case *ssa.SliceToArrayPointer:
		s := e.term(st, f, x.X)
		at := x.Type().Underlying().(*types.Pointer).Elem()
		n := at.Underlying().(*types.Array).Len()
		e.need(st, "safety", "slice to array length", x.Pos(), e.c.Le(e.c.Int(n), e.c.SLen(s)))
		f.regs[x] = &Ptr{fam: elemFam(at.Underlying().(*types.Array).Elem()), ref: e.c.SRef(s), idx: e.c.SOff(s), typ: at}
	case *ssa.TypeAssert:
		return e.typeAssert(st, f, x)
	case *ssa.Extract:
		t, ok := e.val(st, f, x.Tuple).(Tuple)
		if !ok {
			unsup("extract from %T", e.val(st, f, x.Tuple))
		}
		f.regs[x] = t[x.Index]
	case *ssa.Lookup:
		f.regs[x] = e.lookup(st, f, x)
	case *ssa.MapUpdate:
		e.mapUpdate(st, f, x)
	case *ssa.Range:
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			unsup("range over %s", x.X.Type())
		}
		f.regs[x] = &MapIter{m: e.term(st, f, x.X), typ: mt}
	case *ssa.Next:
		e.next(st, f, x)
	case *ssa.Call:
		return e.call(st, f, x)
	case *ssa.Defer:
		d := Deferred{common: x.Common(), instr: x}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(st, f, a))
		}
		d.fn = e.val(st, f, x.Call.Value)
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.pc--
			return e.callVal(st, d.common, d.fn, d.args, nil, d.instr.Pos())
		}
	case *ssa.Return:
		return e.doReturn(st, f, x)
	case *ssa.If:
		return e.doIf(st, f, x)
	case *ssa.Jump:
		return e.goTo(st, f.blk.Succs[0])
	case *ssa.Panic:
		e.raise(st, "panic", x.Pos())
		return false
	default:
		unsup("instruction %T: %s", in, in)
	}
	return !st.dead
}

// raise: the path ends in a panic.
func (e *Eng) raise(st *State, what string, pos token.Pos) {
	if e.ct != nil && e.ct.Flags["panics"] == "ok" {
		e.checkRaise(st)
		return
	}
	e.oblige(st, "safety", what+" unreachable", e.p.Pos(pos), "", e.c.fls)
}

func (e *Eng) doAlloc(st *State, x *ssa.Alloc) Val {
	t := x.Type().Underlying().(*types.Pointer).Elem()
	r := e.alloc(st, x.Comment)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		e.zeroAt(st, r, t)
		_ = u
		return r
	case *types.Array:
		s := sortOf(u.Elem())
		if s == "" {
			e.notes = append(e.notes, "array of composite")
			return r
		}
		fam := elemFam(u.Elem())
		e.setRow(st, fam, r, e.c.ConstArr(arrOf(s), e.zeroTerm(u.Elem())), s)
		return r
	}
	if e.unsafeCell(x) {
		row := e.c.ConstArr(arrOf(SInt), e.c.Int(0))
		e.setRow(st, "E:u8", r, row, SInt)
		return &Ptr{fam: "E:u8", ref: r, idx: e.c.Int(0), typ: t}
	}
	fam := cellFam(t)
	switch t.Underlying().(type) {
	case *types.Slice, *types.Pointer:
		e.famTypes[fam] = t
	}
	h := e.heapGet(st, fam, sortOf(t))
	e.noteWrite(st, fam, r)
	st.heap[fam] = e.c.Store(h, r, e.zeroTerm(t))
	return r
}

func (e *Eng) zeroAt(st *State, r *Term, t types.Type) {
	u := structFields(t)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if isSync(ft) {
			e.initGhost(st, e.c.Emb(r, e.embKey(t, i)), ft)
			continue
		}
		switch a := ft.Underlying().(type) {
		case *types.Struct:
			e.zeroAt(st, r, ft)
		case *types.Array:
			s := sortOf(a.Elem())
			if s == "" {
				continue
			}
			e.setRow(st, elemFam(a.Elem()), e.c.Emb(r, e.embKey(t, i)), e.c.ConstArr(arrOf(s), e.zeroTerm(a.Elem())), s)
		default:
			fam := fieldFam(t, i)
			h := e.heapGet(st, fam, sortOf(ft))
			e.noteWrite(st, fam, r)
			st.heap[fam] = e.c.Store(h, r, e.zeroTerm(ft))
		}
	}
	e.initGhost(st, r, t)
}

// unsafeCell: a scalar local whose address is converted to unsafe.Pointer.
func (e *Eng) unsafeCell(x *ssa.Alloc) bool {
	for _, r := range *x.Referrers() {
		if cv, ok := r.(*ssa.Convert); ok {
			if b, ok := cv.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
				return true
			}
		}
	}
	return false
}

func (e *Eng) nilCheck(st *State, p Val, pos token.Pos) {
	t, ok := p.(*Term)
	if !ok || t.alloc || e.c.isOld[t] {
		return
	}
	if _, _, emb := e.c.unEmb(t); emb {
		return
	}
	e.need(st, "safety", "nil dereference", pos, e.c.Not(e.c.Eq(t, e.c.Int(0))))
}

func (e *Eng) indexAddr(st *State, f *Frame, x *ssa.IndexAddr) Val {
	c := e.c
	i := e.term(st, f, x.Index)
	v := e.val(st, f, x.X)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := e.scalar(v)
		e.need(st, "safety", "index", x.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.SLen(s))))
		return &Ptr{fam: elemFam(u.Elem()), ref: c.SRef(s), idx: c.Add(c.SOff(s), i), typ: u.Elem()}
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		e.need(st, "safety", "index", x.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(a.Len()))))
		switch q := v.(type) {
		case *Term:
			return &Ptr{fam: elemFam(a.Elem()), ref: q, idx: i, typ: a.Elem()}
		case *Ptr:
			return &Ptr{fam: q.fam, ref: q.ref, idx: c.Add(q.idx, i), typ: a.Elem()}
		}
	}
	unsup("indexAddr %s", x)
	return nil
}

func (e *Eng) unop(st *State, f *Frame, x *ssa.UnOp) Val {
	c := e.c
	switch x.Op {
	case token.MUL:
		p := e.val(st, f, x.X)
		if t, ok := p.(*Term); ok {
			if g, ok := e.globalOf(t); ok {
				if v, ok := e.globalConst(st, x.X.(*ssa.Global), g, x.Type()); ok {
					return v
				}
			}
		}
		e.nilCheck(st, p, x.Pos())
		return e.load(st, p, x.Type())
	case token.NOT:
		return c.Not(e.term(st, f, x.X))
	case token.SUB:
		t := e.term(st, f, x.X)
		if _, ok := isFloat(x.Type()); ok {
			return e.typed(st, c.App("fneg", SInt, t), x.Type())
		}
		return e.wrap(st, c.Mul(c.Int(-1), t), x.Type())
	case token.XOR:
		t := e.term(st, f, x.X)
		i, _ := basicInt(x.Type())
		r := c.Sub(c.Int(-1), t)
		if !i.signed {
			r = c.Sub(c.Big(new(big.Int).Sub(pow2(i.bits), big.NewInt(1))), t)
		}
		return r
	}
	unsup("unop %s", x)
	return nil
}

// globalConst: package-level values treated as constants (error variables).
func (e *Eng) globalConst(st *State, g *ssa.Global, name string, t types.Type) (Val, bool) {
	if types.TypeString(t, nil) == "error" {
		k := e.c.Sym("errval_"+name, SInt)
		if _, ok := e.tids["ev:"+name]; !ok {
			e.tids["ev:"+name] = k
			e.c.SetRange(k, big.NewInt(1), nil)
		}
		e.assumed["package-level error variables are never reassigned"] = true
		return e.c.MkIface(e.typeTagN("*errors.errorString"), k), true
	}
	return nil, false
}

func (e *Eng) typeTag(typ types.Type) *Term {
	t := e.typeTagN(types.TypeString(types.Unalias(typ), nil))
	e.tagType[t] = typ
	return t
}

func (e *Eng) typeTagN(name string) *Term {
	if t, ok := e.tids[name]; ok {
		return t
	}
	n := 0
	for k := range e.tids {
		if !strings.HasPrefix(k, "ev:") {
			n++
		}
	}
	t := e.c.Int(int64(n + 1))
	e.tids[name] = t
	return t
}

func (e *Eng) tagName(t *Term) (string, bool) {
	for k, v := range e.tids {
		if v == t && !strings.HasPrefix(k, "ev:") {
			return k, true
		}
	}
	return "", false
}

// wrap reduces a mathematical result into the range of an integer type.
func (e *Eng) wrap(st *State, t *Term, typ types.Type) *Term {
	c := e.c
	ii, ok := basicInt(typ)
	if !ok {
		unsup("wrap %s", typ)
	}
	lo, hi := intRange(ii)
	if t.Kind == kInt {
		r := new(big.Int).Mod(t.N, pow2(ii.bits))
		if ii.signed && r.Cmp(hi) > 0 {
			r.Sub(r, pow2(ii.bits))
		}
		return c.Big(r)
	}
	iv, ok := c.ival(t, st.iv)
	okLo := ok && iv.lo != nil && iv.lo.Cmp(lo) >= 0
	okHi := ok && iv.hi != nil && iv.hi.Cmp(hi) <= 0
	if !okLo {
		okLo = e.proves(st, c.Le(c.Big(lo), t))
	}
	if !okHi {
		okHi = e.proves(st, c.Le(t, c.Big(hi)))
	}
	if okLo && okHi {
		return t
	}
	m := c.Mod(t, c.Big(pow2(ii.bits)))
	if !ii.signed {
		return m
	}
	return c.Ite(c.Le(c.Big(pow2(ii.bits-1)), m), c.Sub(m, c.Big(pow2(ii.bits))), m)
}

func (e *Eng) binop(st *State, op token.Token, xv, yv Val, xt, yt, rt types.Type, pos token.Pos) Val {
	c := e.c
	switch op {
	case token.EQL, token.NEQ:
		r := e.eqVal(st, xv, yv, xt, yt)
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	x, y := e.scalar(xv), e.scalar(yv)
	if isString(xt) {
		switch op {
		case token.ADD:
			return c.Cat(x, y)
		case token.LSS:
			return e.strLt(x, y)
		case token.GTR:
			return e.strLt(y, x)
		case token.LEQ:
			return c.Not(e.strLt(y, x))
		case token.GEQ:
			return c.Not(e.strLt(x, y))
		}
	}
	if _, ok := isFloat(xt); ok {
		switch op {
		case token.LSS:
			return c.App("flt", SBool, x, y)
		case token.GTR:
			return c.App("flt", SBool, y, x)
		case token.LEQ:
			return c.App("fle", SBool, x, y)
		case token.GEQ:
			return c.App("fle", SBool, y, x)
		}
		return e.typed(st, c.App("f"+mangle(op.String())+fmt.Sprint(int(op)), SInt, x, y), rt)
	}
	switch op {
	case token.LSS:
		return c.Lt(x, y)
	case token.GTR:
		return c.Lt(y, x)
	case token.LEQ:
		return c.Le(x, y)
	case token.GEQ:
		return c.Le(y, x)
	case token.ADD:
		return e.wrap(st, c.Add(x, y), rt)
	case token.SUB:
		return e.wrap(st, c.Sub(x, y), rt)
	case token.MUL:
		return e.wrap(st, c.Mul(x, y), rt)
	case token.QUO, token.REM:
		e.need(st, "safety", "division by zero", pos, c.Not(c.Eq(y, c.Int(0))))
		ii, _ := basicInt(rt)
		if y.Kind != kInt || y.N.Sign() <= 0 {
			return e.typed(st, c.App(map[token.Token]string{token.QUO: "goquo", token.REM: "gorem"}[op], SInt, x, y), rt)
		}
		iv, ok := c.ival(x, st.iv)
		nonneg := !ii.signed || (ok && iv.lo != nil && iv.lo.Sign() >= 0)
		var q *Term
		if nonneg {
			q = c.Div(x, y)
		} else {
			q = c.Ite(c.Le(c.Int(0), x), c.Div(x, y), c.Mul(c.Int(-1), c.Div(c.Mul(c.Int(-1), x), y)))
		}
		if op == token.QUO {
			return q
		}
		if nonneg {
			return c.Mod(x, y)
		}
		return c.Ite(c.Le(c.Int(0), x), c.Mod(x, y), c.Mul(c.Int(-1), c.Mod(c.Mul(c.Int(-1), x), y)))
	case token.SHL:
		if y.Kind == kInt && y.N.Cmp(big.NewInt(64)) < 0 {
			return e.wrap(st, c.Mul(c.Big(pow2(int(y.N.Int64()))), x), rt)
		}
	case token.SHR:
		if y.Kind == kInt && y.N.Cmp(big.NewInt(64)) < 0 {
			return c.Div(x, c.Big(pow2(int(y.N.Int64()))))
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if isBoolT(rt) {
			unsup("bool bitop")
		}
		if r := e.bitop(st, op, x, y, rt); r != nil {
			return r
		}
	}
	return e.typed(st, c.App("op_"+mangle(op.String())+fmt.Sprint(int(op)), SInt, x, y), rt)
}

// bitop with a constant operand, decomposed into bits ranges.
func (e *Eng) bitop(st *State, op token.Token, x, y *Term, rt types.Type) *Term {
	c := e.c
	if x.Kind == kInt && y.Kind != kInt && op != token.AND_NOT {
		x, y = y, x
	}
	ii, _ := basicInt(rt)
	if y.Kind != kInt || y.N.Sign() < 0 {
		return nil
	}
	if x.Kind == kInt && x.N.Sign() >= 0 {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(x.N, y.N)
		case token.OR:
			r.Or(x.N, y.N)
		case token.XOR:
			r.Xor(x.N, y.N)
		case token.AND_NOT:
			r.AndNot(x.N, y.N)
		}
		return c.Big(r)
	}
	iv, ok := c.ival(x, st.iv)
	if ii.signed && !(ok && iv.lo != nil && iv.lo.Sign() >= 0) {
		return nil
	}
	m := new(big.Int).Set(y.N)
	full := new(big.Int).Sub(pow2(ii.bits), big.NewInt(1))
	and := func(mask *big.Int) *Term {
		// sum over maximal runs of ones [a,b): (x div 2^a mod 2^(b-a)) * 2^a
		var as []*Term
		for i := 0; i < ii.bits; {
			if mask.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < ii.bits && mask.Bit(j) == 1 {
				j++
			}
			as = append(as, c.Mul(c.Big(pow2(i)), c.Mod(c.Div(x, c.Big(pow2(i))), c.Big(pow2(j-i)))))
			i = j
		}
		return c.Add(as...)
	}
	switch op {
	case token.AND:
		return and(m)
	case token.AND_NOT:
		return and(new(big.Int).AndNot(full, m))
	case token.OR:
		return c.Add(and(new(big.Int).AndNot(full, m)), y)
	case token.XOR:
		return c.Add(and(new(big.Int).AndNot(full, m)), c.Sub(y, and(m)))
	}
	return nil
}

func (e *Eng) strLt(x, y *Term) *Term {
	return e.c.App("strlt", SBool, x, y)
}

func (e *Eng) eqVal(st *State, x, y Val, xt, yt types.Type) *Term {
	c := e.c
	switch a := x.(type) {
	case *VStruct:
		b := y.(*VStruct)
		var as []*Term
		for i := range a.f {
			t := structFields(a.typ).Field(i).Type()
			as = append(as, e.eqVal(st, a.f[i], b.f[i], t, t))
		}
		return c.And(as...)
	case *VArr:
		b := y.(*VArr)
		if b.typ.Len() <= 64 {
			var as []*Term
			for i := int64(0); i < a.typ.Len(); i++ {
				as = append(as, c.Eq(c.Select(a.row, c.Add(a.off, c.Int(i))), c.Select(b.row, c.Add(b.off, c.Int(i)))))
			}
			return c.And(as...)
		}
		unsup("array equality")
	case *Clo:
		if t, ok := y.(*Term); ok && t.Kind == kInt && t.N.Sign() == 0 {
			return c.fls
		}
	case *Ptr:
		if t, ok := y.(*Term); ok && t.Kind == kInt && t.N.Sign() == 0 {
			return c.fls
		}
	}
	if _, ok := y.(*Clo); ok {
		return e.eqVal(st, y, x, yt, xt)
	}
	p, q := e.scalar(x), e.scalar(y)
	if p.Sort != q.Sort {
		// comparison of interface and concrete value
		if p.Sort == SIface {
			q = e.makeIface(st, y, yt).(*Term)
		} else if q.Sort == SIface {
			p = e.makeIface(st, x, xt).(*Term)
		}
	}
	if p.Sort == SSlice { // comparison with nil
		if q == c.NilSlice() {
			return c.Eq(c.SRef(p), c.Int(0))
		}
		if p == c.NilSlice() {
			return c.Eq(c.SRef(q), c.Int(0))
		}
	}
	if _, ok := isFloat(xt); ok {
		return c.App("feq", SBool, p, q)
	}
	return c.Eq(p, q)
}

func (e *Eng) slice(st *State, f *Frame, x *ssa.Slice) Val {
	c := e.c
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.term(st, f, v)
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	zero := c.Int(0)
	if lo == nil {
		lo = zero
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := e.term(st, f, x.X)
		if hi == nil {
			hi = c.Len(s)
		}
		e.need(st, "safety", "slice bounds", x.Pos(), c.And(c.Le(zero, lo), c.Le(lo, hi), c.Le(hi, c.Len(s))))
		return e.subStr(s, lo, hi)
	case *types.Slice:
		s := e.term(st, f, x.X)
		if hi == nil {
			hi = c.SLen(s)
		}
		lim := c.SCap(s)
		if mx != nil {
			e.need(st, "safety", "slice bounds", x.Pos(), c.And(c.Le(hi, mx), c.Le(mx, c.SCap(s))))
			lim = mx
		}
		e.need(st, "safety", "slice bounds", x.Pos(), c.And(c.Le(zero, lo), c.Le(lo, hi), c.Le(hi, lim)))
		return c.MkSlice(c.SRef(s), c.Add(c.SOff(s), lo), c.Sub(hi, lo), c.Sub(lim, lo))
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		n := c.Int(a.Len())
		if hi == nil {
			hi = n
		}
		lim := n
		if mx != nil {
			lim = mx
		}
		e.need(st, "safety", "slice bounds", x.Pos(), c.And(c.Le(zero, lo), c.Le(lo, hi), c.Le(hi, lim), c.Le(lim, n)))
		switch q := e.val(st, f, x.X).(type) {
		case *Term:
			return c.MkSlice(q, lo, c.Sub(hi, lo), c.Sub(lim, lo))
		case *Ptr:
			return c.MkSlice(q.ref, c.Add(q.idx, lo), c.Sub(hi, lo), c.Sub(lim, lo))
		}
	}
	unsup("slice %s", x)
	return nil
}

func (e *Eng) subStr(s, lo, hi *Term) *Term {
	c := e.c
	if s.Kind == kApp && s.Op == "view_Str" {
		return c.ViewS(s.Sort, s.Args[0], c.Add(s.Args[1], lo), c.Sub(hi, lo))
	}
	return c.SubSeq(s, lo, hi)
}

func (e *Eng) makeSlice(st *State, f *Frame, x *ssa.MakeSlice) Val {
	c := e.c
	n, m := e.term(st, f, x.Len), e.term(st, f, x.Cap)
	e.need(st, "safety", "make length", x.Pos(), c.And(c.Le(c.Int(0), n), c.Le(n, m)))
	e.allocSize(st, m, x.Pos())
	el := x.Type().Underlying().(*types.Slice).Elem()
	r := e.alloc(st, "slice")
	e.zeroRows(st, el, elemFam(el), r)
	// memory is bounded: a successful make has a bounded length
	e.assume(st, c.Le(m, c.Big(maxLen)))
	return c.MkSlice(r, c.Int(0), n, m)
}

func (e *Eng) zeroRows(st *State, el types.Type, fam string, r *Term) {
	if s := sortOf(el); s != "" {
		e.setRow(st, fam, r, e.c.ConstArr(arrOf(s), e.zeroTerm(el)), s)
		return
	}
	if u, ok := el.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			e.zeroRows(st, u.Field(i).Type(), fam+"."+u.Field(i).Name(), r)
		}
		return
	}
	unsup("slice of %s", el)
}

func (e *Eng) makeMap(st *State, x *ssa.MakeMap) Val {
	c := e.c
	m := x.Type().Underlying().(*types.Map)
	r := e.alloc(st, "map")
	k, v := e.mapSorts(m)
	if x.Reserve != nil {
		e.allocSize(st, e.term(st, st.fr(), x.Reserve), x.Pos())
	}
	e.mapSetDom(st, m, r, c.ConstArr(arrKV(k, SBool), c.fls))
	_ = v
	return r
}

func (e *Eng) boxTerm(st *State, v Val, t types.Type) *Term {
	c := e.c
	switch x := v.(type) {
	case *VStruct:
		r := e.alloc(st, "box")
		old := e.checkWr
		e.checkWr = false
		e.store(st, r, t, x)
		e.checkWr = old
		return r
	case *VArr:
		unsup("array in interface")
	}
	s := e.scalar(v)
	switch s.Sort {
	case SInt:
		return s
	case SBool:
		return c.Ite(s, c.Int(1), c.Int(0))
	case SStr, SSlice, SIface:
		return c.App("box_"+s.Sort, SInt, s)
	}
	unsup("box %s", s.Sort)
	return nil
}

func (e *Eng) unbox(st *State, v *Term, t types.Type) Val {
	c := e.c
	switch t.Underlying().(type) {
	case *types.Struct:
		return e.load(st, v, t)
	}
	switch s := sortOf(t); s {
	case SInt:
		return e.unscalar(e.typed(st, v, t), t)
	case SBool:
		return c.Eq(v, c.Int(1))
	case SStr, SSlice, SIface:
		if v.Kind == kApp && v.Op == "box_"+s {
			return v.Args[0]
		}
		return e.typed(st, c.App("unbox_"+s, s, v), t)
	}
	unsup("unbox %s", t)
	return nil
}

func (e *Eng) makeIface(st *State, v Val, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return e.c.MkIface(e.typeTag(t), e.boxTerm(st, v, t))
}

func (e *Eng) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) bool {
	c := e.c
	v := e.term(st, f, x.X)
	tag := c.ITag(v)
	if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		var ok *Term
		if tag.Kind == kInt && tag.N.Sign() == 0 {
			ok = c.fls
		} else {
			ok = c.App("implements_"+mangle(typeName(x.AssertedType)), SBool, tag)
		}
		if x.CommaOk {
			f.regs[x] = Tuple{c.Ite(ok, v, c.NilIface()), ok}
		} else {
			e.need(st, "safety", "type assertion", x.Pos(), ok)
			f.regs[x] = v
		}
		return !st.dead
	}
	want := e.typeTag(x.AssertedType)
	ok := c.Eq(tag, want)
	if !x.CommaOk {
		e.need(st, "safety", "type assertion", x.Pos(), ok)
		f.regs[x] = e.unbox(st, c.IVal(v), x.AssertedType)
		return !st.dead
	}
	if ok == c.tru {
		f.regs[x] = Tuple{e.unbox(st, c.IVal(v), x.AssertedType), ok}
		return true
	}
	if ok == c.fls {
		f.regs[x] = Tuple{e.zero(x.AssertedType), ok}
		return true
	}
	// split the path
	s2 := st.clone()
	e.assume(s2, c.Not(ok))
	if e.feasible(s2, c.tru) && !s2.dead {
		f2 := s2.fr()
		f2.regs[x] = Tuple{e.zero(x.AssertedType), c.fls}
		e.fork(s2)
	}
	e.assume(st, ok)
	f.regs[x] = Tuple{e.unbox(st, c.IVal(v), x.AssertedType), c.tru}
	return !st.dead
}

func (e *Eng) convert(st *State, f *Frame, x *ssa.Convert) Val {
	c := e.c
	v := e.val(st, f, x.X)
	from, to := x.X.Type(), x.Type()
	// unsafe pointers
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		el := to.Underlying().(*types.Pointer).Elem()
		switch q := v.(type) {
		case *Ptr:
			if q.fam != "E:u8" {
				unsup("unsafe view of %s", q.fam)
			}
			return &Ptr{fam: q.fam, ref: q.ref, idx: q.idx, typ: el}
		}
		unsup("unsafe conversion of %T", v)
	}
	fi, fok := basicInt(from)
	ti, tok := basicInt(to)
	_, ff := isFloat(from)
	tn, tf := isFloat(to)
	switch {
	case fok && tok:
		t := e.scalar(v)
		flo, fhi := intRange(fi)
		tlo, thi := intRange(ti)
		if flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
			return t
		}
		return e.wrapTo(st, t, ti)
	case fok && tf:
		return e.typed(st, c.App(fmt.Sprintf("i2f%d", tn), SInt, e.scalar(v)), to)
	case ff && tok:
		return e.typed(st, c.App("f2i_"+to.Underlying().(*types.Basic).Name(), SInt, e.scalar(v)), to)
	case ff && tf:
		fn, _ := isFloat(from)
		if fn == tn {
			return v
		}
		return e.typed(st, c.App(fmt.Sprintf("f%df%d", fn, tn), SInt, e.scalar(v)), to)
	case isString(to):
		if sl, ok := from.Underlying().(*types.Slice); ok {
			if i, ok := basicInt(sl.Elem()); ok && i.bits == 8 {
				return e.bytesOfSlice(st, e.scalar(v))
			}
		}
		if fok {
			return c.App("rune2str", SStr, e.scalar(v))
		}
		if isString(from) {
			return v
		}
	case isString(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if i, ok := basicInt(sl.Elem()); ok && i.bits == 8 {
				s := e.scalar(v)
				r := e.alloc(st, "bytes")
				e.setRow(st, "E:u8", r, c.Sarr(s), SInt)
				n := c.Len(s)
				cp := c.Fresh("cap", SInt)
				c.SetRange(cp, new(big.Int), maxLen)
				e.assume(st, c.Le(n, cp))
				e.strLenFact(st, s)
				return c.MkSlice(r, c.Int(0), n, cp)
			}
		}
	}
	unsup("convert %s to %s", from, to)
	return nil
}

func (e *Eng) strLenFact(st *State, s *Term) {
	e.assume(st, e.c.Le(e.c.Len(s), e.c.Big(maxLen)))
}

func (e *Eng) wrapTo(st *State, t *Term, ti intInfo) *Term {
	c := e.c
	lo, hi := intRange(ti)
	if t.Kind == kInt {
		r := new(big.Int).Mod(t.N, pow2(ti.bits))
		if ti.signed && r.Cmp(hi) > 0 {
			r.Sub(r, pow2(ti.bits))
		}
		return c.Big(r)
	}
	iv, ok := c.ival(t, st.iv)
	okLo := ok && iv.lo != nil && iv.lo.Cmp(lo) >= 0
	okHi := ok && iv.hi != nil && iv.hi.Cmp(hi) <= 0
	if !okLo {
		okLo = e.proves(st, c.Le(c.Big(lo), t))
	}
	if !okHi {
		okHi = e.proves(st, c.Le(t, c.Big(hi)))
	}
	if okLo && okHi {
		return t
	}
	m := c.Mod(t, c.Big(pow2(ti.bits)))
	if ti.signed {
		return e.toSigned(m, ti.bits)
	}
	return m
}

func (e *Eng) bytesOfSlice(st *State, s *Term) *Term {
	return e.viewOf(st, "E:u8", s, SInt)
}

func (e *Eng) viewOf(st *State, fam string, s *Term, leaf string) *Term {
	c := e.c
	n := c.SLen(s)
	if n.Kind != kInt {
		e.sliceInv(s)
		if iv, ok := c.ival(n, st.iv); ok && iv.lo != nil && iv.lo.Sign() >= 0 && n.Kind == kApp {
			c.SetRangeNN(n)
		}
	}
	ref := c.SRef(s)
	if fam == "E:u8" {
		if q, ok := e.isStrref(ref); ok {
			if c.SOff(s).Kind == kInt && c.SOff(s).N.Sign() == 0 && n == c.Len(q) {
				return q
			}
			return c.SubSeq(q, c.SOff(s), c.Add(c.SOff(s), n))
		}
	}
	return c.ViewS(seqFor(fam, leaf), e.row(st, fam, ref, leaf), c.SOff(s), n)
}

// ---- maps

func (e *Eng) lookup(st *State, f *Frame, x *ssa.Lookup) Val {
	c := e.c
	if isString(x.X.Type()) {
		s, i := e.term(st, f, x.X), e.term(st, f, x.Index)
		e.need(st, "safety", "index", x.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Len(s))))
		return e.typed(st, c.At(s, i), x.Type())
	}
	m := x.X.Type().Underlying().(*types.Map)
	ref, k := e.term(st, f, x.X), e.boxKey(st, e.val(st, f, x.Index))
	has := c.And(c.Not(c.Eq(ref, c.Int(0))), c.Select(e.mapDom(st, m, ref), k))
	if ref.alloc || c.isOld[ref] {
		has = c.Select(e.mapDom(st, m, ref), k)
	}
	if sortOf(m.Elem()) == "" {
		if x.CommaOk {
			return Tuple{e.symVal(st, "mapval", m.Elem(), true), has}
		}
		return e.symVal(st, "mapval", m.Elem(), true)
	}
	v := c.Select(e.mapVal(st, m, ref), k)
	v = e.typed(st, v, m.Elem())
	r := c.Ite(has, v, e.zeroTerm(m.Elem()))
	if x.CommaOk {
		return Tuple{e.unscalar(r, m.Elem()), has}
	}
	return e.unscalar(r, m.Elem())
}

func (e *Eng) boxKey(st *State, v Val) *Term { return e.scalar(v) }

func (e *Eng) mapUpdate(st *State, f *Frame, x *ssa.MapUpdate) {
	c := e.c
	m := x.Map.Type().Underlying().(*types.Map)
	ref, k := e.term(st, f, x.Map), e.boxKey(st, e.val(st, f, x.Key))
	e.nilCheck(st, ref, x.Pos())
	e.mapSetDom(st, m, ref, c.Store(e.mapDom(st, m, ref), k, c.tru))
	if sortOf(m.Elem()) != "" {
		e.mapSetVal(st, m, ref, c.Store(e.mapVal(st, m, ref), k, e.term(st, f, x.Value)))
	}
}

func (e *Eng) next(st *State, f *Frame, x *ssa.Next) {
	c := e.c
	it, ok := e.val(st, f, x.Iter).(*MapIter)
	if !ok {
		unsup("next of %T", e.val(st, f, x.Iter))
	}
	okt := c.Fresh("more", SBool)
	ks, _ := e.mapSorts(it.typ)
	k := e.typed(st, c.Fresh("key", ks), it.typ.Key())
	dom := e.mapDom(st, it.typ, it.m)
	e.assume(st, c.Imp(okt, c.Select(dom, k)))
	var v Val
	if sortOf(it.typ.Elem()) == "" {
		v = e.symVal(st, "mapval", it.typ.Elem(), true)
	} else {
		v = e.typed(st, c.Select(e.mapVal(st, it.typ, it.m), k), it.typ.Elem())
	}
	e.assumed["iteration over a map yields keys of the map (each at most once is not used)"] = true
	f.regs[x] = Tuple{okt, e.unscalar(k, it.typ.Key()), v}
}

// ---- control

func (e *Eng) doIf(st *State, f *Frame, x *ssa.If) bool {
	c := e.c
	cond := e.term(st, f, x.Cond)
	if cond == c.tru {
		return e.goTo(st, f.blk.Succs[0])
	}
	if cond == c.fls {
		return e.goTo(st, f.blk.Succs[1])
	}
	// decide by intervals
	ft := e.feasible(st, cond)
	ff := e.feasible(st, c.Not(cond))
	if ft && ff && e.mergeOn {
		if at := e.postDom(f.blk); at != nil {
			s2 := st.clone()
			e.assume(s2, c.Not(cond))
			e.assume(st, cond)
			return e.mergeIf(st, s2, at, f.blk.Succs[0], f.blk.Succs[1])
		}
	}
	if ft && ff {
		s2 := st.clone()
		s2.trace = append(s2.trace, fmt.Sprintf("%s: condition false", e.p.Pos(condPos(x))))
		e.assume(s2, c.Not(cond))
		if !s2.dead {
			blk := s2.fr().blk
			if e.goTo(s2, blk.Succs[1]) {
				e.fork(s2)
			}
		}
		st.trace = append(st.trace, fmt.Sprintf("%s: condition true", e.p.Pos(condPos(x))))
		e.assume(st, cond)
		if st.dead {
			return false
		}
		return e.goTo(st, f.blk.Succs[0])
	}
	if ft {
		e.assume(st, cond)
		return !st.dead && e.goTo(st, f.blk.Succs[0])
	}
	if ff {
		e.assume(st, c.Not(cond))
		return !st.dead && e.goTo(st, f.blk.Succs[1])
	}
	st.dead = true
	return false
}

func condPos(x *ssa.If) token.Pos {
	if p := x.Cond.Pos(); p.IsValid() {
		return p
	}
	return x.Pos()
}

// goTo transfers control to block b of the current frame.
func (e *Eng) goTo(st *State, b *ssa.BasicBlock) bool {
	f := st.fr()
	pred := f.blk
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	// evaluate phis in parallel
	var phis []*ssa.Phi
	var vals []Val
	n := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(st, f, ph.Edges[idx]))
		n++
	}
	// leaving loops
	depth := len(st.frames)
	for len(st.loops) > 0 {
		r := st.loops[len(st.loops)-1]
		if r.depth == depth && !r.loop.body[b] {
			if r == e.stopAt {
				return false // exit of the loop under exploration
			}
			st.loops = st.loops[:len(st.loops)-1]
			continue
		}
		break
	}
	for i, ph := range phis {
		f.regs[ph] = vals[i]
	}
	f.prev, f.blk, f.pc = pred, b, n
	lp := e.loops(f.fn)[b]
	if lp != nil {
		if lp.body[pred] && len(st.loops) > 0 && st.loops[len(st.loops)-1].loop == lp && st.loops[len(st.loops)-1].depth == depth {
			r := st.loops[len(st.loops)-1]
			if r == e.stopAt {
				e.onBack(st)
				return false
			}
			e.backEdge(st, r)
			return false
		}
		return e.enterLoop(st, lp)
	}
	return !e.arrive(st)
}

func (e *Eng) doReturn(st *State, f *Frame, x *ssa.Return) bool {
	var res []Val
	for _, r := range x.Results {
		res = append(res, e.val(st, f, r))
	}
	depth := len(st.frames)
	for len(st.loops) > 0 && st.loops[len(st.loops)-1].depth == depth {
		if st.loops[len(st.loops)-1] == e.stopAt {
			return false
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		if e.finalCk != nil {
			e.returns++
			e.running = false
			e.finalCk(st, res)
		}
		return false
	}
	if f.onret != nil {
		f.onret(st, res)
		return !st.dead
	}
	if f.call != nil {
		g := st.fr()
		switch len(res) {
		case 0:
			g.regs[f.call] = Tuple{}
		case 1:
			if tt, ok := f.call.Type().(*types.Tuple); ok && tt.Len() == 1 {
				g.regs[f.call] = Tuple(res)
			} else {
				g.regs[f.call] = res[0]
			}
		default:
			g.regs[f.call] = Tuple(res)
		}
	}
	return true
}
