package main

// Evaluation of contract expressions over a machine state.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SVal struct {
	t   *Term
	typ types.Type
	v   Val   // structured value or pointer
	ref *Term // array object
	n   int64
}

type Env struct {
	st, old *State
	vars    map[string]*SVal
	frame   *Frame
	topL    *Term
	oldTop  *Term
	ct      *Contract
	inOld   bool
}

type specErr struct{ msg string }

var ghostSort = map[string]string{
	"sdata": SStr,      // bytes of a stream
	"spos":  SInt,      // position of a stream
	"held":  SInt,      // lock state: 0 free, 1 shared, 2 exclusive
	"sout":  SStr,      // everything written to a stream so far
	"sok":   SBool,     // no operation on the stream fails
	"spre":  SBool,     // no content replaced by a later write was that of a finished package
	"vkeys": "Seq_Str", // what a visitor was called with
	"vvals": "Seq_Slice",
	"vgo":   SBool, // the visitor asked for more
	"wend":  SInt,
	"seal":  SInt,
}

func serr(x *Ex, f string, a ...interface{}) {
	panic(specErr{x.Pos + ": " + fmt.Sprintf(f, a...)})
}

func (e *Eng) mkSVal(v Val, t types.Type) *SVal {
	if x, ok := v.(*Term); ok {
		return &SVal{t: x, typ: t}
	}
	return &SVal{typ: t, v: v}
}

// term of a value for equality etc.
func (e *Eng) tm(s *SVal, x *Ex) *Term {
	if s.t != nil {
		return s.t
	}
	switch v := s.v.(type) {
	case *Ptr, *Clo:
		return e.scalar(v)
	}
	serr(x, "value is not scalar")
	return nil
}

func (e *Eng) baseEnv(st *State) *Env {
	env := &Env{st: st, old: e.entry, vars: map[string]*SVal{}, ct: e.ct, oldTop: e.entryTop}
	for k, v := range e.params {
		env.vars[k] = v
	}
	return env
}

func (e *Eng) evalBool(env *Env, x *Ex) *Term {
	v := e.eval(env, x)
	if v.t == nil || v.t.Sort != SBool {
		serr(x, "boolean expected")
	}
	return v.t
}

func (e *Eng) evalInt(env *Env, x *Ex) *Term {
	v := e.eval(env, x)
	if v.t == nil || v.t.Sort != SInt {
		serr(x, "integer expected")
	}
	return v.t
}

func (e *Eng) eval(env *Env, x *Ex) *SVal {
	c := e.c
	if e.running {
		e.running = false
		defer func() { e.running = true }()
	}
	switch x.Op {
	case "int":
		return &SVal{t: c.Big(x.N)}
	case "str":
		return &SVal{t: c.StrLit(x.Name)}
	case "id":
		if v, ok := env.vars[x.Name]; ok {
			return v
		}
		switch x.Name {
		case "true":
			return &SVal{t: c.tru}
		case "false":
			return &SVal{t: c.fls}
		case "nil":
			return &SVal{t: c.Int(0), v: "nil"}
		case "empty":
			return &SVal{t: c.StrLit("")}
		case "noseq":
			return &SVal{t: c.Empty("Seq_Str")}
		case "nonames": // the empty set of names
			return &SVal{t: c.ConstArr(arrKV("Str", SBool), c.fls)}
		case "mem": // contents of every byte array
			return &SVal{t: e.heapGet(env.st, "E:u8", SInt)}
		case "top": // the newest object
			return &SVal{t: env.st.top}
		case "noseqs":
			return &SVal{t: c.Empty("Seq_Slice")}
		}
		if f := e.db.Funs[x.Name]; f != nil && len(f.Params) == 0 {
			return e.callSpec(env, x, f, nil)
		}
		if e.ct != nil {
			if v := e.ghostParam(x.Name); v != nil {
				return v
			}
		}
		serr(x, "unknown name %s", x.Name)
	case "old":
		if env.inOld {
			return e.eval(env, x.Args[0])
		}
		if env.old == nil {
			// in preconditions old(e) is e
			return e.eval(env, x.Args[0])
		}
		n := *env
		n.st = env.old
		n.inOld = true
		return e.eval(&n, x.Args[0])
	case "locked", "unlocked": // the state when the lock of a shared contract was taken, given back
		h := env.st.acq
		if x.Op == "unlocked" {
			h = env.st.rel
		}
		if h == nil {
			serr(x, "%s outside a shared contract", x.Op)
		}
		n := *env
		n.st = &State{heap: h, pc: env.st.pc, pcset: env.st.pcset, top: env.st.top, iv: env.st.iv, ghost: env.st.ghost}
		n.inOld = true
		return e.eval(&n, x.Args[0])
	case "let":
		n := *env
		n.vars = map[string]*SVal{}
		for k, v := range env.vars {
			n.vars[k] = v
		}
		n.vars[x.Name] = e.eval(env, x.Args[0])
		return e.eval(&n, x.Args[1])
	case "if":
		cond := e.evalBool(env, x.Args[0])
		if cond == c.tru {
			return e.eval(env, x.Args[1])
		}
		if cond == c.fls {
			return e.eval(env, x.Args[2])
		}
		a, b := e.eval(env, x.Args[1]), e.eval(env, x.Args[2])
		ta, tb := e.coerce(a, b, x)
		return &SVal{t: c.Ite(cond, ta, tb), typ: a.typ}
	case "un":
		if x.Name == "!" {
			return &SVal{t: c.Not(e.evalBool(env, x.Args[0]))}
		}
		return &SVal{t: c.Mul(c.Int(-1), e.evalInt(env, x.Args[0]))}
	case "bin":
		return e.evalBin(env, x)
	case "quant":
		n := *env
		n.vars = map[string]*SVal{}
		for k, v := range env.vars {
			n.vars[k] = v
		}
		var vs []*Term
		for _, d := range x.Vars {
			b := c.BoundVar(d.Name, d.Sort)
			vs = append(vs, b)
			n.vars[d.Name] = &SVal{t: b}
		}
		body := e.evalBool(&n, x.Args[0])
		var tr [][]*Term
		for _, g := range x.Trig {
			var ts []*Term
			for _, a := range g {
				ts = append(ts, e.eval(&n, a).t)
			}
			tr = append(tr, ts)
		}
		return &SVal{t: c.Quant(x.Name, vs, body, tr)}
	case "dot":
		return e.evalDot(env, x)
	case "idx":
		return e.evalIdx(env, x)
	case "slice":
		s := e.eval(env, x.Args[0])
		lo := c.Int(0)
		if x.Args[1] != nil {
			lo = e.evalInt(env, x.Args[1])
		}
		if s.t != nil && isSeq(s.t.Sort) {
			hi := c.Len(s.t)
			if x.Args[2] != nil {
				hi = e.evalInt(env, x.Args[2])
			}
			return &SVal{t: e.sub(s.t, lo, hi)}
		}
		if s.t != nil && s.t.Sort == SSlice {
			hi := c.SLen(s.t)
			if x.Args[2] != nil {
				hi = e.evalInt(env, x.Args[2])
			}
			return &SVal{t: c.MkSlice(c.SRef(s.t), c.Add(c.SOff(s.t), lo), c.Sub(hi, lo), c.Sub(c.SCap(s.t), lo)), typ: s.typ}
		}
		serr(x, "cannot slice")
	case "call":
		return e.evalCall(env, x)
	}
	serr(x, "bad expression %s", x.Op)
	return nil
}

// sub is SubSeq with simplification of nested forms.
func (e *Eng) sub(s, lo, hi *Term) *Term {
	c := e.c
	if s.Kind == kApp && s.Op == "view_"+s.Sort && !lo.free && !hi.free {
		if c.Le(c.Int(0), lo) == c.tru && c.Le(lo, hi) == c.tru && c.Le(hi, s.Args[2]) == c.tru {
			return c.ViewS(s.Sort, s.Args[0], c.Add(s.Args[1], lo), c.Sub(hi, lo))
		}
	}
	return c.SubSeq(s, lo, hi)
}

func (e *Eng) coerce(a, b *SVal, x *Ex) (*Term, *Term) {
	c := e.c
	if a.t != nil && b.t != nil && a.t.Sort == b.t.Sort {
		return a.t, b.t
	}
	isNil := func(v *SVal) bool { s, ok := v.v.(string); return ok && s == "nil" }
	nilOf := func(s string) *Term {
		switch s {
		case SIface:
			return c.NilIface()
		case SSlice:
			return c.NilSlice()
		}
		return c.Int(0)
	}
	if isNil(a) {
		tb := e.tm(b, x)
		return nilOf(tb.Sort), tb
	}
	if isNil(b) {
		ta := e.tm(a, x)
		return ta, nilOf(ta.Sort)
	}
	ta, tb := e.tm(a, x), e.tm(b, x)
	if ta.Sort != tb.Sort {
		// interface against concrete
		if ta.Sort == SIface && b.typ != nil {
			return ta, e.c.MkIface(e.typeTag(b.typ), tb)
		}
		if tb.Sort == SIface && a.typ != nil {
			return e.c.MkIface(e.typeTag(a.typ), ta), tb
		}
		serr(x, "sorts differ: %s and %s", ta.Sort, tb.Sort)
	}
	return ta, tb
}

func (e *Eng) evalBin(env *Env, x *Ex) *SVal {
	c := e.c
	switch x.Name {
	case "&&":
		a := e.evalBool(env, x.Args[0])
		if a == c.fls {
			return &SVal{t: a}
		}
		return &SVal{t: c.And(a, e.evalBool(env, x.Args[1]))}
	case "||":
		a := e.evalBool(env, x.Args[0])
		if a == c.tru {
			return &SVal{t: a}
		}
		return &SVal{t: c.Or(a, e.evalBool(env, x.Args[1]))}
	case "==>":
		a := e.evalBool(env, x.Args[0])
		if a == c.fls {
			return &SVal{t: c.tru}
		}
		return &SVal{t: c.Imp(a, e.evalBool(env, x.Args[1]))}
	case "<==>":
		return &SVal{t: c.Eq(e.evalBool(env, x.Args[0]), e.evalBool(env, x.Args[1]))}
	case "==", "!=":
		a, b := e.eval(env, x.Args[0]), e.eval(env, x.Args[1])
		var r *Term
		if va, ok := a.v.(*VStruct); ok {
			if vb, ok := b.v.(*VStruct); ok {
				r = e.eqVal(env.st, va, vb, a.typ, b.typ)
			}
		}
		if r == nil {
			ta, tb := e.coerce(a, b, x)
			switch {
			case ta.Sort == SSlice && tb == c.NilSlice():
				r = c.Eq(c.SRef(ta), c.Int(0))
			case tb.Sort == SSlice && ta == c.NilSlice():
				r = c.Eq(c.SRef(tb), c.Int(0))
			default:
				r = c.Eq(ta, tb)
			}
		}
		if x.Name == "!=" {
			r = c.Not(r)
		}
		return &SVal{t: r}
	}
	if x.Name == "+" {
		a := e.eval(env, x.Args[0])
		if a.t != nil && isSeq(a.t.Sort) {
			return &SVal{t: c.Cat(a.t, e.eval(env, x.Args[1]).t)}
		}
	}
	a, b := e.evalInt(env, x.Args[0]), e.evalInt(env, x.Args[1])
	switch x.Name {
	case "<":
		return &SVal{t: c.Lt(a, b)}
	case "<=":
		return &SVal{t: c.Le(a, b)}
	case ">":
		return &SVal{t: c.Lt(b, a)}
	case ">=":
		return &SVal{t: c.Le(b, a)}
	case "+":
		return &SVal{t: c.Add(a, b)}
	case "-":
		return &SVal{t: c.Sub(a, b)}
	case "*":
		return &SVal{t: c.Mul(a, b)}
	case "/":
		return &SVal{t: c.Div(a, b)}
	case "%":
		return &SVal{t: c.Mod(a, b)}
	}
	serr(x, "operator %s", x.Name)
	return nil
}

// fieldPtr: address (v) and type of a field.
func (e *Eng) fieldPtr(env *Env, s *SVal, name string, pos string) *SVal {
	if s.typ == nil {
		panic(specErr{pos + ": field " + name + " of an untyped value"})
	}
	t := s.typ
	var p Val
	switch {
	case s.t != nil:
		p = s.t
	default:
		p = s.v
	}
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t = q.Elem()
	}
	idx := findField(t, name)
	if idx == nil {
		panic(specErr{pos + ": no field " + name + " in " + t.String()})
	}
	for k, i := range idx {
		f := structFields(t).Field(i)
		p = e.fieldAddr(p, t, i)
		t = f.Type()
		if k < len(idx)-1 {
			if q, ok := t.Underlying().(*types.Pointer); ok {
				p = e.load(env.st, p, t)
				t = q.Elem()
			}
		}
	}
	return &SVal{v: p, typ: t}
}

func findField(t types.Type, name string) []int {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Embedded() {
			ft := u.Field(i).Type()
			if q, ok := ft.Underlying().(*types.Pointer); ok {
				ft = q.Elem()
			}
			if r := findField(ft, name); r != nil {
				return append([]int{i}, r...)
			}
		}
	}
	return nil
}

func (e *Eng) evalDot(env *Env, x *Ex) *SVal {
	c := e.c
	b := x.Args[0]
	if b.Op == "id" {
		if _, ok := env.vars[b.Name]; !ok && e.ghostParam(b.Name) == nil {
			// package-level variable or constant
			if v := e.pkgMember(env, b.Name, x.Name); v != nil {
				return v
			}
			serr(x, "unknown name %s.%s", b.Name, x.Name)
		}
	}
	s := e.eval(env, b)
	if sv, ok := s.v.(*VStruct); ok {
		idx := findField(sv.typ, x.Name)
		if idx == nil {
			serr(x, "no field %s", x.Name)
		}
		var cur Val = sv
		t := sv.typ
		for _, i := range idx {
			f := structFields(t).Field(i)
			switch q := cur.(type) {
			case *VStruct:
				cur = q.f[i]
			default:
				// through an embedded pointer
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				cur = e.load(env.st, e.fieldAddr(cur, t, i), f.Type())
			}
			t = f.Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				_ = p
			}
		}
		return e.mkSVal(cur, t)
	}
	p := e.fieldPtr(env, s, x.Name, x.Pos)
	switch p.typ.Underlying().(type) {
	case *types.Struct:
		// nested struct: keep its address
		if t, ok := p.v.(*Term); ok {
			return &SVal{t: t, typ: types.NewPointer(p.typ)}
		}
		return &SVal{v: p.v, typ: types.NewPointer(p.typ)}
	case *types.Array:
		if t, ok := p.v.(*Term); ok {
			return &SVal{ref: t, n: p.typ.Underlying().(*types.Array).Len(), typ: p.typ}
		}
	}
	v := e.load(env.st, p.v, p.typ)
	if r, ok := v.(*Term); ok {
		if t, ok2 := p.typ.Underlying().(*types.Pointer); ok2 {
			_ = t
		}
		if _, ok := p.v.(*Ptr); ok {
			e.famTypes[p.v.(*Ptr).fam] = p.typ
		}
		return &SVal{t: r, typ: p.typ}
	}
	_ = c
	return e.mkSVal(v, p.typ)
}

// pkgMember: package-level error variable or constant, e.g. io.EOF, wpk.ErrNoTag.
func (e *Eng) pkgMember(env *Env, pk, name string) *SVal {
	if e.p == nil {
		return nil
	}
	for _, p := range e.p.Prog.AllPackages() {
		if pkgShort(p.Pkg) != pk {
			continue
		}
		switch m := p.Members[name].(type) {
		case *ssa.Global:
			t := m.Type().Underlying().(*types.Pointer).Elem()
			if v, ok := e.globalConst(env.st, m, pk+"."+name, t); ok {
				return e.mkSVal(v, t)
			}
			if a, ok := t.Underlying().(*types.Array); ok {
				return &SVal{ref: e.globalRef(m).(*Term), n: a.Len(), typ: t}
			}
			return e.mkSVal(e.load(env.st, e.globalRef(m), t), t)
		case *ssa.NamedConst:
			return e.mkSVal(e.constVal(m.Value), m.Value.Type())
		}
	}
	return nil
}

func (e *Eng) evalIdx(env *Env, x *Ex) *SVal {
	c := e.c
	s := e.eval(env, x.Args[0])
	if s.ref != nil {
		i := e.evalInt(env, x.Args[1])
		at := s.typ.Underlying().(*types.Array)
		return &SVal{t: c.Select(e.row(env.st, elemFam(at.Elem()), s.ref, sortOf(at.Elem())), i), typ: at.Elem()}
	}
	if s.t == nil {
		serr(x, "cannot index")
	}
	switch {
	case isSeq(s.t.Sort):
		return &SVal{t: c.At(s.t, e.evalInt(env, x.Args[1]))}
	case s.t.Sort == SSlice && s.typ != nil:
		i := e.evalInt(env, x.Args[1])
		el := s.typ.Underlying().(*types.Slice).Elem()
		p := &Ptr{fam: elemFam(el), ref: c.SRef(s.t), idx: c.Add(c.SOff(s.t), i), typ: el}
		if _, ok := el.Underlying().(*types.Struct); ok {
			return &SVal{v: p, typ: types.NewPointer(el)}
		}
		return e.mkSVal(e.load(env.st, p, el), el)
	case strings.HasPrefix(s.t.Sort, "(Array"):
		return &SVal{t: c.Select(s.t, e.eval(env, x.Args[1]).t)}
	case s.typ != nil:
		if m, ok := s.typ.Underlying().(*types.Map); ok {
			return &SVal{t: c.Select(e.mapVal(env.st, m, s.t), e.eval(env, x.Args[1]).t), typ: m.Elem()}
		}
	}
	serr(x, "cannot index")
	return nil
}

func (e *Eng) ghostKey(s *SVal) *Term {
	if s.t != nil {
		if s.t.Sort == SIface {
			return e.c.IVal(s.t)
		}
		return s.t
	}
	return e.scalar(s.v)
}

func (e *Eng) ghostParam(name string) *SVal {
	if e.ghosts == nil {
		return nil
	}
	return e.ghosts[name]
}

// seqVal gives the byte sequence of a string, slice or array.
func (e *Eng) seqVal(env *Env, s *SVal, x *Ex) *Term {
	c := e.c
	switch {
	case s.ref != nil:
		at := s.typ.Underlying().(*types.Array)
		return c.ViewS(seqFor(elemFam(at.Elem()), sortOf(at.Elem())), e.row(env.st, elemFam(at.Elem()), s.ref, sortOf(at.Elem())), c.Int(0), c.Int(s.n))
	case s.t != nil && isSeq(s.t.Sort):
		return s.t
	case s.t != nil && s.t.Sort == SSlice:
		fam, leaf := "E:u8", SInt
		if s.typ != nil {
			if sl, ok := s.typ.Underlying().(*types.Slice); ok {
				fam, leaf = elemFam(sl.Elem()), sortOf(sl.Elem())
				if leaf == "" {
					serr(x, "slice of structs: use elems(s, field)")
				}
			}
		}
		return e.viewOf(env.st, fam, s.t, leaf)
	case s.v != nil:
		if a, ok := s.v.(*VArr); ok {
			return c.ViewS(seqFor(elemFam(a.typ.Elem()), sortOf(a.typ.Elem())), a.row, a.off, c.Int(a.typ.Len()))
		}
		if n, ok := s.v.(string); ok && n == "nil" {
			return c.StrLit("")
		}
	}
	serr(x, "bytes() of this value")
	return nil
}

func (e *Eng) evalCall(env *Env, x *Ex) *SVal {
	c := e.c
	arg := func(i int) *SVal { return e.eval(env, x.Args[i]) }
	need := func(n int) {
		if len(x.Args) != n {
			serr(x, "%s takes %d arguments", x.Name, n)
		}
	}
	switch x.Name {
	case "len":
		need(1)
		s := arg(0)
		switch {
		case s.ref != nil:
			return &SVal{t: c.Int(s.n)}
		case s.t != nil && isSeq(s.t.Sort):
			return &SVal{t: c.Len(s.t)}
		case s.t != nil && s.t.Sort == SSlice:
			e.sliceInv(s.t)
			return &SVal{t: c.SLen(s.t)}
		}
		serr(x, "len of this value")
	case "cap":
		e.sliceInv(arg(0).t)
		return &SVal{t: c.SCap(arg(0).t)}
	case "ref":
		s := arg(0)
		if s.t != nil && s.t.Sort == SSlice {
			return &SVal{t: c.SRef(s.t)}
		}
		if s.ref != nil {
			return &SVal{t: s.ref}
		}
		return &SVal{t: e.ghostKey(s)}
	case "off":
		return &SVal{t: c.SOff(arg(0).t)}
	case "tag":
		return &SVal{t: c.ITag(arg(0).t)}
	case "bytes":
		need(1)
		return &SVal{t: e.seqVal(env, arg(0), x)}
	case "elems":
		need(2)
		s := arg(0)
		el := s.typ.Underlying().(*types.Slice).Elem()
		idx := findField(el, x.Args[1].Name)
		if idx == nil {
			serr(x, "no field %s", x.Args[1].Name)
		}
		ft := structFields(el).Field(idx[0]).Type()
		return &SVal{t: e.viewOf(env.st, elemFam(el)+"."+x.Args[1].Name, s.t, sortOf(ft))}
	case "cell": // element number i of the array under a slice (absolute index)
		s := arg(0)
		el := s.typ.Underlying().(*types.Slice).Elem()
		if len(x.Args) == 2 { // element without fields
			return &SVal{t: c.Select(e.row(env.st, elemFam(el), c.SRef(s.t), sortOf(el)), e.evalInt(env, x.Args[1])), typ: el}
		}
		need(3)
		idx := findField(el, x.Args[1].Name)
		if idx == nil {
			serr(x, "no field %s", x.Args[1].Name)
		}
		ft := structFields(el).Field(idx[0]).Type()
		row := e.row(env.st, elemFam(el)+"."+x.Args[1].Name, c.SRef(s.t), sortOf(ft))
		return &SVal{t: c.Select(row, e.evalInt(env, x.Args[2])), typ: ft}
	case "at":
		need(2)
		return &SVal{t: c.At(e.seqVal(env, arg(0), x), e.evalInt(env, x.Args[1]))}
	case "cat":
		r := arg(0).t
		rs := make([]*Term, len(x.Args))
		for i := range x.Args {
			rs[i] = e.eval(env, x.Args[i]).t
		}
		r = rs[len(rs)-1]
		for i := len(rs) - 2; i >= 0; i-- {
			r = c.Cat(rs[i], r)
		}
		return &SVal{t: r}
	case "unit":
		return &SVal{t: c.Unit(arg(0).t)}
	case "sub":
		need(3)
		return &SVal{t: e.sub(arg(0).t, e.evalInt(env, x.Args[1]), e.evalInt(env, x.Args[2]))}
	case "upd":
		need(3)
		return &SVal{t: c.Upd(arg(0).t, e.evalInt(env, x.Args[1]), arg(2).t)}
	case "le16", "le32", "le64":
		n := map[string]int{"le16": 2, "le32": 4, "le64": 8}[x.Name]
		if len(x.Args) == 1 { // encoder: sequence of bytes
			u := e.evalInt(env, x.Args[0])
			r := c.Unit(e.leByte(u, n-1))
			for i := n - 2; i >= 0; i-- {
				r = c.Cat(c.Unit(e.leByte(u, i)), r)
			}
			return &SVal{t: r}
		}
		s := e.seqVal(env, arg(0), x)
		i := e.evalInt(env, x.Args[1])
		bs := make([]*Term, n)
		for k := range bs {
			bs[k] = c.At(s, c.Add(i, c.Int(int64(k))))
		}
		return &SVal{t: e.leSum(bs)}
	case "mbytes": // bytes of a slice in a given memory
		need(2)
		s := arg(1).t
		return &SVal{t: c.View(c.Select(arg(0).t, c.SRef(s)), c.SOff(s), c.SLen(s))}
	case "has":
		need(2)
		m := arg(0)
		mt := m.typ.Underlying().(*types.Map)
		d := c.Select(e.mapDom(env.st, mt, m.t), arg(1).t)
		return &SVal{t: d}
	case "get":
		need(2)
		m := arg(0)
		mt := m.typ.Underlying().(*types.Map)
		return &SVal{t: c.Select(e.mapVal(env.st, mt, m.t), arg(1).t), typ: mt.Elem()}
	case "dom", "val":
		m := arg(0)
		mt := m.typ.Underlying().(*types.Map)
		if x.Name == "dom" {
			return &SVal{t: e.mapDom(env.st, mt, m.t)}
		}
		return &SVal{t: e.mapVal(env.st, mt, m.t)}
	case "nomap":
		m := arg(0)
		mt := m.typ.Underlying().(*types.Map)
		k, _ := e.mapSorts(mt)
		return &SVal{t: c.ConstArr(arrKV(k, SBool), c.fls)}
	case "store":
		return &SVal{t: c.Store(arg(0).t, arg(1).t, arg(2).t)}
	case "fresh":
		s := arg(0)
		top := env.oldTop
		if top == nil {
			top = e.entryTop
		}
		if s.t != nil && s.t.Sort == SSlice {
			ref := c.SRef(s.t)
			return &SVal{t: c.And(c.Lt(top, ref), c.Not(e.isRO(ref)))}
		}
		return &SVal{t: c.Lt(top, e.ghostKey(s))}
	case "freshornil":
		s := arg(0)
		top := env.oldTop
		if top == nil {
			top = e.entryTop
		}
		if s.t != nil && s.t.Sort == SSlice {
			ref := c.SRef(s.t)
			return &SVal{t: c.Or(c.And(c.Lt(top, ref), c.Not(e.isRO(ref))), c.And(c.Eq(ref, c.Int(0)), c.Eq(c.SCap(s.t), c.Int(0)), c.Eq(c.SLen(s.t), c.Int(0))))}
		}
		return &SVal{t: c.Or(c.Lt(top, e.ghostKey(s)), c.Eq(e.ghostKey(s), c.Int(0)))}
	case "inloop": // allocated since the loop was entered
		s := arg(0)
		if env.topL == nil {
			serr(x, "inloop outside a loop invariant")
		}
		if s.t != nil && s.t.Sort == SSlice {
			return &SVal{t: c.Lt(env.topL, c.SRef(s.t))}
		}
		return &SVal{t: c.Lt(env.topL, e.ghostKey(s))}
	case "valid": // reference known in the state
		s := arg(0)
		return &SVal{t: c.And(c.Lt(c.Int(0), e.ghostKey(s)), c.Le(e.ghostKey(s), env.st.top))}
	case "ro":
		return &SVal{t: e.isRO(c.SRef(arg(0).t))}
	case "iskind": // dynamic type of an interface value
		s := arg(0)
		t := e.p.typeByName(x.Args[1].Name)
		if t == nil {
			serr(x, "unknown type %s", x.Args[1].Name)
		}
		return &SVal{t: c.Eq(c.ITag(s.t), e.typeTag(t))}
	case "unbox":
		s := arg(0)
		t := e.p.typeByName(x.Args[1].Name)
		if t == nil {
			serr(x, "unknown type %s", x.Args[1].Name)
		}
		return e.mkSVal(e.unbox(env.st, c.IVal(s.t), t), t)
	case "ival":
		return &SVal{t: c.IVal(arg(0).t)}
	case "as": // value viewed with a Go type: as(x, "*wpk.FTT")
		s := arg(0)
		t := e.p.typeByName(x.Args[1].Name)
		if t == nil {
			serr(x, "unknown type %s", x.Args[1].Name)
		}
		if _, ptr := t.Underlying().(*types.Pointer); ptr && s.t != nil && s.t.Sort == SIface {
			return &SVal{t: c.IVal(s.t), typ: t}
		}
		return &SVal{t: s.t, typ: t}
	case "deref":
		s := arg(0)
		p := s.typ.Underlying().(*types.Pointer)
		if s.t != nil {
			return e.mkSVal(e.load(env.st, s.t, p.Elem()), p.Elem())
		}
		return e.mkSVal(e.load(env.st, s.v, p.Elem()), p.Elem())
	case "var": // current value of a local variable (by comment name) in a loop invariant
		if env.frame != nil {
			for k, v := range env.frame.regs {
				if ph, ok := k.(*ssa.Phi); ok && ph.Comment == x.Args[0].Name {
					return e.mkSVal(v, ph.Type())
				}
			}
		}
		serr(x, "no variable %s", x.Args[0].Name)
	case "fn": // a function as a value: fn("md5.New")
		f := e.p.funcByName(x.Args[0].Name)
		if f == nil {
			serr(x, "unknown function %s", x.Args[0].Name)
		}
		return &SVal{t: e.cloTerm(&Clo{fn: f})}
	case "nolocks":
		h := e.heapGet(env.st, "G:held", SInt)
		return &SVal{t: c.Eq(h, c.ConstArr(arrOf(SInt), c.Int(0)))}
	case "min":
		a, b := e.evalInt(env, x.Args[0]), e.evalInt(env, x.Args[1])
		return &SVal{t: c.Ite(c.Le(a, b), a, b)}
	case "strlt":
		return &SVal{t: e.strLt(arg(0).t, arg(1).t)}
	case "strlit":
		return &SVal{t: c.Bool(true)}
	}
	if g, ok := ghostSort[x.Name]; ok {
		need(1)
		s := arg(0)
		return &SVal{t: c.Select(e.heapGet(env.st, "G:"+x.Name, g), e.ghostKey(s))}
	}
	if f := e.db.Funs[x.Name]; f != nil {
		var as []*SVal
		if len(x.Args) != len(f.Params) {
			serr(x, "%s takes %d arguments", x.Name, len(f.Params))
		}
		for i := range x.Args {
			a := arg(i)
			as = append(as, a)
		}
		return e.callSpec(env, x, f, as)
	}
	serr(x, "unknown function %s", x.Name)
	return nil
}

func (e *Eng) callSpec(env *Env, x *Ex, f *SpecFun, as []*SVal) *SVal {
	c := e.c
	if f.Body != nil && !f.Rec && f.LenE == nil && !f.Opaque && !e.hide[f.Name] {
		n := &Env{st: env.st, old: env.old, vars: map[string]*SVal{}, oldTop: env.oldTop, topL: env.topL, inOld: env.inOld, ct: env.ct, frame: env.frame}
		for i, p := range f.Params {
			a := as[i]
			if p.Sort != "Any" {
				a = e.argSort(env, a, p.Sort, x)
			}
			n.vars[p.Name] = a
		}
		return e.eval(n, f.Body)
	}
	ts := make([]*Term, len(as))
	for i, p := range f.Params {
		ts[i] = e.argSort(env, as[i], p.Sort, x).t
	}
	return &SVal{t: c.App(f.Name, f.Res, ts...)}
}

func (e *Eng) argSort(env *Env, a *SVal, sort string, x *Ex) *SVal {
	if a.t != nil && a.t.Sort == sort {
		return a
	}
	if isSeq(sort) {
		q := e.seqVal(env, a, x)
		if q.Sort == sort {
			return &SVal{t: q}
		}
	}
	if sort == SInt && a.v != nil {
		return &SVal{t: e.tm(a, x)}
	}
	got := "?"
	if a.t != nil {
		got = a.t.Sort
	}
	serr(x, "argument of %s has sort %s, %s expected", x.Name, got, sort)
	return nil
}

func (e *Eng) ctMeasures() []*Ex {
	if e.ct == nil {
		return nil
	}
	return e.ct.Measures
}

// unfold gives the defining equation of a recursive spec function application.
func (e *Eng) unfold(t *Term) (*Term, bool) {
	f := e.db.Funs[t.Op]
	if f == nil || !f.Rec || f.Body == nil || e.hide[f.Name] {
		return nil, false
	}
	env := &Env{st: e.pureState(), vars: map[string]*SVal{}}
	for i, p := range f.Params {
		env.vars[p.Name] = &SVal{t: t.Args[i]}
	}
	v := e.eval(env, f.Body)
	return v.t, true
}

func (e *Eng) pureState() *State {
	if e.pure == nil {
		e.pure = &State{heap: map[string]*Term{}, pcset: map[*Term]bool{}, iv: map[*Term]Interval{}, top: e.c.Sym("top@pure", SInt)}
	}
	return e.pure
}
