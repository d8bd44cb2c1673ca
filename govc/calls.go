package main

// Calls: builtins, contracts, inlining, frame checks.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

func floatBits(f float64, n int) *big.Int {
	if n == 32 {
		return new(big.Int).SetUint64(uint64(math.Float32bits(float32(f))))
	}
	return new(big.Int).SetUint64(math.Float64bits(f))
}

const maxInline = 14

func (e *Eng) call(st *State, f *Frame, x *ssa.Call) bool {
	var args []Val
	for _, a := range x.Call.Args {
		args = append(args, e.val(st, f, a))
	}
	return e.callVal(st, x.Common(), e.val(st, f, x.Call.Value), args, x, x.Pos())
}

func (e *Eng) setRes(st *State, res ssa.Value, v Val) {
	if res != nil {
		st.fr().regs[res] = v
	}
}

func (e *Eng) callVal(st *State, cc *ssa.CallCommon, fnVal Val, args []Val, res ssa.Value, pos token.Pos) bool {
	c := e.c
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(st, b, cc, args, res, pos)
	}
	if cc.IsInvoke() {
		recv := e.scalar(fnVal)
		tag := c.ITag(recv)
		if t, ok := e.tagType[tag]; ok {
			sel := e.p.Prog.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name())
			if sel == nil {
				unsup("method %s of %s", cc.Method.Name(), t)
			}
			// contract on the concrete method
			if m, ok := sel.Obj().(*types.Func); ok && len(sel.Index()) == 1 {
				if ct := e.db.Contracts[MethodName(m)]; ct != nil {
					rv := e.unbox(st, c.IVal(recv), t)
					return e.applyContract(st, ct, m.Type().(*types.Signature), append([]Val{rv}, args...), res, pos)
				}
			}
			fn := e.p.Prog.MethodValue(sel)
			rv := e.unbox(st, c.IVal(recv), t)
			if fn != nil && fn.Blocks != nil && (e.p.InRepo(fn) || fn.Synthetic != "") {
				return e.enter(st, fn, append([]Val{rv}, args...), nil, res, pos)
			}
		}
		e.need(st, "safety", "nil interface call", pos, c.Not(c.Eq(tag, c.Int(0))))
		n := MethodName(cc.Method)
		if ct := e.db.Contracts[n]; ct != nil {
			return e.applyContract(st, ct, cc.Method.Type().(*types.Signature), append([]Val{recv}, args...), res, pos)
		}
		// interface method promoted from another interface
		for _, alt := range e.ifaceAlts(cc) {
			if ct := e.db.Contracts[alt]; ct != nil {
				return e.applyContract(st, ct, cc.Method.Type().(*types.Signature), append([]Val{recv}, args...), res, pos)
			}
		}
		return e.unknownCall(st, n, cc.Signature(), res)
	}
	var fn *ssa.Function
	var binds []Val
	switch v := fnVal.(type) {
	case *Clo:
		fn, binds = v.fn, v.binds
	case *ssa.Function:
		fn = v
	default:
		t := e.scalar(fnVal)
		if t.Kind == kInt && t.N.Sign() == 0 {
			e.need(st, "safety", "nil function call", pos, c.fls)
			return false
		}
		return e.unknownFn(st, t, cc, args, res, pos)
	}
	if strings.HasSuffix(fn.Name(), "$bound") && len(fn.FreeVars) == 1 {
		// method value
		if fn.Blocks != nil {
			return e.enter(st, fn, args, binds, res, pos)
		}
	}
	n := e.p.FuncName(fn)
	if e.lockOp(st, n, args, res, pos) {
		return !st.dead
	}
	if ct := e.db.Contracts[n]; ct != nil && ct.Flags["inline"] == "" {
		if e.inlineOnly[n] {
			return e.enter(st, fn, args, binds, res, pos)
		}
		return e.applyContract(st, ct, fn.Signature, args, res, pos)
	}
	if fn.Blocks != nil && (e.p.InRepo(fn) || fn.Synthetic != "" && fn.Pkg == nil) {
		return e.enter(st, fn, args, binds, res, pos)
	}
	if fn.Synthetic != "" && fn.Blocks != nil {
		return e.enter(st, fn, args, binds, res, pos)
	}
	return e.unknownCall(st, n, fn.Signature, res)
}

func (e *Eng) ifaceAlts(cc *ssa.CallCommon) []string {
	// the method may be declared in an embedded interface; MethodName uses the declaring
	// one, contracts may be written on the embedding type of the receiver
	var out []string
	tn, pk := recvTypeName(cc.Value.Type())
	if tn != "" {
		out = append(out, pkgShort(pk)+"."+tn+"."+cc.Method.Name())
	}
	return out
}

// enter inlines a function body.
func (e *Eng) enter(st *State, fn *ssa.Function, args, binds []Val, res ssa.Value, pos token.Pos) bool {
	n := e.p.FuncName(fn)
	depth := 0
	for _, f := range st.frames {
		if f.fn == fn {
			depth++
		}
	}
	if depth > 0 {
		unsup("recursive call of %s has no contract", n)
	}
	if len(st.frames) > maxInline {
		unsup("inlining depth at %s", n)
	}
	if e.p.InRepo(fn) {
		e.inlined[n] = true
	}
	nf := e.newFrame(fn, args, binds)
	nf.call = res
	st.frames = append(st.frames, nf)
	return true
}

// unknownCall: function outside the repository without a contract; its results are arbitrary.
func (e *Eng) unknownCall(st *State, n string, sig *types.Signature, res ssa.Value) bool {
	e.assumed["external "+n+": returns arbitrary values, does not panic and writes nothing the contracts speak of"] = true
	nt := e.c.Fresh("top", SInt)
	e.assume(st, e.c.Le(st.top, nt))
	st.top = nt
	if res != nil {
		st.fr().regs[res] = e.results(st, n, sig, nil)
	}
	return true
}

func (e *Eng) results(st *State, n string, sig *types.Signature, names []string) Val {
	switch sig.Results().Len() {
	case 0:
		return Tuple{}
	case 1:
		return e.symVal(st, mangle(n)+"_r", sig.Results().At(0).Type(), true)
	}
	var tu Tuple
	for i := 0; i < sig.Results().Len(); i++ {
		tu = append(tu, e.symVal(st, fmt.Sprintf("%s_r%d", mangle(n), i), sig.Results().At(i).Type(), true))
	}
	return tu
}

// unknownFn: a function value that is not known statically.
func (e *Eng) unknownFn(st *State, t *Term, cc *ssa.CallCommon, args []Val, res ssa.Value, pos token.Pos) bool {
	// contract of a function-typed parameter: <function>.<param>
	fr := st.frames[0]
	for _, p := range fr.fn.Params {
		if v, ok := fr.regs[p].(*Term); ok && v == t {
			pn := e.name + ".func"
			if ct := e.db.Contracts[pn]; ct != nil {
				// whatever the function does, it is called with the locks of the entry only
				e.oblige(st, "lock", "no lock taken here is held while the function is called", e.p.Pos(pos), "", e.c.Eq(e.heldMap(st), e.heldMap(e.entry)))
				return e.applyContract(st, ct, cc.Signature(), args, res, pos)
			}
		}
	}
	unsup("call of unknown function value in %s", st.fr().fn)
	return false
}

// ---- contracts

func sigParams(sig *types.Signature) []*types.Var {
	var ps []*types.Var
	if sig.Recv() != nil {
		ps = append(ps, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	return ps
}

func needsNonNil(ct *Contract, name string, t types.Type) bool {
	if ct.Flags["nilable"] == "all" {
		return false
	}
	for _, x := range strings.Split(ct.Flags["nilable"], ",") {
		if x == name {
			return false
		}
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

func (e *Eng) nonNil(v Val) *Term {
	c := e.c
	switch x := v.(type) {
	case *Term:
		switch x.Sort {
		case SInt:
			if x.alloc || c.isOld[x] {
				return c.tru
			}
			return c.Not(c.Eq(x, c.Int(0)))
		case SIface:
			return c.Not(c.Eq(c.ITag(x), c.Int(0)))
		}
	}
	return c.tru
}

func (e *Eng) applyContract(st *State, ct *Contract, sig *types.Signature, args []Val, res ssa.Value, pos token.Pos) bool {
	c := e.c
	e.usedCt[ct.Name] = true
	if ct.Trusted {
		e.assumed["contract of "+ct.Name+" is assumed"] = true
	}
	ps := sigParams(sig)
	if len(ps) != len(args) && len(ct.Params) == len(args) {
		// interface method: receiver type unknown here
		ps = nil
	}
	env := &Env{st: st, vars: map[string]*SVal{}, ct: ct}
	visitor := strings.HasSuffix(ct.Name, ".func")
	if visitor { // may speak of the parameters of the function that calls it
		for k, v := range e.params {
			env.vars[k] = v
		}
		env.old = e.entry
	}
	for i, a := range args {
		if i >= len(ct.Params) {
			break
		}
		var t types.Type
		if i < len(ps) {
			t = ps[i].Type()
		} else if i > 0 && sig.Params().Len() >= i {
			t = sig.Params().At(i - 1).Type()
		}
		env.vars[ct.Params[i]] = e.mkSVal(a, t)
		if t != nil && !ct.Trusted && needsNonNil(ct, ct.Params[i], t) {
			e.need(st, "pre", ct.Name+": "+ct.Params[i]+" is not nil", pos, e.nonNil(a))
		}
	}
	for _, r := range ct.Req {
		g := e.evalBool(env, r.E)
		if e.dry == 0 && g != c.tru && !st.pcset[g] {
			e.oblige(st, "pre", ct.Name+" "+r.Label, e.p.Pos(pos), r.Src, g)
		} else {
			e.oblige(st, "pre", ct.Name+" "+r.Label, e.p.Pos(pos), r.Src, c.tru)
		}
		e.assume(st, g)
	}
	if ct.Flags["underlock"] == "" && !ct.Trusted {
		e.oblige(st, "lock", ct.Name+": no lock is held at the call", e.p.Pos(pos), "", c.Eq(e.heldMap(st), c.ConstArr(arrOf(SInt), c.Int(0))))
	}
	if ct.Flags["guarded"] != "" {
		e.acquire(st, pos)
	}
	if st.dead {
		return false
	}
	if ct.Flags["noreturn"] != "" {
		e.checkRaise(st)
		return false
	}
	if e.ct != nil && len(e.ct.Alloc) > 0 && e.dry == 0 {
		for _, a := range ct.Alloc {
			e.allocSize(st, e.eval(env, a.E).t, pos)
		}
	}
	old := st.clone()
	if ct.Flags["noalloc"] == "" { // before the written places get values: these may be new objects
		nt := c.Fresh("top", SInt)
		e.assume(st, c.Le(st.top, nt))
		st.top = nt
	}
	if visitor { // its writes are not those of the function under contract
		w, r := e.checkWr, e.running
		e.checkWr, e.running = false, false
		e.havocMods(st, ct, env)
		e.checkWr, e.running = w, r
	} else {
		e.havocMods(st, ct, env)
	}
	// results
	var rv Val
	var rs []Val
	nres := sig.Results().Len()
	hint := ct.Name[strings.LastIndex(ct.Name, ".")+1:]
	rs = make([]Val, nres)
	env2 := &Env{st: st, old: old, vars: map[string]*SVal{}, ct: ct, oldTop: old.top}
	for k, v := range env.vars {
		env2.vars[k] = v
	}
	bound := make([]bool, nres)
	// direct definitions r == expr
	done := map[int]bool{}
	for ci, en := range ct.Ens {
		x := en.E
		if x.Op == "bin" && x.Name == "==" && x.Args[0].Op == "id" {
			for i, rn := range ct.Results {
				if i < nres && rn == x.Args[0].Name && !bound[i] && !mentionsAny(x.Args[1], ct.Results, bound) {
					sv := e.eval(env2, x.Args[1])
					if sv.t != nil && sv.t.Sort == sortOf(sig.Results().At(i).Type()) {
						rs[i] = e.typed(st, sv.t, sig.Results().At(i).Type())
						bound[i] = true
						done[ci] = true
						env2.vars[rn] = &SVal{t: sv.t, typ: sig.Results().At(i).Type()}
					}
				}
			}
		}
	}
	for i := 0; i < nres; i++ {
		if !bound[i] {
			rn := ""
			if i < len(ct.Results) {
				rn = ct.Results[i]
			}
			rs[i] = e.symVal(st, hint+"_"+rn, sig.Results().At(i).Type(), true)
			if rn != "" {
				env2.vars[rn] = e.mkSVal(rs[i], sig.Results().At(i).Type())
			}
		}
	}
	for ci, en := range ct.Ens {
		if done[ci] {
			continue
		}
		e.assume(st, e.evalBool(env2, en.E))
	}
	switch nres {
	case 0:
		rv = Tuple{}
	case 1:
		rv = rs[0]
		if res != nil {
			if tt, ok := res.Type().(*types.Tuple); ok && tt.Len() == 1 {
				rv = Tuple(rs)
			}
		}
	default:
		rv = Tuple(rs)
	}
	e.setRes(st, res, rv)
	if e.ct != nil && len(e.ct.Always) > 0 && e.dry == 0 && len(ct.Mod) > 0 {
		e.checkAlways(st, pos)
	}
	return !st.dead
}

func mentionsAny(x *Ex, names []string, bound []bool) bool {
	if x == nil {
		return false
	}
	if x.Op == "id" {
		for i, n := range names {
			if n == x.Name && !(i < len(bound) && bound[i]) {
				return true
			}
		}
	}
	for _, a := range x.Args {
		if mentionsAny(a, names, bound) {
			return true
		}
	}
	return false
}

// modLocs evaluates the modifies clauses of a contract.
func (e *Eng) modLocs(env *Env, ct *Contract) []modLoc {
	var out []modLoc
	for _, m := range ct.Mod {
		out = append(out, e.modLoc(env, m.E)...)
	}
	return out
}

func (e *Eng) modLoc(env *Env, x *Ex) []modLoc {
	c := e.c
	switch x.Op {
	case "call":
		switch x.Name {
		case "bytes", "rows":
			s := e.eval(env, x.Args[0])
			fam := "E:u8"
			switch {
			case s.t != nil && s.t.Sort == SSlice:
				if s.typ != nil {
					if sl, ok := s.typ.Underlying().(*types.Slice); ok {
						fam = elemFam(sl.Elem())
						if st, ok := sl.Elem().Underlying().(*types.Struct); ok {
							var out []modLoc
							for i := 0; i < st.NumFields(); i++ {
								out = append(out, modLoc{fam: fam + "." + st.Field(i).Name(), ref: c.SRef(s.t), off: c.SOff(s.t), len: c.SLen(s.t), leaf: sortOf(st.Field(i).Type())})
							}
							return out
						}
						return []modLoc{{fam: fam, ref: c.SRef(s.t), off: c.SOff(s.t), len: c.SLen(s.t), leaf: sortOf(sl.Elem())}}
					}
				}
				return []modLoc{{fam: fam, ref: c.SRef(s.t), off: c.SOff(s.t), len: c.SLen(s.t), leaf: SInt}}
			case s.ref != nil:
				return []modLoc{{fam: "E:u8", ref: s.ref, off: c.Int(0), len: c.Int(s.n), leaf: SInt}}
			}
			panic(specErr{x.Pos + ": bytes() of a non-slice"})
		case "spare": // capacity after the length
			s := e.eval(env, x.Args[0])
			fam := "E:u8"
			leaf := SInt
			if s.typ != nil {
				if sl, ok := s.typ.Underlying().(*types.Slice); ok {
					if _, ok := sl.Elem().Underlying().(*types.Struct); ok {
						var out []modLoc
						for _, fl := range e.leaves(sl.Elem(), elemFam(sl.Elem())) {
							out = append(out, modLoc{fam: fl[0], ref: c.SRef(s.t), off: c.Add(c.SOff(s.t), c.SLen(s.t)), len: c.Sub(c.SCap(s.t), c.SLen(s.t)), leaf: fl[1]})
						}
						return out
					}
					fam, leaf = elemFam(sl.Elem()), sortOf(sl.Elem())
				}
			}
			return []modLoc{{fam: fam, ref: c.SRef(s.t), off: c.Add(c.SOff(s.t), c.SLen(s.t)), len: c.Sub(c.SCap(s.t), c.SLen(s.t)), leaf: leaf}}
		case "all": // every field of the struct pointed to
			s := e.eval(env, x.Args[0])
			return e.allFields(s)
		case "map":
			s := e.eval(env, x.Args[0])
			m := s.typ.Underlying().(*types.Map)
			k, v := e.mapSorts(m)
			return []modLoc{{fam: mapFam(m) + ":dom", ref: s.t, leaf: arrKV(k, SBool)}, {fam: mapFam(m) + ":val", ref: s.t, leaf: arrKV(k, v)}}
		case "anymap":
			// every map of a type, named by a sample expression
			s := e.eval(env, x.Args[0])
			m := s.typ.Underlying().(*types.Map)
			k, v := e.mapSorts(m)
			return []modLoc{{fam: mapFam(m) + ":dom", any: true, leaf: arrKV(k, SBool)}, {fam: mapFam(m) + ":val", any: true, leaf: arrKV(k, v)}}
		case "anyfam":
			return []modLoc{{fam: x.Args[0].Name, any: true}}
		}
		// ghost field
		if g, ok := ghostSort[x.Name]; ok {
			s := e.eval(env, x.Args[0])
			return []modLoc{{fam: "G:" + x.Name, ref: e.ghostKey(s), leaf: g}}
		}
	case "dot":
		s := e.eval(env, x.Args[0])
		p := e.fieldPtr(env, s, x.Name, x.Pos)
		switch q := p.v.(type) {
		case *Ptr:
			if q.idx != nil {
				return []modLoc{{fam: q.fam, ref: q.ref, off: q.idx, len: c.Int(1), leaf: sortOf(q.typ)}}
			}
			return []modLoc{{fam: q.fam, ref: q.ref, leaf: sortOf(q.typ)}}
		case *Term: // nested struct or array
			switch u := p.typ.Underlying().(type) {
			case *types.Struct:
				return e.allFields(&SVal{t: q, typ: types.NewPointer(p.typ)})
			case *types.Array:
				return []modLoc{{fam: elemFam(u.Elem()), ref: q, off: c.Int(0), len: c.Int(u.Len()), leaf: sortOf(u.Elem())}}
			}
		}
	case "id":
		s := e.eval(env, x)
		if s.typ != nil {
			if p, ok := s.typ.Underlying().(*types.Pointer); ok {
				if sortOf(p.Elem()) != "" && s.t != nil {
					return []modLoc{{fam: cellFam(p.Elem()), ref: s.t, leaf: sortOf(p.Elem())}}
				}
			}
		}
	}
	panic(specErr{x.Pos + ": bad modifies expression"})
}

func (e *Eng) allFields(s *SVal) []modLoc {
	c := e.c
	var out []modLoc
	p, ok := s.typ.Underlying().(*types.Pointer)
	if !ok {
		panic(specErr{"all() of a non-pointer"})
	}
	t := p.Elem()
	u := structFields(t)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if isSync(ft) {
			continue
		}
		switch a := ft.Underlying().(type) {
		case *types.Struct:
			out = append(out, e.allFields(&SVal{t: s.t, typ: types.NewPointer(ft)})...)
		case *types.Array:
			out = append(out, modLoc{fam: elemFam(a.Elem()), ref: c.Emb(s.t, e.embKey(t, i)), off: c.Int(0), len: c.Int(a.Len()), leaf: sortOf(a.Elem())})
		default:
			out = append(out, modLoc{fam: fieldFam(t, i), ref: s.t, leaf: sortOf(ft), typ: ft})
		}
	}
	return out
}

func (e *Eng) havocMods(st *State, ct *Contract, env *Env) {
	c := e.c
	for _, m := range e.modLocs(env, ct) {
		leaf := m.leaf
		h := e.heapGet(st, m.fam, leaf)
		if m.any {
			e.checkWrite(st, m.fam, nil, nil, nil)
			e.noteWrite(st, m.fam, nil)
			n := c.Fresh(mangle(m.fam), h.Sort)
			if m.fam == "E:u8" {
				c.markBytes(n)
			}
			st.heap[m.fam] = n
			continue
		}
		e.checkWrite(st, m.fam, m.ref, m.off, m.len)
		e.noteWrite(st, m.fam, m.ref)
		if m.off != nil {
			if m.fam == "E:u8" {
				if _, ok := e.isStrref(m.ref); ok {
					continue // read-only or empty
				}
			}
			row := e.row(st, m.fam, m.ref, leaf)
			q := c.Fresh("w", seqFor(m.fam, leaf))
			c.lenOf[q] = m.len
			e.assume(st, c.Eq(c.Len(q), m.len))
			st.heap[m.fam] = c.Store(h, m.ref, c.Wr(row, m.off, q))
			continue
		}
		v := c.Fresh(mangle(m.fam), c.elemSort(h.Sort))
		if m.fam == "E:u8" {
			c.markBytes(v)
		}
		if m.typ != nil {
			e.typed(st, v, m.typ)
		} else {
			e.typeRow(st, m.fam, v)
		}
		st.heap[m.fam] = c.Store(h, m.ref, v)
	}
}

// ---- frame

func (e *Eng) isRO(ref *Term) *Term {
	c := e.c
	if _, ok := e.isStrref(ref); ok {
		return c.tru
	}
	if ref.alloc {
		return c.fls
	}
	if _, _, ok := c.unEmb(ref); ok {
		return c.fls
	}
	if ref.Kind == kInt {
		return c.fls
	}
	return c.App("isro", SBool, ref)
}

// freshRef: the object was allocated after the entry of the function under verification.
func (e *Eng) freshRef(ref *Term) *Term {
	c := e.c
	if e.entryTop == nil {
		return c.fls
	}
	if ref.alloc {
		return c.tru
	}
	if r, _, ok := c.unEmb(ref); ok {
		return e.freshRef(r)
	}
	return c.Lt(e.entryTop, ref)
}

func (e *Eng) checkWrite(st *State, fam string, ref, off, ln *Term) {
	if fam == "G:held" {
		return
	}
	e.guard(st, ref, true)
	if !e.checkWr || e.dry > 0 || st.dead {
		return
	}
	c := e.c
	if ref == nil {
		for _, m := range e.mods {
			if m.any && m.fam == fam {
				return
			}
		}
		e.oblige(st, "frame", "modifies "+fam, "", "", c.fls)
		return
	}
	if ln != nil && ln.Kind == kInt && ln.N.Sign() == 0 {
		return
	}
	var ok []*Term
	ok = append(ok, e.freshRef(ref))
	if off != nil && ln != nil {
		ok = append(ok, c.Le(ln, c.Int(0)))
	}
	for _, m := range e.mods {
		if m.fam != fam {
			continue
		}
		if m.any {
			ok = []*Term{c.tru}
			break
		}
		cond := c.Eq(ref, m.ref)
		if m.off != nil && off != nil {
			end := c.Add(m.off, m.len)
			for _, k := range e.mods { // places side by side
				if k.fam == fam && k.ref == m.ref && k.off == end && k.len != nil {
					end = c.Add(k.off, k.len)
				}
			}
			cond = c.And(cond, c.Le(m.off, off), c.Le(c.Add(off, ln), end))
		}
		ok = append(ok, cond)
	}
	g := c.Or(ok...)
	if fam == "E:u8" && off != nil {
		ro := e.isRO(ref)
		g = c.And(g, c.Or(c.Le(ln, c.Int(0)), c.Not(ro)))
	}
	e.oblige(st, "frame", "writes only what modifies allows: "+fam, "", "", g)
}

// checkRaise: a Lua error or panic that the contract allows; `raises` clauses are checked.
func (e *Eng) checkRaise(st *State) {
	if e.ct == nil || e.dry > 0 {
		return
	}
	if len(e.ct.Raises) == 0 {
		return
	}
	for _, r := range e.ct.Raises {
		env := e.baseEnv(st)
		e.oblige(st, "raises", r.Label, "", r.Src, e.evalBool(env, r.E))
	}
}

func (e *Eng) checkAlways(st *State, pos token.Pos) {
	for _, r := range e.ct.Always {
		env := e.baseEnv(st)
		e.oblige(st, "always", r.Label, e.p.Pos(pos), r.Src, e.evalBool(env, r.E))
	}
}

func (e *Eng) allocSize(st *State, n *Term, pos token.Pos) {
	if e.ct == nil || len(e.ct.Alloc) == 0 || e.dry > 0 {
		return
	}
	for _, a := range e.ct.Alloc {
		env := e.baseEnv(st)
		lim := e.eval(env, a.E).t
		e.oblige(st, "alloc", "memory in proportion", e.p.Pos(pos), a.Src, e.c.Le(n, lim))
	}
}

func (e *Eng) initGhost(st *State, r *Term, t types.Type) {
	tn := typeName(t)
	switch tn {
	case "bytes.Buffer", "strings.Builder":
		h := e.heapGet(st, "G:sdata", SStr)
		e.noteWrite(st, "G:sdata", r)
		st.heap["G:sdata"] = e.c.Store(h, r, e.c.StrLit(""))
	}
	if isSync(t) {
		e.setHeld(st, r, 0)
	}
}

// ---- builtins

func (e *Eng) builtin(st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, res ssa.Value, pos token.Pos) bool {
	c := e.c
	switch b.Name() {
	case "len", "cap":
		t := cc.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Basic:
			e.setRes(st, res, c.Len(e.scalar(args[0])))
			e.strLenFact(st, e.scalar(args[0]))
		case *types.Slice:
			s := e.scalar(args[0])
			if b.Name() == "len" {
				e.setRes(st, res, c.SLen(s))
			} else {
				e.setRes(st, res, c.SCap(s))
			}
		case *types.Map:
			m := e.scalar(args[0])
			n := c.App("maplen_"+mangle(mapFam(u)), SInt, e.mapDom(st, u, m))
			c.SetRange(n, new(big.Int), maxLen)
			e.setRes(st, res, n)
		case *types.Array:
			e.setRes(st, res, c.Int(u.Len()))
		case *types.Pointer:
			e.setRes(st, res, c.Int(u.Elem().Underlying().(*types.Array).Len()))
		default:
			n := c.Fresh("len", SInt)
			c.SetRange(n, new(big.Int), maxLen)
			e.setRes(st, res, n)
		}
		return true
	case "append":
		return e.doAppend(st, cc, args, res, pos)
	case "copy":
		return e.doCopy(st, cc, args, res, pos)
	case "delete":
		m := cc.Args[0].Type().Underlying().(*types.Map)
		ref, k := e.scalar(args[0]), e.scalar(args[1])
		// deleting from a nil map does nothing
		d := e.mapDom(st, m, ref)
		e.mapSetDom(st, m, ref, c.Store(d, k, c.fls))
		return true
	case "panic":
		e.raise(st, "panic", pos)
		return false
	case "recover":
		e.setRes(st, res, c.NilIface())
		return true
	case "print", "println":
		return true
	case "min", "max":
		r := e.scalar(args[0])
		for _, a := range args[1:] {
			x := e.scalar(a)
			if b.Name() == "min" {
				r = c.Ite(c.Le(r, x), r, x)
			} else {
				r = c.Ite(c.Le(x, r), r, x)
			}
		}
		e.setRes(st, res, r)
		return true
	case "SliceData":
		s := e.scalar(args[0])
		el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		e.setRes(st, res, &Ptr{fam: elemFam(el), ref: c.SRef(s), idx: c.SOff(s), typ: el})
		return true
	case "StringData":
		s := e.scalar(args[0])
		if s.Kind == kApp && s.Op == "view_Str" {
			// still treated as an immutable string of its own
		}
		e.setRes(st, res, &Ptr{fam: "E:u8", ref: e.strref(s), idx: c.Int(0), typ: types.Typ[types.Uint8]})
		return true
	case "String":
		p, ok := args[0].(*Ptr)
		if !ok {
			unsup("unsafe.String of %T", args[0])
		}
		n := e.scalar(args[1])
		e.need(st, "safety", "unsafe.String length", pos, c.Le(c.Int(0), n))
		e.assumed["a string made by unsafe.String is not changed later through the slice it shares memory with"] = true
		e.setRes(st, res, e.viewOf(st, "E:u8", c.MkSlice(p.ref, p.idx, n, n), SInt))
		return true
	case "Slice":
		p, ok := args[0].(*Ptr)
		if !ok {
			unsup("unsafe.Slice of %T", args[0])
		}
		n := e.scalar(args[1])
		e.need(st, "safety", "unsafe.Slice length", pos, c.Le(c.Int(0), n))
		e.setRes(st, res, c.MkSlice(p.ref, p.idx, n, n))
		return true
	case "ssa:wrapnilchk":
		e.setRes(st, res, args[0])
		return true
	case "close", "clear":
		return true
	}
	unsup("builtin %s", b.Name())
	return false
}

// leaves lists the scalar leaf families of a slice element type.
func (e *Eng) leaves(el types.Type, fam string) [][2]string {
	if s := sortOf(el); s != "" {
		return [][2]string{{fam, s}}
	}
	if u, ok := el.Underlying().(*types.Struct); ok {
		var out [][2]string
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, e.leaves(u.Field(i).Type(), fam+"."+u.Field(i).Name())...)
		}
		return out
	}
	unsup("slice of %s", el)
	return nil
}

func (e *Eng) doAppend(st *State, cc *ssa.CallCommon, args []Val, res ssa.Value, pos token.Pos) bool {
	c := e.c
	sl, ok := cc.Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		unsup("append to %s", cc.Args[0].Type())
	}
	s := e.scalar(args[0])
	if len(args) == 1 {
		e.setRes(st, res, s)
		return true
	}
	x := e.scalar(args[1])
	var k *Term
	fams := e.leaves(sl.Elem(), elemFam(sl.Elem()))
	var src func(fam, leaf string, st *State) *Term
	if x.Sort == SStr {
		k = c.Len(x)
		src = func(fam, leaf string, st *State) *Term { return x }
	} else {
		k = c.SLen(x)
		src = func(fam, leaf string, st *State) *Term { return e.viewOf(st, fam, x, leaf) }
	}
	n, m := c.SLen(s), c.SCap(s)
	tot := c.Add(n, k)
	fits := c.Le(tot, m)
	grow := func(st *State) {
		e.assume(st, c.Lt(m, tot))
		if st.dead {
			return
		}
		r := e.alloc(st, "append")
		cp := c.Fresh("cap", SInt)
		c.SetRange(cp, new(big.Int), maxLen)
		e.assume(st, c.Le(tot, cp))
		for _, fl := range fams {
			row := c.Fresh("row", arrOf(fl[1]))
			q := c.Cat(e.viewOf(st, fl[0], s, fl[1]), src(fl[0], fl[1], st))
			e.setRow(st, fl[0], r, c.Wr(row, c.Int(0), q), fl[1])
		}
		e.setRes(st, res, c.MkSlice(r, c.Int(0), tot, cp))
	}
	inpl := func(st *State) {
		e.assume(st, fits)
		if st.dead {
			return
		}
		for _, fl := range fams {
			ref := c.SRef(s)
			if _, ro := e.isStrref(ref); ro {
				continue
			}
			if k.Kind == kInt && k.N.Sign() == 0 {
				continue
			}
			e.checkWrite(st, fl[0], ref, c.Add(c.SOff(s), n), k)
			row := e.row(st, fl[0], ref, fl[1])
			e.setRow(st, fl[0], ref, c.Wr(row, c.Add(c.SOff(s), n), src(fl[0], fl[1], st)), fl[1])
		}
		e.setRes(st, res, c.MkSlice(c.SRef(s), c.SOff(s), tot, m))
	}
	canFit := e.feasible(st, fits)
	canGrow := e.feasible(st, c.Not(fits))
	switch {
	case canFit && canGrow:
		s2 := st.clone()
		s2.trace = append(s2.trace, e.p.Pos(pos)+": append in place")
		inpl(s2)
		if !s2.dead {
			e.fork(s2)
		}
		st.trace = append(st.trace, e.p.Pos(pos)+": append reallocates")
		grow(st)
	case canFit:
		inpl(st)
	default:
		grow(st)
	}
	return !st.dead
}

func (e *Eng) doCopy(st *State, cc *ssa.CallCommon, args []Val, res ssa.Value, pos token.Pos) bool {
	c := e.c
	d := e.scalar(args[0])
	x := e.scalar(args[1])
	sl := cc.Args[0].Type().Underlying().(*types.Slice)
	fams := e.leaves(sl.Elem(), elemFam(sl.Elem()))
	var k *Term
	if x.Sort == SStr {
		k = c.Len(x)
	} else {
		k = c.SLen(x)
	}
	n := c.SLen(d)
	do := func(st *State, cnt *Term) {
		for _, fl := range fams {
			var q *Term
			if x.Sort == SStr {
				q = c.SubSeq(x, c.Int(0), cnt)
			} else {
				q = e.viewOf(st, fl[0], c.MkSlice(c.SRef(x), c.SOff(x), cnt, c.SCap(x)), fl[1])
			}
			if cnt.Kind == kInt && cnt.N.Sign() == 0 {
				continue
			}
			ref := c.SRef(d)
			e.checkWrite(st, fl[0], ref, c.SOff(d), cnt)
			if _, ro := e.isStrref(ref); ro {
				continue
			}
			row := e.row(st, fl[0], ref, fl[1])
			e.setRow(st, fl[0], ref, c.Wr(row, c.SOff(d), q), fl[1])
		}
		e.setRes(st, res, cnt)
	}
	le := c.Le(k, n)
	a, b := e.feasible(st, le), e.feasible(st, c.Not(le))
	switch {
	case a && b:
		s2 := st.clone()
		e.assume(s2, c.Not(le))
		if !s2.dead {
			do(s2, n)
			e.fork(s2)
		}
		e.assume(st, le)
		do(st, k)
	case a:
		e.assume(st, le)
		do(st, k)
	default:
		e.assume(st, c.Not(le))
		do(st, n)
	}
	return !st.dead
}
