package main

// Driver: verification of functions and lemmas.

import (
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblResult struct {
	Fn, Kind, Label, Pos, Src string
	OK                        bool
	Backend                   string
	Trace                     []string
}

type FnResult struct {
	Name    string
	Pos     string
	Obls    []OblResult
	Err     string // outside the verifier's reach
	Used    map[string]bool
	Assumed map[string]bool
	Inlined map[string]bool
	Lemmas  map[string]bool
	Returns int
	Invs    int
	Steps   int
	Secs    float64
}

func (r *FnResult) OK() bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obls {
		if !o.OK {
			return false
		}
	}
	return true
}

// patience lengthens a time limit on a machine that is busy with something else.
func patience(d time.Duration) time.Duration {
	var load float64
	if b, err := os.ReadFile("/proc/loadavg"); err == nil {
		fmt.Sscan(string(b), &load)
	}
	f := load / float64(runtime.NumCPU()) / 1.5
	if f < 1 {
		f = 1
	}
	if f > 3 {
		f = 3
	}
	return time.Duration(float64(d) * f)
}

func NewEng(p *Program, db *SpecDB, sv *Solver) *Eng {
	return &Eng{c: NewCtx(), p: p, db: db, sv: sv,
		pdom: map[*ssa.BasicBlock]*ssa.BasicBlock{}, famSort: map[string]string{}, base0: map[string]*Term{}, iptr: map[*Term]*Ptr{}, clos: map[*Term]*Clo{},
		oblKey: map[string]bool{}, params: map[string]*SVal{}, usedCt: map[string]bool{}, assumed: map[string]bool{},
		inlined: map[string]bool{}, loopsOf: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, tids: map[string]*Term{},
		famTypes: map[string]types.Type{}, innerConf: map[string]bool{}, tagType: map[*Term]types.Type{},
		inlineOnly: map[string]bool{}, ghosts: map[string]*SVal{}, symMemo: map[*Term][]*Term{}, lemAx: map[*Lemma]*Term{},
		embs: map[string]int{}, maxStep: 400000, houdT: patience(3 * time.Second), lemUsed: map[string]bool{}, hide: map[string]bool{}}
}

func newState(e *Eng) *State {
	c := e.c
	st := &State{heap: map[string]*Term{}, pcset: map[*Term]bool{}, iv: map[*Term]Interval{}, ghost: map[string]*Term{}}
	st.top = c.Sym("top@entry", SInt)
	c.SetRange(st.top, new(big.Int), nil)
	e.entryTop = st.top
	return st
}

var obTimeout = 20 * time.Second

func guardRun(f func()) (err string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				err = x.msg
			case specErr:
				err = "contract: " + x.msg
			default:
				buf := make([]byte, 8192)
				n := runtime.Stack(buf, false)
				err = fmt.Sprintf("internal: %v\n%s", r, buf[:n])
			}
		}
	}()
	f()
	return ""
}

func verifyFunc(p *Program, db *SpecDB, sv *Solver, name string, verbose bool) *FnResult {
	t0 := time.Now()
	res := &FnResult{Name: name}
	ct := db.Contracts[name]
	fn := p.Funcs[fnOf(name)]
	if ct == nil || fn == nil {
		res.Err = "no such function or contract"
		return res
	}
	res.Pos = p.Pos(fn.Pos())
	e := NewEng(p, db, sv)
	e.name, e.fn, e.ct, e.verbose = name, fn, ct, verbose
	c := e.c
	if n, err := strconv.Atoi(ct.Flags["depth"]); err == nil {
		e.recD = n
	}
	_, e.mergeOn = ct.Flags["merge"]
	_, e.simple = ct.Flags["simple"]
	if n, err := strconv.Atoi(ct.Flags["houd"]); err == nil {
		e.houdT = patience(time.Duration(n) * time.Second)
	}
	res.Err = guardRun(func() {
		e.loadLemmas(nil)
		for _, x := range strings.Split(ct.Flags["hide"], ",") {
			e.hide[x] = true
		}
		for _, x := range strings.Split(ct.Flags["inlines"], ",") {
			if x != "" {
				e.inlineOnly[x] = true
			}
		}
		st := newState(e)
		for _, g := range ct.Ghost {
			e.ghosts[g.Name] = &SVal{t: c.Sym("ghost_"+g.Name, g.Sort)}
		}
		if len(fn.Params) != len(ct.Params) {
			unsup("contract of %s has %d parameters, the function %d", name, len(ct.Params), len(fn.Params))
		}
		var args []Val
		for i, q := range fn.Params {
			pn := ct.Params[i]
			v := e.symVal(st, pn, q.Type(), false)
			args = append(args, v)
			e.params[pn] = e.mkSVal(v, q.Type())
			if needsNonNil(ct, pn, q.Type()) {
				e.assume(st, e.nonNil(v))
			}
			if t, ok := v.(*Term); ok {
				switch q.Type().Underlying().(type) {
				case *types.Pointer:
					e.assume(st, c.Le(c.Int(0), t))
				}
			}
		}
		var binds []Val
		for _, q := range fn.FreeVars {
			v := e.symVal(st, "fv_"+q.Name(), q.Type(), false)
			if t, ok := v.(*Term); ok {
				e.assume(st, c.Lt(c.Int(0), t))
			}
			binds = append(binds, v)
			e.params[q.Name()] = e.mkSVal(v, q.Type())
		}
		env := &Env{st: st, vars: e.params, ct: ct}
		if ct.Flags["underlock"] == "" {
			st.heap["G:held"] = c.ConstArr(arrOf(SInt), c.Int(0))
			e.famSortOf("G:held", SInt)
		}
		for _, r := range ct.Req {
			e.assume(st, e.evalBool(env, r.E))
		}
		for _, m := range ct.Mod {
			if m.E.Op == "call" && m.E.Name == "bytes" {
				s := e.eval(env, m.E.Args[0])
				if s.t != nil && s.t.Sort == SSlice {
					e.assume(st, c.Not(e.isRO(c.SRef(s.t))))
				}
			}
			if m.E.Op == "call" && m.E.Name == "spare" {
				s := e.eval(env, m.E.Args[0])
				if s.t != nil && s.t.Sort == SSlice {
					e.assume(st, c.Imp(c.Lt(c.SLen(s.t), c.SCap(s.t)), c.Not(e.isRO(c.SRef(s.t)))))
				}
			}
		}
		// vacuity: the precondition must be satisfiable
		vac := !sv.Prove(e.query(st.pc, st.iv, c.fls), 2*time.Second)
		res.Obls = append(res.Obls, OblResult{Fn: name, Kind: "vacuity", Label: "precondition is not contradictory", OK: vac, Backend: "z3-new"})
		e.entry = st.clone()
		e.mods = e.modLocs(env, ct)
		e.checkWr = ct.Flags["noframe"] == ""
		if gx := ct.Flags["guarded"]; gx != "" {
			pr := &parser{t: lex(gx, ct.Pos)}
			e.lockOf = e.ghostKey(e.eval(env, pr.expr()))
		}
		e.shStart(st)
		live := 0
		e.finalCk = func(st *State, rs []Val) {
			env := e.baseEnv(st)
			sig := fn.Signature
			for i, r := range rs {
				if i < len(ct.Results) {
					env.vars[ct.Results[i]] = e.mkSVal(r, sig.Results().At(i).Type())
				}
			}
			if live < 3 && !st.dead && !sv.Prove(e.query(st.pc, st.iv, c.fls), time.Second) {
				live++
			}
			if smokeAll && !st.dead && sv.Prove(e.query(st.pc, st.iv, c.fls), 3*time.Second) {
				fmt.Printf("     SMOKE %s: a return is never reached: %v\n", name, st.trace)
			}
			if e.shLock != nil {
				e.shUnchanged(st, token.NoPos)
			}
			for _, u := range ct.Uses {
				e.useLemma(env, st, u)
			}
			for _, en := range ct.Ens {
				e.oblige(st, "post", en.Label, en.Pos, en.Src, e.evalBool(env, en.E))
			}
			e.oblige(st, "lock", "locks as at entry", "", "", c.Eq(e.heldMap(st), e.heldMap(e.entry)))
		}
		st.frames = []*Frame{e.newFrame(fn, args, binds)}
		e.run(st)
		if ct.Flags["noreturn"] == "" {
			res.Obls = append(res.Obls, OblResult{Fn: name, Kind: "vacuity", Label: "some execution returns", OK: live > 0, Backend: "z3-new"})
		}
		if verbose {
			fmt.Printf("  [%s] executed: %d steps, %d returns, %d obligations, %.1fs\n", name, e.steps, e.returns, len(e.obls), time.Since(t0).Seconds())
		}
		e.discharge(res, obTimeout)
	})
	res.Used, res.Assumed, res.Inlined, res.Lemmas = e.usedCt, e.assumed, e.inlined, e.lemUsed
	res.Returns, res.Invs, res.Steps = e.returns, e.invUsed, e.steps
	res.Secs = time.Since(t0).Seconds()
	return res
}

// fnOf: a function has a second contract under its name with a suffix.
func fnOf(name string) string {
	if i := strings.IndexByte(name, '@'); i >= 0 {
		return name[:i]
	}
	return name
}

// useLemma assumes an instance of a lemma: `use name(args)`.
func (e *Eng) useLemma(env *Env, st *State, u *Ex) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); ok {
				return
			}
			panic(r)
		}
	}()
	for _, l := range e.db.Lemmas {
		if l.Name == u.Name {
			n := &Env{st: e.pureState(), vars: map[string]*SVal{}}
			for i, p := range l.Params {
				n.vars[p.Name] = e.argSort(env, e.eval(env, u.Args[i]), p.Sort, u)
			}
			var rq, en []*Term
			for _, r := range l.Req {
				rq = append(rq, e.evalBool(n, r.E))
			}
			for _, r := range l.Ens {
				en = append(en, e.evalBool(n, r.E))
			}
			e.lemUsed[l.Name] = true
			e.assume(st, e.c.Imp(e.c.And(rq...), e.c.And(en...)))
		}
	}
}

func (e *Eng) discharge(res *FnResult, timeout time.Duration) {
	base := len(res.Obls)
	qs := make([]*Query, len(e.obls))
	for i, o := range e.obls {
		qs[i] = e.query(o.PC, o.IV, o.Goal)
		res.Obls = append(res.Obls, OblResult{Fn: o.Fn, Kind: o.Kind, Label: o.Label, Pos: o.Pos, Src: o.Src, Trace: o.Trace})
	}
	// smoke test: the facts of some path must be consistent with the goal proved on it
	type smokeG struct {
		label string
		idx   []int
		q     []*Query
		triv  bool
	}
	var smoke []*smokeG
	byLabel := map[string]*smokeG{}
	for i, o := range e.obls {
		if o.Goal == e.c.fls || (o.Kind != "post" && o.Kind != "lemma" && o.Kind != "always") {
			continue
		}
		k := o.Label + o.Src
		g := byLabel[k]
		if g == nil {
			if len(smoke) >= 6 {
				continue
			}
			g = &smokeG{label: o.Kind + " " + o.Label}
			byLabel[k] = g
			smoke = append(smoke, g)
		}
		g.idx = append(g.idx, i)
		if qs[i].triv {
			g.triv = true // decided without the facts
			continue
		}
		if len(g.q) < 8 {
			g.q = append(g.q, e.query(o.PC, o.IV, e.c.Not(o.Goal)))
		}
	}
	var wg sync.WaitGroup
	fails := int32(0)
	var mu sync.Mutex
	for i := range qs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			mu.Lock()
			skip := fails >= 6
			mu.Unlock()
			r := &res.Obls[base+i]
			if skip && !qs[i].triv {
				r.OK, r.Backend = false, "not attempted after other failures"
				return
			}
			r.OK, r.Backend = e.sv.Decide(qs[i], timeout)
			if d := os.Getenv("GOVC_DUMP"); d != "" && !qs[i].triv {
				os.WriteFile(fmt.Sprintf("%s/%s_%d_%s.smt2", d, mangle(e.name), i, r.Kind), []byte(qs[i].text+"\n(check-sat)\n(get-model)\n"), 0o644)
			}
			if !r.OK {
				mu.Lock()
				fails++
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	for _, g := range smoke {
		ok := true
		for _, i := range g.idx {
			ok = ok && res.Obls[base+i].OK
		}
		if !ok || g.triv {
			continue
		}
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			bad := true
			for _, q := range g.q {
				if !bad {
					break
				}
				bad = !q.triv && e.sv.ask(q.text, 800*time.Millisecond) == "unsat"
			}
			o := e.obls[g.idx[0]]
			mu.Lock()
			res.Obls = append(res.Obls, OblResult{Fn: o.Fn, Kind: "vacuity", Label: "facts and goal are consistent: " + g.label, Pos: o.Pos, OK: !bad, Backend: "z3-new"})
			mu.Unlock()
		}()
	}
	wg.Wait()
}

func proveLemma(p *Program, db *SpecDB, sv *Solver, l *Lemma) *FnResult {
	t0 := time.Now()
	res := &FnResult{Name: "lemma " + l.Name, Pos: l.Pos}
	if l.Axiom {
		return res
	}
	e := NewEng(p, db, sv)
	e.name = res.Name
	if l.Depth > 0 {
		e.recD = l.Depth
	}
	for _, x := range l.Hide {
		e.hide[x] = true
	}
	c := e.c
	res.Err = guardRun(func() {
		e.loadLemmas(l)
		st := newState(e)
		vars := map[string]*SVal{}
		for _, q := range l.Params {
			vars[q.Name] = &SVal{t: c.Sym("l_"+q.Name, q.Sort)}
		}
		env := &Env{st: st, vars: vars}
		for _, r := range l.Req {
			e.assume(st, e.evalBool(env, r.E))
		}
		for _, v := range vars {
			if iv, ok := st.iv[v.t]; ok && v.t.Sort == SInt {
				c.SetRange(v.t, iv.lo, iv.hi) // hypotheses of the lemma
			}
			if isSeq(v.t.Sort) {
				if iv, ok := st.iv[c.Len(v.t)]; ok && iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) == 0 {
					c.lenOf[v.t] = c.Big(iv.lo)
				}
			}
		}
		vac := !sv.Prove(e.query(st.pc, st.iv, c.fls), time.Second)
		res.Obls = append(res.Obls, OblResult{Fn: res.Name, Kind: "vacuity", Label: "hypotheses are not contradictory", OK: vac, Backend: "z3-new"})
		if l.Induct != nil {
			m := e.evalInt(env, l.Induct)
			var vs []*Term
			v2 := map[string]*SVal{}
			for _, q := range l.Params {
				b := c.BoundVar("h_"+q.Name, q.Sort)
				vs = append(vs, b)
				v2[q.Name] = &SVal{t: b}
			}
			n2 := &Env{st: st, vars: v2}
			m2 := e.evalInt(n2, l.Induct)
			hyp := []*Term{c.Le(c.Int(0), m2), c.Lt(m2, m)}
			for _, r := range l.Req {
				hyp = append(hyp, e.evalBool(n2, r.E))
			}
			var con []*Term
			for _, r := range l.Ens {
				con = append(con, e.evalBool(n2, r.E))
			}
			var tr [][]*Term
			for _, g := range l.Trig {
				var ts []*Term
				for _, x := range g {
					ts = append(ts, e.eval(n2, x).t)
				}
				tr = append(tr, ts)
			}
			explicit := false
			for _, u := range l.UseEx {
				explicit = explicit || u.Name == l.Name
			}
			if !explicit {
				e.assume(st, c.Forall(vs, c.Imp(c.And(hyp...), c.And(con...)), tr...))
			}
			res.Obls = append(res.Obls, OblResult{Fn: res.Name, Kind: "vacuity", Label: "induction is on a natural number", OK: true, Backend: "hypothesis requires 0 <= m' < m"})
		}
		for _, u := range l.Uses {
			for _, o := range db.Lemmas {
				if o == l {
					break
				}
				if o.Name == u {
					e.assume(st, e.lemmaAxiom(o))
					e.lemUsed[o.Name] = true
				}
			}
		}
		for _, u := range l.UseEx {
			if u.Name == l.Name && l.Induct != nil { // the induction hypothesis at these values
				m := e.evalInt(env, l.Induct)
				n2 := &Env{st: st, vars: map[string]*SVal{}}
				for i, q := range l.Params {
					n2.vars[q.Name] = e.argSort(env, e.eval(env, u.Args[i]), q.Sort, u)
				}
				m2 := e.evalInt(n2, l.Induct)
				hyp := []*Term{c.Le(c.Int(0), m2), c.Lt(m2, m)}
				for _, r := range l.Req {
					hyp = append(hyp, e.evalBool(n2, r.E))
				}
				var con []*Term
				for _, r := range l.Ens {
					con = append(con, e.evalBool(n2, r.E))
				}
				e.assume(st, c.Imp(c.And(hyp...), c.And(con...)))
				continue
			}
			before := false
			for _, o := range db.Lemmas {
				if o == l {
					break
				}
				before = before || o.Name == u.Name
			}
			if !before {
				panic(specErr{u.Pos + ": lemma " + u.Name + " is not declared before"})
			}
			e.useLemma(env, st, u)
		}
		for _, r := range l.Ens {
			e.oblige(st, "lemma", l.Name, r.Pos, r.Src, e.evalBool(env, r.E))
		}
		e.discharge(res, obTimeout)
	})
	res.Lemmas = e.lemUsed
	res.Secs = time.Since(t0).Seconds()
	return res
}

func (r *FnResult) print(all bool) {
	ok, bad := 0, 0
	for _, o := range r.Obls {
		if o.OK {
			ok++
		} else {
			bad++
		}
	}
	status := "ok"
	if !r.OK() {
		status = "FAIL"
	}
	fmt.Printf("%-4s %-34s %d/%d obligations, %d returns, %.1fs\n", status, r.Name, ok, ok+bad, r.Returns, r.Secs)
	if r.Err != "" {
		fmt.Println("     error:", r.Err)
	}
	for _, o := range r.Obls {
		if !o.OK {
			fmt.Printf("     FAILED %s %s at %s: %s [%s]\n", o.Kind, o.Label, o.Pos, strings.ReplaceAll(o.Src, "\n", " "), o.Backend)
			for _, t := range o.Trace {
				fmt.Println("            ", t)
			}
		}
	}
}

var smokeAll = os.Getenv("GOVC_SMOKE") != ""

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc verify|check|lemmas|list")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("govc", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	specs := fs.String("specs", "/verif/contracts", "contracts")
	verbose := fs.Bool("v", false, "verbose")
	prop := fs.String("prop", "", "property")
	out := fs.String("out", "/verif", "verification directory")
	jobs := fs.Int("j", 8, "solver processes")
	to := fs.Int("t", 20, "seconds per obligation")
	fs.Parse(os.Args[2:])
	obTimeout = time.Duration(*to) * time.Second
	switch os.Args[1] {
	case "check":
		runCheck(*repo, *specs, *out, *prop, *jobs)
		return
	}
	db, err := LoadSpecs(*specs)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	p, err := LoadProgram(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	sv := NewSolver(*jobs)
	switch os.Args[1] {
	case "list":
		var ns []string
		for n := range p.Funcs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			m := " "
			if db.Contracts[n] != nil {
				m = "C"
			}
			fmt.Println(m, n, p.Pos(p.Funcs[n].Pos()))
		}
	case "ssa":
		for _, n := range fs.Args() {
			if p.Funcs[n] != nil {
				p.Funcs[n].WriteTo(os.Stdout)
			}
		}
	case "lemmas":
		for _, l := range db.Lemmas {
			if len(fs.Args()) > 0 && !contains(fs.Args(), l.Name) {
				continue
			}
			proveLemma(p, db, sv, l).print(*verbose)
		}
	case "verify":
		names := fs.Args()
		if len(names) == 0 {
			for n, ct := range db.Contracts {
				if !ct.Trusted {
					names = append(names, n)
				}
			}
			sort.Strings(names)
		}
		rs := verifyAll(p, db, sv, names, *verbose)
		for _, r := range rs {
			r.print(*verbose)
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func verifyAll(p *Program, db *SpecDB, sv *Solver, names []string, verbose bool) []*FnResult {
	rs := make([]*FnResult, len(names))
	sem := make(chan bool, 8)
	if verbose {
		sem = make(chan bool, 1)
	}
	var wg sync.WaitGroup
	for i, n := range names {
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			rs[i] = verifyFunc(p, db, sv, n, verbose)
		}(i, n)
	}
	wg.Wait()
	return rs
}
