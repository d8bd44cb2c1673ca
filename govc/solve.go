package main

// Queries and solvers.

import (
	"bufio"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Query struct {
	text  string // ground part and axioms, without check-sat
	quick string
	label string
	triv  bool // goal is syntactically true
}

type Solver struct {
	pool    chan *z3proc
	mu      sync.Mutex
	memo    map[[32]byte]bool
	nq      int64
	solverT int64 // ns
	byBack  sync.Map
	dump    string
	dumpN   int64
	bin     string
	cvc5Sem chan bool
}

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

func NewSolver(n int) *Solver {
	s := &Solver{pool: make(chan *z3proc, n), memo: map[[32]byte]bool{}, bin: "z3-new", cvc5Sem: make(chan bool, 2*n)}
	if _, err := exec.LookPath(s.bin); err != nil {
		s.bin = "z3"
	}
	for i := 0; i < n; i++ {
		s.pool <- nil
	}
	s.dump = os.Getenv("GOVC_DUMP")
	return s
}

func (s *Solver) start() *z3proc {
	cmd := exec.Command(s.bin, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &z3proc{cmd: cmd, in: in, out: bufio.NewReader(out)}
}

func (p *z3proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// ask runs one query on a pooled process.
func (s *Solver) ask(text string, timeout time.Duration) string {
	p := <-s.pool
	defer func() { s.pool <- p }()
	if p != nil && p.n > 400 {
		p.kill()
		p = nil
	}
	if p == nil {
		p = s.start()
	}
	p.n++
	t0 := time.Now()
	atomic.AddInt64(&s.nq, 1)
	res := make(chan string, 1)
	proc := p
	go func() {
		var b strings.Builder
		b.WriteString("(reset)\n")
		fmt.Fprintf(&b, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :timeout %d)\n", timeout.Milliseconds())
		b.WriteString(text)
		b.WriteString("\n(check-sat)\n(echo \"--done--\")\n")
		if _, err := io.WriteString(proc.in, b.String()); err != nil {
			res <- "error " + err.Error()
			return
		}
		r := ""
		for {
			l, err := proc.out.ReadString('\n')
			if err != nil {
				res <- "error " + err.Error()
				return
			}
			l = strings.TrimSpace(l)
			if strings.Contains(l, "--done--") {
				break
			}
			if strings.HasPrefix(l, "(error") {
				r = "error " + l
			} else if r == "" {
				r = l
			}
		}
		res <- r
	}()
	var r string
	select {
	case r = <-res:
	case <-time.After(timeout + timeout/2 + 2*time.Second):
		p.kill()
		p = nil
		r = "timeout"
	}
	if strings.HasPrefix(r, "error") && p != nil {
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "SOLVER", r)
			os.WriteFile(fmt.Sprintf("/tmp/govc_err_%d.smt2", atomic.AddInt64(&s.dumpN, 1)), []byte(text+"\n(check-sat)\n"), 0o644)
		}
		p.kill()
		p = nil
	}
	atomic.AddInt64(&s.solverT, int64(time.Since(t0)))
	return r
}

func (s *Solver) runExt(ctx context.Context, bin string, args []string, text string, timeout time.Duration) string {
	select {
	case s.cvc5Sem <- true:
	case <-ctx.Done():
		return "unknown"
	}
	defer func() { <-s.cvc5Sem }()
	ctx, cancel := context.WithTimeout(ctx, timeout+time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(text + "\n(check-sat)\n")
	t0 := time.Now()
	out, _ := cmd.Output()
	atomic.AddInt64(&s.solverT, int64(time.Since(t0)))
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			return l
		}
	}
	return "unknown"
}

func (s *Solver) note(b string) {
	v, _ := s.byBack.LoadOrStore(b, new(int64))
	atomic.AddInt64(v.(*int64), 1)
}

func (s *Solver) lookup(key [32]byte) (bool, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	r, ok := s.memo[key]
	return r, ok
}

// proofEnd is the time (in ns, 0 for none) after which nothing more is attempted: a verdict must come in time.
var proofEnd int64

func late() bool {
	e := atomic.LoadInt64(&proofEnd)
	return e != 0 && time.Now().UnixNano() > e
}

// endIn moves the end of the proof to at most d from now.
func endIn(d time.Duration) {
	n := time.Now().Add(d).UnixNano()
	for {
		e := atomic.LoadInt64(&proofEnd)
		if e != 0 && e <= n || atomic.CompareAndSwapInt64(&proofEnd, e, n) {
			return
		}
	}
}

// Prove: is the query unsatisfiable?
func (s *Solver) Prove(q *Query, timeout time.Duration) bool {
	if q.triv {
		return true
	}
	key := sha256.Sum256([]byte(q.text))
	if r, ok := s.lookup(key); ok {
		return r
	}
	if late() {
		return false
	}
	r := s.ask(q.text, timeout) == "unsat"
	if !r && strings.Contains(q.label, "_ Int") { // an invariant meant for these variables: a second configuration
		r, _ = s.Decide(q, 2*timeout)
	}
	if d := os.Getenv("GOVC_HDUMP"); d != "" && !r {
		os.WriteFile(fmt.Sprintf("%s/h%04d.smt2", d, atomic.AddInt64(&s.dumpN, 1)), []byte("; "+q.label+"\n"+q.text+"\n(check-sat)\n"), 0o644)
	}
	s.mu.Lock()
	s.memo[key] = r
	s.mu.Unlock()
	return r
}

// Decide: harder attempt with several solvers; returns the back end.
func (s *Solver) Decide(q *Query, timeout time.Duration) (bool, string) {
	if q.triv {
		s.note("simplifier")
		return true, "simplifier"
	}
	if late() {
		return false, "not attempted: time limit"
	}
	short := 1500 * time.Millisecond
	if s.ask(q.text, short) == "unsat" {
		s.note("z3-new")
		return true, "z3-new"
	}
	type ans struct {
		ok bool
		b  string
	}
	ch := make(chan ans, 4)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	run := func(b string, f func() string) {
		wg.Add(1)
		go func() { defer wg.Done(); ch <- ans{f() == "unsat", b} }()
	}
	run("cvc5", func() string {
		return s.runExt(ctx, "cvc5", []string{"--lang=smt2", "--full-saturate-quant", fmt.Sprintf("--tlimit=%d", timeout.Milliseconds())}, "(set-logic ALL)\n"+q.text, timeout)
	})
	run("z3", func() string {
		return s.runExt(ctx, "z3", []string{"-in", "-smt2", fmt.Sprintf("-t:%d", timeout.Milliseconds())}, q.text, timeout)
	})
	ms := fmt.Sprintf("-t:%d", timeout.Milliseconds())
	run("z3-new", func() string { return s.runExt(ctx, s.bin, []string{"-in", "-smt2", ms}, q.text, timeout) })
	run("z3-new seed", func() string {
		return s.runExt(ctx, s.bin, []string{"-in", "-smt2", ms}, "(set-option :smt.random_seed 7)\n(set-option :smt.arith.solver 2)\n"+q.text, timeout)
	})
	go func() { wg.Wait(); close(ch) }()
	for a := range ch {
		if a.ok {
			s.note(a.b)
			return true, a.b
		}
	}
	return false, "none"
}

func (s *Solver) Batch(qs []*Query, timeout time.Duration) []bool {
	return s.BatchSkip(qs, timeout, func(int) bool { return false }, func(int) {})
}

func (s *Solver) BatchSkip(qs []*Query, timeout time.Duration, skip func(int) bool, onFail func(int)) []bool {
	out := make([]bool, len(qs))
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := range qs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			mu.Lock()
			sk := skip(i)
			mu.Unlock()
			if sk {
				return
			}
			out[i] = s.Prove(qs[i], timeout)
			if !out[i] {
				mu.Lock()
				onFail(i)
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	return out
}

// QuickUnsat: ground check that pc and cond exclude each other.
func (s *Solver) QuickUnsat(e *Eng, pc []*Term, iv map[*Term]Interval, cond *Term) bool {
	c := e.c
	// intervals first
	if cond.Kind == kApp && (cond.Op == "<=" || cond.Op == "=") && cond.Args[0].Sort == SInt {
		d := c.Sub(cond.Args[0], cond.Args[1])
		if i, ok := c.ival(d, iv); ok {
			if i.lo != nil && i.lo.Sign() > 0 {
				return true
			}
			if cond.Op == "=" && i.hi != nil && i.hi.Sign() < 0 {
				return true
			}
		}
	}
	text := e.buildQuery(pc, c.Not(cond), false)
	key := sha256.Sum256([]byte(text))
	if r, ok := s.lookup(key); ok {
		return r
	}
	r := s.ask(text, 400*time.Millisecond) == "unsat"
	s.mu.Lock()
	s.memo[key] = r
	s.mu.Unlock()
	return r
}

func (e *Eng) query(pc []*Term, iv map[*Term]Interval, goal *Term) *Query {
	if goal == e.c.tru {
		return &Query{triv: true}
	}
	return &Query{text: e.buildQuery(pc, goal, true)}
}

const recDepth = 2

// relevant filters path facts by symbols shared with the goal (cone of influence).
func (e *Eng) relevant(pc []*Term, goal *Term) []*Term {
	syms := map[*Term]bool{}
	symsOf := func(t *Term) []*Term {
		if s, ok := e.symMemo[t]; ok {
			return s
		}
		var out []*Term
		visit([]*Term{t}, func(x *Term) {
			if x.Kind == kSym && x.Sort != SBool || x.Kind == kSym && x.Op != "true" && x.Op != "false" && x.Sort == SBool {
				out = append(out, x)
			}
		})
		e.symMemo[t] = out
		return out
	}
	for _, s := range symsOf(goal) {
		syms[s] = true
	}
	in := make([]bool, len(pc))
	for ch := true; ch; {
		ch = false
		for i, f := range pc {
			if in[i] {
				continue
			}
			ss := symsOf(f)
			hit := len(ss) == 0
			for _, s := range ss {
				if syms[s] && !e.common(s) {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				ch = true
				for _, s := range ss {
					syms[s] = true
				}
			}
		}
	}
	var out []*Term
	for i, f := range pc {
		if in[i] {
			out = append(out, f)
		}
	}
	return out
}

// common symbols do not make facts relevant by themselves.
func (e *Eng) common(s *Term) bool {
	return s == e.entryTop && false
}

func (e *Eng) buildQuery(pc []*Term, goal *Term, full bool) string {
	c := e.c
	neg := c.Not(goal)
	facts := append([]*Term(nil), e.relevant(pc, goal)...)
	topFact := map[*Term]bool{}
	for _, f := range facts {
		topFact[f] = true
	}
	facts = append(facts, neg)
	if neg.Kind == kApp && neg.Op == "and" {
		facts = append(facts[:len(facts)-1], neg.Args...)
	}
	for _, f := range facts {
		topFact[f] = true
	}
	var extra []*Term
	depth := map[*Term]int{}
	seen := map[*Term]bool{}
	var queue []*Term
	add := func(t *Term, d int) {
		if t == c.tru {
			return
		}
		if seen[t] && depth[t] <= d {
			// still a fact
		}
		extra = append(extra, t)
		queue = append(queue, t)
		if _, ok := depth[t]; !ok {
			depth[t] = d
		}
	}
	for _, f := range facts {
		queue = append(queue, f)
		depth[f] = 0
	}
	usedSym := map[string]*Term{}
	usedFun := map[string]bool{}
	sorts := map[string]bool{}
	slices := map[*Term]bool{}
	var globs []*Term
	lemUsed := map[*Lemma]bool{}
	var axioms []*Term
	process := func(t *Term, d int) {
		sorts[t.Sort] = true
		switch t.Kind {
		case kSym:
			if t.Op != "true" && t.Op != "false" {
				usedSym[t.Op] = t
			}
			if l, ok := c.lits[t]; ok {
				usedFun["len_Str"] = true
				extra = append(extra, c.raw("=", SBool, c.raw("len_Str", SInt, t), c.Int(int64(len(l)))))
				for i := 0; i < len(l) && i < 64; i++ {
					usedFun["at_Str"] = true
					extra = append(extra, c.raw("=", SBool, c.raw("at_Str", SInt, t, c.Int(int64(i))), c.Int(int64(l[i]))))
				}
			}
			if strings.HasPrefix(t.Op, "empty_") && isSeq(t.Sort) {
				usedFun["len_"+t.Sort] = true
				extra = append(extra, c.raw("=", SBool, c.raw("len_"+t.Sort, SInt, t), c.Int(0)))
			}
			if strings.HasPrefix(t.Op, "glob_") {
				globs = append(globs, t)
			}
			if l, ok := c.lenOf[t]; ok {
				usedFun["len_"+t.Sort] = true
				add(c.raw("=", SBool, c.raw("len_"+t.Sort, SInt, t), c.Ite(c.Le(c.Int(0), l), l, c.Int(0))), d)
			}
		case kApp:
			usedFun[t.Op] = true
			if t.free {
				break
			}
			switch {
			case t.Op == "=" && isSeq(t.Args[0].Sort) && full && !topFact[t]:
				a, b := t.Args[0], t.Args[1]
				k := c.Sym(fmt.Sprintf("ext!%d", t.id), SInt)
				la, lb := c.Len(a), c.Len(b)
				add(c.Or(t, c.Not(c.Eq(la, lb)), c.And(c.Le(c.Int(0), k), c.Lt(k, la), c.Not(c.Eq(c.At(a, k), c.At(b, k))))), d)
			case strings.HasPrefix(t.Op, "len_") && isSeq(t.Args[0].Sort):
				extra = append(extra, c.raw("<=", SBool, c.Int(0), t))
			case t.Op == "s-len" || t.Op == "s-cap":
				s := t.Args[0]
				if !slices[s] {
					slices[s] = true
					l, cp := c.raw("s-len", SInt, s), c.raw("s-cap", SInt, s)
					extra = append(extra, c.raw("<=", SBool, c.Int(0), l), c.raw("<=", SBool, l, cp), c.raw("<=", SBool, c.Int(0), c.raw("s-off", SInt, s)),
						c.raw("=>", SBool, c.raw("=", SBool, c.raw("s-ref", SInt, s), c.Int(0)), c.raw("=", SBool, cp, c.Int(0))))
					usedFun["s-len"] = true
				}
			case t.Op == "strref":
				add(c.Lt(t, c.Int(0)), d)
				extra = append(extra, c.App("isro", SBool, t))
				usedFun["isro"] = true
				if b, ok := e.base0["E:u8"]; ok {
					add(c.raw("=", SBool, c.raw("select", arrOf(SInt), b, t), c.Sarr(t.Args[0])), d)
				}
			case strings.HasPrefix(t.Op, "box_"):
				u := c.App("un"+t.Op, t.Args[0].Sort, t)
				add(c.raw("=", SBool, u, t.Args[0]), d)
			case strings.HasPrefix(t.Op, "sub_") && !t.free && (strings.HasPrefix(t.Args[0].Op, "view_") || strings.HasPrefix(t.Args[0].Op, "sub_")):
				// part of a view or of a part
				s, i, j := t.Args[0], t.Args[1], t.Args[2]
				in := c.And(c.Le(c.Int(0), i), c.Le(i, j), c.Le(j, c.Len(s)))
				if strings.HasPrefix(s.Op, "view_") {
					add(c.Or(c.Not(in), c.raw("=", SBool, t, c.ViewS(t.Sort, s.Args[0], c.Add(s.Args[1], i), c.Sub(j, i)))), d+1)
				} else {
					in = c.And(in, c.Le(c.Int(0), s.Args[1]), c.Le(s.Args[1], s.Args[2]), c.Le(s.Args[2], c.Len(s.Args[0])))
					add(c.Or(c.Not(in), c.raw("=", SBool, t, c.SubSeq(s.Args[0], c.Add(s.Args[1], i), c.Add(s.Args[1], j)))), d+1)
				}
			case t.Op == "div" || t.Op == "mod":
			default:
				if f := e.db.Funs[t.Op]; f != nil {
					if f.Rec && d < e.recLimit() {
						if b, ok := e.unfold(t); ok {
							var eq *Term
							if t.Sort == SBool {
								eq = c.raw("=", SBool, t, b)
								if b == c.tru {
									eq = t
								} else if b == c.fls {
									eq = c.Not(t)
								}
							} else {
								eq = c.raw("=", t.Args0Sort(SBool), t, b)
							}
							add(eq, d+1)
						}
					}
					if f.LenE != nil {
						env := &Env{st: e.pureState(), vars: map[string]*SVal{}}
						for i, p := range f.Params {
							env.vars[p.Name] = &SVal{t: t.Args[i]}
						}
						l := e.evalInt(env, f.LenE)
						lt := c.raw("len_"+t.Sort, SInt, t)
						add(c.raw("=", SBool, lt, c.Ite(c.Le(c.Int(0), l), l, c.Int(0))), d)
						if full {
							iv := c.BoundVar(f.IdxVar, SInt)
							env.vars[f.IdxVar] = &SVal{t: iv}
							at := c.raw("at_"+t.Sort, seqElem(t.Sort), t, iv)
							v := e.eval(env, f.AtE).t
							axioms = append(axioms, c.Forall([]*Term{iv}, c.Imp(c.And(c.Le(c.Int(0), iv), c.Lt(iv, l)), c.raw("=", SBool, at, v)), []*Term{at}))
							queue = append(queue, axioms[len(axioms)-1])
						}
					}
				}
			}
		}
		if t.Sort == SInt && t.Kind != kInt && !t.free {
			if r, ok := c.rng[t]; ok {
				if r.lo != nil {
					extra = append(extra, c.raw("<=", SBool, c.Big(r.lo), t))
				}
				if r.hi != nil {
					extra = append(extra, c.raw("<=", SBool, t, c.Big(r.hi)))
				}
			}
		}
	}
	for {
		for len(queue) > 0 {
			root := queue[0]
			queue = queue[1:]
			d := depth[root]
			var walk func(t *Term)
			walk = func(t *Term) {
				if seen[t] {
					return
				}
				seen[t] = true
				for _, a := range t.Args {
					walk(a)
				}
				for _, tr := range t.Trig {
					for _, a := range tr {
						walk(a)
					}
				}
				process(t, d)
			}
			walk(root)
		}
		if !full {
			break
		}
		// lemmas whose triggers can fire
		more := false
		for _, l := range e.lemmas {
			if lemUsed[l.l] {
				continue
			}
			hit := len(l.syms) == 0
			for _, g := range l.syms {
				all := true
				for _, s := range g {
					if !usedFun[s] && usedSym[s] == nil {
						all = false
					}
				}
				if all {
					hit = true
				}
			}
			if hit {
				lemUsed[l.l] = true
				e.lemUsed[l.l.Name] = true
				ax := e.lemmaAxiom(l.l)
				axioms = append(axioms, ax)
				queue = append(queue, ax)
				depth[ax] = recDepth
				more = true
			}
		}
		if !more {
			break
		}
	}
	// text
	var b strings.Builder
	b.WriteString("(declare-datatypes ((Slice 0)) (((mk-slice (s-ref Int) (s-off Int) (s-len Int) (s-cap Int)))))\n")
	b.WriteString("(declare-datatypes ((Iface 0)) (((mk-iface (i-tag Int) (i-val Int)))))\n")
	seqs := map[string]bool{}
	note := func(s string) {
		for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
			if isSeq(w) {
				seqs[w] = true
				if w == "Seq_Str" {
					seqs[SStr] = true
				}
			}
		}
	}
	for s := range sorts {
		note(s)
	}
	var fnames []string
	for f := range usedFun {
		fnames = append(fnames, f)
		if d := c.funs[f]; d != nil {
			for _, a := range d.Args {
				note(a)
			}
			note(d.Res)
		}
	}
	sort.Strings(fnames)
	if usedFun["sarr"] || usedFun["strref"] {
		seqs[SStr] = true
	}
	var sq []string
	for s := range seqs {
		sq = append(sq, s)
	}
	sort.Strings(sq)
	for _, s := range sq {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	for _, s := range sq {
		el := seqElem(s)
		fmt.Fprintf(&b, "(declare-fun len_%s (%s) Int)\n(declare-fun at_%s (%s Int) %s)\n", s, s, s, s, el)
		fmt.Fprintf(&b, "(declare-fun cat_%s (%s %s) %s)\n(declare-fun unit_%s (%s) %s)\n", s, s, s, s, s, el, s)
		fmt.Fprintf(&b, "(declare-fun sub_%s (%s Int Int) %s)\n(declare-fun upd_%s (%s Int %s) %s)\n", s, s, s, s, s, el, s)
		fmt.Fprintf(&b, "(declare-fun view_%s ((Array Int %s) Int Int) %s)\n", s, el, s)
	}
	if seqs[SStr] {
		b.WriteString("(declare-fun sarr (Str) (Array Int Int))\n")
	}
	// wr is declared per sequence sort
	wrs := map[string]bool{}
	for t := range seen {
		if t.Kind == kApp && t.Op == "wr" {
			wrs[t.Args[2].Sort] = true
		}
	}
	// names of wr per sort
	var wl []string
	for w := range wrs {
		wl = append(wl, w)
	}
	sort.Strings(wl)
	for _, w := range wl {
		fmt.Fprintf(&b, "(declare-fun wr_%s ((Array Int %s) Int %s) (Array Int %s))\n", w, seqElem(w), w, seqElem(w))
	}
	for _, f := range fnames {
		d := c.funs[f]
		if d == nil {
			continue
		}
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", symName(f), strings.Join(d.Args, " "), d.Res)
	}
	var snames []string
	for s := range usedSym {
		snames = append(snames, s)
	}
	sort.Strings(snames)
	for _, s := range snames {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", symName(s), usedSym[s].Sort)
	}
	if full {
		for _, s := range sq {
			axiomsFor(&b, s, seqElem(s), usedFun)
		}
		for _, w := range wl {
			m, s, w := "wr_"+w, w, seqElem(w)
			fmt.Fprintf(&b, "(assert (forall ((r (Array Int %s)) (o Int) (q %s) (i Int)) (! (= (select (%s r o q) i) (ite (and (<= o i) (< i (+ o (len_%s q)))) (at_%s q (- i o)) (select r i))) :pattern ((select (%s r o q) i)))))\n", w, s, m, s, s, m)
		}
		if usedFun["sarr"] {
			b.WriteString("(assert (forall ((s Str) (i Int)) (! (and (<= 0 (select (sarr s) i)) (<= (select (sarr s) i) 255) (=> (and (<= 0 i) (< i (len_Str s))) (= (select (sarr s) i) (at_Str s i)))) :pattern ((select (sarr s) i)))))\n")
		}
		for _, n := range snames {
			if t := usedSym[n]; c.byteSym[t] {
				if t.Sort == arrOf(SInt) {
					fmt.Fprintf(&b, "(assert (forall ((i Int)) (! (and (<= 0 (select %[1]s i)) (<= (select %[1]s i) 255)) :pattern ((select %[1]s i)))))\n", symName(n))
				} else {
					fmt.Fprintf(&b, "(assert (forall ((r Int) (i Int)) (! (and (<= 0 (select (select %[1]s r) i)) (<= (select (select %[1]s r) i) 255)) :pattern ((select (select %[1]s r) i)))))\n", symName(n))
				}
			}
		}
	}
	if e.entryTop != nil && usedSym[e.entryTop.Op] != nil {
		// slices kept in memory at entry refer to memory allocated by then
		for _, n := range snames {
			t := usedSym[n]
			for _, fb := range e.base0 {
				if fb == t && t.Sort == arrOf(arrOf(SSlice)) {
					fmt.Fprintf(&b, "(assert (forall ((r Int) (i Int)) (! (=> (<= r %[2]s) (<= (s-ref (select (select %[1]s r) i)) %[2]s)) :pattern ((select (select %[1]s r) i)))))\n", symName(n), symName(e.entryTop.Op))
				}
			}
		}
	}
	if len(globs) > 0 {
		sort.Slice(globs, func(i, j int) bool { return globs[i].Op < globs[j].Op })
		if len(globs) > 1 {
			b.WriteString("(assert (distinct")
			for _, g := range globs {
				b.WriteString(" " + symName(g.Op))
			}
			b.WriteString("))\n")
		}
		if e.entryTop != nil && usedSym[e.entryTop.Op] != nil {
			for _, g := range globs {
				fmt.Fprintf(&b, "(assert (<= %s %s))\n", symName(g.Op), symName(e.entryTop.Op))
			}
		}
	}
	done := map[*Term]bool{}
	pr := newPrinter(&b)
	for _, l := range [][]*Term{facts, extra, axioms} {
		for _, t := range l {
			if !done[t] {
				done[t] = true
				pr.assert(t)
			}
		}
	}
	return b.String()
}

func (t *Term) Args0Sort(s string) string { return s }

func (e *Eng) recLimit() int {
	if e.recD > 0 {
		return e.recD
	}
	return recDepth
}

func axiomsFor(b *strings.Builder, s, el string, used map[string]bool) {
	p := func(f string) { b.WriteString(strings.NewReplacer("$S", s, "$E", el).Replace(f) + "\n") }
	p("(assert (forall ((a $S)) (! (<= 0 (len_$S a)) :pattern ((len_$S a)))))")
	if s == SStr {
		p("(assert (forall ((a $S) (i Int)) (! (and (<= 0 (at_$S a i)) (<= (at_$S a i) 255)) :pattern ((at_$S a i)))))")
	}
	if used["cat_"+s] {
		p("(assert (forall ((a $S) (b $S)) (! (= (len_$S (cat_$S a b)) (+ (len_$S a) (len_$S b))) :pattern ((cat_$S a b)))))")
		p("(assert (forall ((a $S) (b $S) (i Int)) (! (= (at_$S (cat_$S a b) i) (ite (< i (len_$S a)) (at_$S a i) (at_$S b (- i (len_$S a))))) :pattern ((at_$S (cat_$S a b) i)))))")
	}
	if used["unit_"+s] {
		if s == SStr {
			p("(assert (forall ((x $E)) (! (and (= (len_$S (unit_$S x)) 1) (=> (and (<= 0 x) (<= x 255)) (= (at_$S (unit_$S x) 0) x))) :pattern ((unit_$S x)))))")
		} else {
			p("(assert (forall ((x $E)) (! (and (= (len_$S (unit_$S x)) 1) (= (at_$S (unit_$S x) 0) x)) :pattern ((unit_$S x)))))")
		}
	}
	if used["sub_"+s] {
		p("(assert (forall ((a $S) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_$S a))) (= (len_$S (sub_$S a i j)) (- j i))) :pattern ((sub_$S a i j)))))")
		p("(assert (forall ((a $S) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_$S a)) (<= 0 k) (< k (- j i))) (= (at_$S (sub_$S a i j) k) (at_$S a (+ i k)))) :pattern ((at_$S (sub_$S a i j) k)))))")
	}
	if used["upd_"+s] {
		p("(assert (forall ((a $S) (i Int) (x $E)) (! (= (len_$S (upd_$S a i x)) (len_$S a)) :pattern ((upd_$S a i x)))))")
		g := ""
		if s == SStr {
			g = " (<= 0 x) (<= x 255)"
		}
		p("(assert (forall ((a $S) (i Int) (x $E) (k Int)) (! (=> (and (<= 0 k) (< k (len_$S a))" + g + ") (= (at_$S (upd_$S a i x) k) (ite (= k i) x (at_$S a k)))) :pattern ((at_$S (upd_$S a i x) k)))))")
	}
	if used["view_"+s] {
		p("(assert (forall ((r (Array Int $E)) (o Int) (n Int)) (! (=> (<= 0 n) (= (len_$S (view_$S r o n)) n)) :pattern ((view_$S r o n)))))")
		if s == SStr {
			p("(assert (forall ((r (Array Int $E)) (o Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n) (<= 0 (select r (+ o k))) (<= (select r (+ o k)) 255)) (= (at_$S (view_$S r o n) k) (select r (+ o k)))) :pattern ((at_$S (view_$S r o n) k)))))")
		} else {
			p("(assert (forall ((r (Array Int $E)) (o Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n)) (= (at_$S (view_$S r o n) k) (select r (+ o k)))) :pattern ((at_$S (view_$S r o n) k)))))")
		}
	}
}

// ---- printing with sharing

type printer struct {
	b     *strings.Builder
	named map[*Term]string
	n     int
}

func newPrinter(b *strings.Builder) *printer { return &printer{b: b, named: map[*Term]string{}} }

func (p *printer) assert(t *Term) {
	// name large shared ground subterms
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Kind != kApp && t.Kind != kQuant {
			return
		}
		if p.named[t] != "" {
			return
		}
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, tr := range t.Trig {
			for _, a := range tr {
				walk(a)
			}
		}
		order = append(order, t)
	}
	walk(t)
	for _, x := range order {
		if cnt[x] > 1 && !x.free && x.Kind == kApp && len(x.Args) > 0 && size(x, 6) >= 6 && x != t {
			p.n++
			nm := fmt.Sprintf("d!%d", p.n)
			fmt.Fprintf(p.b, "(define-fun %s () %s ", nm, x.Sort)
			p.body(x)
			p.b.WriteString(")\n")
			p.named[x] = nm
		}
	}
	p.b.WriteString("(assert ")
	p.term(t)
	p.b.WriteString(")\n")
}

func size(t *Term, lim int) int {
	n := 1
	for _, a := range t.Args {
		if n >= lim {
			return n
		}
		n += size(a, lim-n)
	}
	return n
}

func (p *printer) term(t *Term) {
	if n, ok := p.named[t]; ok {
		p.b.WriteString(n)
		return
	}
	p.body(t)
}

func (p *printer) body(t *Term) {
	b := p.b
	switch t.Kind {
	case kInt:
		if t.N.Sign() < 0 {
			fmt.Fprintf(b, "(- %s)", new(big.Int).Neg(t.N))
		} else {
			b.WriteString(t.N.String())
		}
	case kSym, kBound:
		b.WriteString(symName(t.Op))
	case kApp:
		if t.Op == "constarr" {
			fmt.Fprintf(b, "((as const %s) ", t.Sort)
			p.term(t.Args[0])
			b.WriteString(")")
			return
		}
		if len(t.Args) == 0 {
			b.WriteString(symName(t.Op))
			return
		}
		b.WriteString("(")
		if t.Op == "wr" {
			b.WriteString("wr_" + t.Args[2].Sort)
		} else {
			b.WriteString(symName(t.Op))
		}
		for _, a := range t.Args {
			b.WriteString(" ")
			p.term(a)
		}
		b.WriteString(")")
	case kQuant:
		fmt.Fprintf(b, "(%s (", t.Op)
		for _, v := range t.Vars {
			fmt.Fprintf(b, "(%s %s)", symName(v.Op), v.Sort)
		}
		b.WriteString(") ")
		if len(t.Trig) > 0 {
			b.WriteString("(! ")
		}
		p.term(t.Args[0])
		for _, g := range t.Trig {
			b.WriteString(" :pattern (")
			for i, a := range g {
				if i > 0 {
					b.WriteString(" ")
				}
				p.term(a)
			}
			b.WriteString(")")
		}
		if len(t.Trig) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
	}
}

// ---- lemmas

type lemInfo struct {
	l    *Lemma
	syms [][]string
}

// lemmaAxiom is the universally quantified lemma.
func (e *Eng) lemmaAxiom(l *Lemma) *Term {
	if t, ok := e.lemAx[l]; ok {
		return t
	}
	c := e.c
	env := &Env{st: e.pureState(), vars: map[string]*SVal{}}
	var vs []*Term
	for _, p := range l.Params {
		v := c.BoundVar(p.Name, p.Sort)
		vs = append(vs, v)
		env.vars[p.Name] = &SVal{t: v}
	}
	var rq, en []*Term
	for _, r := range l.Req {
		rq = append(rq, e.evalBool(env, r.E))
	}
	for _, r := range l.Ens {
		en = append(en, e.evalBool(env, r.E))
	}
	var tr [][]*Term
	for _, g := range l.Trig {
		var ts []*Term
		for _, x := range g {
			ts = append(ts, e.eval(env, x).t)
		}
		tr = append(tr, ts)
	}
	t := c.Imp(c.And(rq...), c.And(en...))
	if len(vs) > 0 {
		t = c.Forall(vs, t, tr...)
	}
	e.lemAx[l] = t
	return t
}

// loadLemmas registers the lemmas that may be used (declared before `upto`, or all).
func (e *Eng) loadLemmas(upto *Lemma) {
	for _, l := range e.db.Lemmas {
		if l == upto {
			break
		}
		if len(l.Trig) == 0 && len(l.Params) > 0 {
			continue // only usable explicitly
		}
		li := &lemInfo{l: l}
		env := &Env{st: e.pureState(), vars: map[string]*SVal{}}
		for _, p := range l.Params {
			env.vars[p.Name] = &SVal{t: e.c.BoundVar(p.Name, p.Sort)}
		}
		for _, g := range l.Trig {
			var ss []string
			for _, x := range g {
				t := e.eval(env, x).t
				visit([]*Term{t}, func(y *Term) {
					if y.Kind == kApp {
						ss = append(ss, y.Op)
					}
				})
			}
			li.syms = append(li.syms, ss)
		}
		e.lemmas = append(e.lemmas, li)
	}
}
