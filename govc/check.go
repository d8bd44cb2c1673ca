package main

// The check of one property: deductive step, then the bounded companion on the real code.

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type harnessResult struct {
	Ran    bool
	Why    string // reason when not run
	Failed bool
	What   string
	Replay string
	Cases  int64
	Nontr  int64
	Rule   string
	Sample []string
	Secs   float64
}

func runCheck(repo, specs, out, prop string, jobs int) {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	die := func(f string, a ...interface{}) {
		fmt.Printf("error: "+f+"\n", a...)
		os.Exit(2)
	}
	db, err := LoadSpecs(specs)
	if err != nil {
		die("%v", err)
	}
	pd := db.Props[prop]
	if pd == nil {
		die("no property %s", prop)
	}
	os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
	os.MkdirAll(filepath.Join(out, "replay"), 0o755)

	// the companion runs beside the proof
	budget := 8
	if tier == "thorough" {
		budget = 120
	}
	hch := make(chan *harnessResult, 1)
	quick := tier != "thorough"
	if quick {
		endIn(450 * time.Second)
	}
	go func() {
		h := runHarness(repo, out, prop, seed, budget, 0)
		if h.Failed { // decided; the proof only adds the failed obligations
			endIn(45 * time.Second)
		}
		hch <- h
	}()

	p, err := LoadProgram(repo)
	if err != nil {
		die("%v", err)
	}
	if tier == "thorough" {
		obTimeout = 90 * time.Second
	}
	sv := NewSolver(jobs)
	var part partial
	done := make(chan bool)
	go func() { part.verifyClosure(p, db, sv, pd, quick); close(done) }()
	for over := false; !over; {
		select {
		case <-done:
			over = true
		case <-time.After(time.Second):
			e := atomic.LoadInt64(&proofEnd)
			over = e != 0 && time.Now().UnixNano() > e+int64(20*time.Second)
		}
	}
	rs, miss := part.result()
	// a second attempt for what failed, one at a time: timeouts under load
	for i, r := range rs {
		if !r.OK() && r.Err == "" && onlyTimeouts(r) && !late() {
			if quick {
				endIn(120 * time.Second)
			}
			saved := obTimeout
			obTimeout = 3 * saved
			sv2 := NewSolver(jobs)
			nch := make(chan *FnResult, 1)
			go func(r *FnResult) {
				if l := db.lemma(strings.TrimPrefix(r.Name, "lemma ")); strings.HasPrefix(r.Name, "lemma ") && l != nil {
					nch <- proveLemma(p, db, sv2, l)
				} else {
					nch <- verifyFunc(p, db, sv2, r.Name, false)
				}
			}(r)
			for over := false; !over; {
				select {
				case n := <-nch:
					if over = true; n.OK() {
						rs[i] = n
					}
				case <-time.After(time.Second):
					e := atomic.LoadInt64(&proofEnd)
					over = e != 0 && time.Now().UnixNano() > e+int64(10*time.Second)
				}
			}
			obTimeout = saved
			break // one failure decides the outcome; retry only the first
		}
	}
	h := <-hch
	proofOK := len(miss) == 0
	var failed []string
	var report strings.Builder
	for _, m := range miss {
		failed = append(failed, m)
		fmt.Fprintf(&report, "%s\n", m)
	}
	total, disch, skipped := 0, 0, 0
	backs := map[string]int{}
	kinds := map[string]int{}
	var fns, inl []string
	assumed := map[string]bool{}
	inlined := map[string]bool{}
	nlem := 0
	var samples []string
	for _, r := range rs {
		if strings.HasPrefix(r.Name, "lemma ") {
			nlem++
		} else {
			fns = append(fns, r.Name)
		}
		for a := range r.Assumed {
			assumed[a] = true
		}
		for a := range r.Inlined {
			inlined[a] = true
		}
		if r.Err != "" {
			proofOK = false
			total++
			m := fmt.Sprintf("%s (%s): outside the verifier's reach: %s", r.Name, r.Pos, r.Err)
			failed = append(failed, m)
			fmt.Fprintf(&report, "%s\n", m)
		}
		for _, o := range r.Obls {
			total++
			kinds[o.Kind]++
			if o.OK {
				disch++
				backs[o.Backend]++
				if len(samples) < 4 && o.Kind == "post" && o.Backend != "simplifier" && (len(samples) == 0 || !strings.HasPrefix(samples[len(samples)-1], r.Name)) {
					samples = append(samples, fmt.Sprintf("%s: %s %s: %s [%s]", r.Name, o.Kind, o.Label, strings.Join(strings.Fields(o.Src), " "), o.Backend))
				}
				continue
			}
			proofOK = false
			if strings.HasPrefix(o.Backend, "not attempted") {
				skipped++
				continue
			}
			m := fmt.Sprintf("%s: %s %s at %s: %s [%s]", r.Name, o.Kind, o.Label, o.Pos, strings.Join(strings.Fields(o.Src), " "), o.Backend)
			failed = append(failed, m)
			fmt.Fprintf(&report, "%s\n", m)
			for _, t := range o.Trace {
				fmt.Fprintf(&report, "      path: %s\n", t)
			}
		}
	}
	if skipped > 0 {
		m := fmt.Sprintf("%d obligations were not attempted after other failures or in the time limit", skipped)
		failed = append(failed, m)
		fmt.Fprintf(&report, "%s\n", m)
	}
	for a := range inlined {
		inl = append(inl, a)
	}
	sort.Strings(inl)
	if !proofOK && h.Ran && !h.Failed {
		// a failed obligation: look harder for a failing input
		b2 := 60
		if tier == "thorough" {
			b2 = 240
		}
		h2 := runHarness(repo, out, prop, seed+7919, b2, 1)
		if h2.Failed {
			h = h2
		} else {
			h.Cases += h2.Cases
			h.Secs += h2.Secs
		}
	}
	var as []string
	for a := range assumed {
		as = append(as, a)
	}
	as = append(as, pd.Note...)
	as = append(as, genAssumptions...)
	sort.Strings(as)
	bk := map[string]interface{}{}
	for k, v := range backs {
		bk[k] = v
	}
	viol := 0
	if h.Failed || !proofOK {
		viol = 1
	}
	comp := map[string]interface{}{"kind": "bounded, not counted as proved", "ran": h.Ran, "cases": h.Cases, "nontrivial_cases": h.Nontr, "rule": h.Rule, "samples": h.Sample, "secs": round(h.Secs)}
	if h.Why != "" {
		comp["not_run"] = h.Why
	}
	cov := map[string]interface{}{
		"obligations": total, "discharged": disch,
		"checker_cmd":              fmt.Sprintf("bin/govc check -prop %s -repo %s", prop, repo),
		"trusted_base":             trustedBase,
		"functions_under_contract": fns,
		"functions_inlined":        inl,
		"lemmas_proved":            nlem,
		"discharged_by":            bk,
		"obligation_kinds":         kinds,
		"solver_queries":           atomic.LoadInt64(&sv.nq),
		"solver_seconds":           round(float64(atomic.LoadInt64(&sv.solverT)) / 1e9),
		"samples":                  samples,
		"bounded_companion":        comp,
	}
	if len(failed) > 0 {
		if len(failed) > 20 {
			failed = failed[:20]
		}
		cov["failed"] = failed
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": as, "wall_s": round(time.Since(t0).Seconds()), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	if len(b) > 60000 {
		cov["functions_inlined"] = len(inl)
		cov["failed"] = len(failed)
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	os.WriteFile(filepath.Join(out, "evidence", prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d functions, %d lemmas, %d/%d obligations discharged, %.1f s solver; companion: %d cases (%s) in %.1f s; %.1f s\n", prop, len(fns), nlem, disch, total, float64(atomic.LoadInt64(&sv.solverT))/1e9, h.Cases, orS(h.Why, "ran"), h.Secs, time.Since(t0).Seconds())
	printFindings(out, prop)
	switch {
	case h.Failed:
		rp := filepath.Join(out, "replay", prop+".txt")
		txt := fmt.Sprintf("property %s\nfailing case on the real code (from %s):\n%s\n\n%s\n", prop, repo, h.What, h.Replay)
		if !proofOK {
			txt += "\nfailed obligations:\n" + report.String()
		}
		os.WriteFile(rp, []byte(txt), 0o644)
		fmt.Println(firstLines(txt, 30))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		os.Exit(1)
	case !proofOK:
		rp := filepath.Join(out, "replay", prop+".txt")
		txt := fmt.Sprintf("property %s\nfailed obligations (verifier output; no failing input found in %d cases; companion: %s):\n%s", prop, h.Cases, orS(h.Why, "ran"), report.String())
		os.WriteFile(rp, []byte(txt), 0o644)
		fmt.Println(firstLines(txt, 30))
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
		os.Exit(1)
	}
	os.Exit(0)
}

var trustedBase = []string{
	"govc (this verifier: SSA symbolic execution, contract semantics, memory model)",
	"golang.org/x/tools go/packages, go/ssa (front end), Go type checker",
	"z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
	"sequence axioms of govc (len, at, cat, sub, upd, extensionality) and triggered lemmas, the latter proved in the same run",
}

var genAssumptions = []string{
	"integers are mathematical with explicit wrap-around at their machine width (64-bit int)",
	"slices, strings and arrays are shorter than 2^48 elements; allocation does not fail",
	"functions outside the repository do what their assumed contracts say; those without one return arbitrary values and write nothing the contracts speak of",
	"one goroutine at a time inside a verified function unless the property is about concurrency",
	"data reached only through package unsafe is as the verified helper functions describe",
}

func round(f float64) float64 { return float64(int64(f*100)) / 100 }
func orS(a, b string) string {
	if a != "" {
		return a
	}
	return b
}
func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	for i := range l {
		if len(l[i]) > 600 {
			l[i] = l[i][:600] + "..."
		}
	}
	return strings.Join(l, "\n")
}

func printFindings(out, prop string) {
	b, err := os.ReadFile(filepath.Join(out, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			fmt.Println("KNOWN-FINDING: " + strings.TrimPrefix(l, "finding: "))
		}
	}
}

func onlyTimeouts(r *FnResult) bool {
	for _, o := range r.Obls {
		if !o.OK && o.Kind == "vacuity" {
			return false
		}
	}
	return true
}

func (db *SpecDB) lemma(n string) *Lemma {
	for _, l := range db.Lemmas {
		if l.Name == n {
			return l
		}
	}
	return nil
}

// verifyClosure verifies the roots of a property, every contract their proofs rest on, and every lemma used.
type partial struct {
	mu   sync.Mutex
	rs   []*FnResult
	miss []string
	open map[string]bool
}

// result so far; what is under way counts as not verified.
func (pt *partial) result() ([]*FnResult, []string) {
	pt.mu.Lock()
	defer pt.mu.Unlock()
	rs := append([]*FnResult(nil), pt.rs...)
	for n := range pt.open {
		rs = append(rs, &FnResult{Name: n, Err: "not finished in the time limit"})
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].Name < rs[j].Name })
	return rs, append([]string(nil), pt.miss...)
}

func (pt *partial) verifyClosure(p *Program, db *SpecDB, sv *Solver, pd *PropDef, quick bool) {
	pt.open = map[string]bool{}
	begin := func(n string) {
		pt.mu.Lock()
		pt.open[n] = true
		pt.mu.Unlock()
	}
	missing := func(m string) {
		pt.mu.Lock()
		pt.miss = append(pt.miss, m)
		pt.mu.Unlock()
	}
	seen := map[string]bool{}
	seenL := map[string]bool{}
	queue := append([]string(nil), pd.Roots...)
	lem := append([]string(nil), pd.Lemmas...)
	for len(queue) > 0 || len(lem) > 0 {
		var names []string
		for _, n := range queue {
			if seen[n] {
				continue
			}
			seen[n] = true
			ct := db.Contracts[n]
			if ct == nil {
				missing(n + ": no contract")
				continue
			}
			if ct.Trusted {
				continue
			}
			if p.Funcs[fnOf(n)] == nil {
				if !isIfaceContract(p, n) {
					missing(n + ": the function under contract does not exist any more")
				}
				continue
			}
			names = append(names, n)
		}
		queue = nil
		var ls []*Lemma
		for _, n := range lem {
			if seenL[n] {
				continue
			}
			seenL[n] = true
			if l := db.lemma(n); l == nil {
				missing(n + ": no such lemma")
			} else if !l.Axiom {
				ls = append(ls, l)
			}
		}
		lem = nil
		sem := make(chan bool, 6)
		var wg sync.WaitGroup
		add := func(r *FnResult) {
			pt.mu.Lock()
			defer pt.mu.Unlock()
			pt.rs = append(pt.rs, r)
			delete(pt.open, r.Name)
			if quick && !r.OK() { // the verdict is clear but for a retry
				endIn(200 * time.Second)
			}
			for u := range r.Used {
				queue = append(queue, u)
			}
			for u := range r.Lemmas {
				lem = append(lem, u)
			}
		}
		for _, n := range names {
			n := n
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				begin(n)
				add(verifyFunc(p, db, sv, n, false))
			}()
		}
		for _, l := range ls {
			l := l
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				begin("lemma " + l.Name)
				add(proveLemma(p, db, sv, l))
			}()
		}
		wg.Wait()
		sort.Strings(queue)
		sort.Strings(lem)
	}

}

// isIfaceContract: the contract is that of an interface method.
func isIfaceContract(p *Program, n string) bool {
	i := strings.LastIndex(n, ".")
	if i < 0 {
		return false
	}
	if strings.HasSuffix(n, ".func") {
		return true
	}
	return p.typeByName(n[:i]) != nil && sortOf(p.typeByName(n[:i])) == SIface
}

// ---- bounded companion

func runHarness(repo, out, prop string, seed, budget, round int) *harnessResult {
	r := &harnessResult{}
	t0 := time.Now()
	defer func() { r.Secs = time.Since(t0).Seconds() }()
	lc := strings.ToLower(prop)
	hd := filepath.Join(out, "harness")
	files, _ := filepath.Glob(filepath.Join(hd, lc, "*_test.go"))
	if len(files) == 0 {
		r.Why = "no companion"
		return r
	}
	tmp, err := os.MkdirTemp("", "verif_"+lc+"_")
	if err != nil {
		r.Why = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	add := func(dir string) {
		fs, _ := filepath.Glob(filepath.Join(hd, dir, "*.go"))
		for _, f := range fs {
			rep[filepath.Join(repo, "zzverif", dir, filepath.Base(f))] = f
		}
	}
	add(lc)
	add("vh")
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	bin := filepath.Join(tmp, "h.test")
	args := []string{"test", "-c", "-overlay", ovf, "-vet=off", "-o", bin}
	if b, err := os.ReadFile(files[0]); err == nil && strings.Contains(string(b), "//verif:race") {
		args = append(args, "-race")
	}
	args = append(args, "./zzverif/"+lc)
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	o, err := cmd.CombinedOutput()
	cancel()
	if err != nil {
		r.Why = "does not build: " + firstLines(string(o), 6)
		return r
	}
	scratch := filepath.Join(tmp, "scratch")
	os.Mkdir(scratch, 0o777)
	ctx, cancel = context.WithTimeout(context.Background(), time.Duration(budget*2+90)*time.Second)
	defer cancel()
	cmd = exec.CommandContext(ctx, bin, "-test.timeout=0", "-test.v")
	cmd.Dir = scratch
	rj := filepath.Join(tmp, "result.json")
	cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_BUDGET=%d", budget), fmt.Sprintf("VERIF_ROUND=%d", round),
		"VERIF_RESULT="+rj, "VERIF_SCRATCH="+scratch, "VERIF_REPO="+repo, "TMPDIR="+scratch, "GOTRACEBACK=single")
	o, err = cmd.CombinedOutput()
	var res struct {
		Cases, Nontrivial int64
		Rule              string
		Samples           []string
		Failed            bool
		What, Replay      string
		Current           string
		Done              bool
	}
	b, e2 := os.ReadFile(rj)
	if e2 == nil {
		json.Unmarshal(b, &res)
	}
	r.Cases, r.Nontr, r.Rule, r.Sample = res.Cases, res.Nontrivial, res.Rule, res.Samples
	if cb, e3 := os.ReadFile(rj + ".current"); e3 == nil {
		res.Current = string(cb)
	}
	switch {
	case res.Failed:
		r.Ran, r.Failed, r.What, r.Replay = true, true, res.What, res.Replay
	case err == nil && res.Done:
		r.Ran = true
	case ctx.Err() != nil:
		r.Why = "companion did not finish in time"
	case strings.Contains(string(o), "fatal error:") || strings.Contains(string(o), "panic:") || strings.Contains(string(o), "DATA RACE") || strings.Contains(string(o), "SIGBUS"):
		r.Ran, r.Failed = true, true
		r.What = "the code under test brought the process down; last case: " + res.Current
		r.Replay = tail(string(o), 6000)
	default:
		r.Why = fmt.Sprintf("companion ended abnormally: %v %s", err, firstLines(tail(string(o), 800), 10))
	}
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		i := strings.Index(s, "fatal error:")
		if i < 0 {
			i = strings.Index(s, "panic:")
		}
		if j := strings.Index(s, "DATA RACE"); i < 0 {
			i = j
		}
		if i > 0 {
			s = s[i:]
		}
		if len(s) > n {
			s = s[:n]
		}
	}
	return s
}
