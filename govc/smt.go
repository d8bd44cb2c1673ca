package main

// SMT terms: hash-consed, with light simplification. One Ctx per verified function.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

const (
	SBool  = "Bool"
	SInt   = "Int"
	SStr   = "Str" // sequence of Int
	SSlice = "Slice"
	SIface = "Iface"
)

func seqOf(elem string) string {
	if elem == SInt {
		return SStr
	}
	return "Seq_" + mangle(elem)
}
func arrOf(elem string) string { return "(Array Int " + elem + ")" }
func arrKV(k, v string) string { return "(Array " + k + " " + v + ")" }

func mangle(s string) string {
	r := strings.NewReplacer("(", "L", ")", "J", " ", "_", "*", "P", "[", "I", "]", "I", ".", "_", "/", "_", ",", "_", "{", "L", "}", "J", ";", "_", "-", "_", "\"", "_")
	return r.Replace(s)
}

type Term struct {
	Op    string // operator or symbol name
	Kind  int8
	Args  []*Term
	Sort  string
	N     *big.Int
	id    int
	birth int
	alloc bool // reference freshly allocated (distinct from anything older)
	free  bool // has free bound variables
	Vars  []*Term
	Trig  [][]*Term
}

const (
	kInt int8 = iota
	kSym
	kApp
	kBound
	kQuant
)

type Interval struct{ lo, hi *big.Int }

type Ctx struct {
	tab     map[string]*Term
	n       int
	clock   int
	rng     map[*Term]Interval
	fresh   map[string]int
	qh      map[*Term]int
	litno   map[string]*Term // string literal -> symbol
	lits    map[*Term]string
	funs    map[string]*FunDecl // declared uninterpreted functions
	tru     *Term
	fls     *Term
	allocs  int
	isOld   map[*Term]bool
	byteSym map[*Term]bool
	lenOf   map[*Term]*Term // known length of a sequence symbol
}

type FunDecl struct {
	Name string
	Args []string
	Res  string
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, rng: map[*Term]Interval{}, fresh: map[string]int{}, qh: map[*Term]int{}, litno: map[string]*Term{}, lits: map[*Term]string{}, funs: map[string]*FunDecl{}, isOld: map[*Term]bool{}, lenOf: map[*Term]*Term{}, byteSym: map[*Term]bool{}}
	c.tru = c.intern(&Term{Op: "true", Kind: kSym, Sort: SBool})
	c.fls = c.intern(&Term{Op: "false", Kind: kSym, Sort: SBool})
	return c
}

func (c *Ctx) intern(t *Term) *Term {
	var b strings.Builder
	b.WriteByte('0' + byte(t.Kind))
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Sort)
	if t.N != nil {
		b.WriteByte('#')
		b.WriteString(t.N.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, a := range t.Vars {
		fmt.Fprintf(&b, ";%d", a.id)
	}
	for _, tr := range t.Trig {
		b.WriteByte('!')
		for _, a := range tr {
			fmt.Fprintf(&b, ",%d", a.id)
		}
	}
	k := b.String()
	if x, ok := c.tab[k]; ok {
		return x
	}
	c.n++
	t.id = c.n
	if t.Kind == kApp || t.Kind == kQuant {
		for _, a := range t.Args {
			if a.birth > t.birth {
				t.birth = a.birth
			}
			if a.free {
				t.free = true
			}
		}
		if t.Kind == kQuant {
			t.free = c.hasFree(t)
		}
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) hasFree(t *Term) bool {
	fv := map[*Term]bool{}
	collectFree(t, map[*Term]bool{}, fv)
	return len(fv) > 0
}

func collectFree(t *Term, bound, out map[*Term]bool) {
	if t.Kind == kBound {
		if !bound[t] {
			out[t] = true
		}
		return
	}
	if t.Kind == kQuant {
		nb := map[*Term]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, v := range t.Vars {
			nb[v] = true
		}
		for _, a := range t.Args {
			collectFree(a, nb, out)
		}
		return
	}
	if !t.free {
		return
	}
	for _, a := range t.Args {
		collectFree(a, bound, out)
	}
}

func (c *Ctx) Int(n int64) *Term    { return c.Big(big.NewInt(n)) }
func (c *Ctx) Big(n *big.Int) *Term { return c.intern(&Term{Kind: kInt, Sort: SInt, N: n}) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}

// Sym makes (or finds) a named constant born at time 0.
func (c *Ctx) Sym(name, sort string) *Term {
	return c.intern(&Term{Op: name, Kind: kSym, Sort: sort})
}

// Fresh makes a new constant born now.
func (c *Ctx) Fresh(hint, sort string) *Term {
	c.fresh[hint]++
	c.clock++
	t := c.intern(&Term{Op: fmt.Sprintf("%s!%d", hint, c.fresh[hint]), Kind: kSym, Sort: sort, birth: 0})
	t.birth = c.clock
	return t
}

func (c *Ctx) AllocRef(hint string) *Term {
	t := c.Fresh("new_"+hint, SInt)
	t.alloc = true
	return t
}

func (c *Ctx) BoundVar(name, sort string) *Term {
	c.fresh["bv"]++
	t := c.intern(&Term{Op: fmt.Sprintf("%s_q%d", name, c.fresh["bv"]), Kind: kBound, Sort: sort})
	t.free = true
	return t
}

// StrLit interns a string literal.
func (c *Ctx) StrLit(s string) *Term {
	if t, ok := c.litno[s]; ok {
		return t
	}
	if s == "" {
		t := c.Sym("empty_Str", SStr)
		c.litno[s] = t
		c.lits[t] = s
		return t
	}
	t := c.Sym(fmt.Sprintf("lit_%d", len(c.litno)), SStr)
	c.litno[s] = t
	c.lits[t] = s
	return t
}

func (c *Ctx) decl(name string, args []string, res string) {
	if _, ok := c.funs[name]; !ok {
		c.funs[name] = &FunDecl{name, args, res}
	}
}

func (c *Ctx) raw(op, sort string, args ...*Term) *Term {
	return c.intern(&Term{Op: op, Kind: kApp, Sort: sort, Args: args})
}

// App applies an uninterpreted function (declared on the fly).
func (c *Ctx) App(name, res string, args ...*Term) *Term {
	s := make([]string, len(args))
	for i, a := range args {
		s[i] = a.Sort
	}
	c.decl(name, s, res)
	return c.raw(name, res, args...)
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.tru:
		return c.fls
	case a == c.fls:
		return c.tru
	case a.Kind == kApp && a.Op == "not":
		return a.Args[0]
	case a.Kind == kApp && a.Op == "<=" && !a.free:
		// not (x <= y)  ==  y+1 <= x
		return c.Le(c.Add(a.Args[1], c.Int(1)), a.Args[0])
	}
	return c.raw("not", SBool, a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == c.fls {
			return c.fls
		}
		if a == c.tru || seen[a] {
			continue
		}
		if a.Kind == kApp && a.Op == "and" {
			for _, b := range a.Args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[c.Not(a)] {
			return c.fls
		}
	}
	switch len(out) {
	case 0:
		return c.tru
	case 1:
		return out[0]
	}
	return c.raw("and", SBool, out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == c.tru {
			return c.tru
		}
		if a == c.fls || seen[a] {
			continue
		}
		if a.Kind == kApp && a.Op == "or" {
			for _, b := range a.Args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[c.Not(a)] {
			return c.tru
		}
	}
	switch len(out) {
	case 0:
		return c.fls
	case 1:
		return out[0]
	}
	return c.raw("or", SBool, out...)
}

func (c *Ctx) Imp(a, b *Term) *Term {
	if a == c.tru {
		return b
	}
	if a == c.fls || b == c.tru || a == b {
		return c.tru
	}
	if b == c.fls {
		return c.Not(a)
	}
	return c.raw("=>", SBool, a, b)
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p == c.tru || a == b {
		return a
	}
	if p == c.fls {
		return b
	}
	if a.Sort == SBool {
		if a == c.tru && b == c.fls {
			return p
		}
		if a == c.fls && b == c.tru {
			return c.Not(p)
		}
	}
	return c.raw("ite", a.Sort, p, a, b)
}

// ---- linear integers

type lin struct {
	k  *big.Int
	cs map[*Term]*big.Int
}

func (c *Ctx) toLin(t *Term) lin {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	c.addLin(&l, t, big.NewInt(1))
	return l
}

func (c *Ctx) addLin(l *lin, t *Term, m *big.Int) {
	switch {
	case t.Kind == kInt:
		l.k.Add(l.k, new(big.Int).Mul(m, t.N))
	case t.Kind == kApp && t.Op == "+":
		for _, a := range t.Args {
			c.addLin(l, a, m)
		}
	case t.Kind == kApp && t.Op == "*" && t.Args[0].Kind == kInt:
		c.addLin(l, t.Args[1], new(big.Int).Mul(m, t.Args[0].N))
	default:
		if x, ok := l.cs[t]; ok {
			l.cs[t] = new(big.Int).Add(x, m)
		} else {
			l.cs[t] = new(big.Int).Set(m)
		}
	}
}

func (c *Ctx) fromLin(l lin) *Term {
	var ks []*Term
	for t, k := range l.cs {
		if k.Sign() != 0 {
			ks = append(ks, t)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	one := big.NewInt(1)
	for _, t := range ks {
		if l.cs[t].Cmp(one) == 0 {
			args = append(args, t)
		} else {
			args = append(args, c.raw("*", SInt, c.Big(l.cs[t]), t))
		}
	}
	if l.k.Sign() != 0 || len(args) == 0 {
		args = append(args, c.Big(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.raw("+", SInt, args...)
}

func (c *Ctx) Add(as ...*Term) *Term {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	for _, a := range as {
		c.addLin(&l, a, big.NewInt(1))
	}
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	c.addLin(&l, a, big.NewInt(1))
	c.addLin(&l, b, big.NewInt(-1))
	return c.fromLin(l)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.Kind != kInt && b.Kind == kInt {
		a, b = b, a
	}
	if a.Kind == kInt {
		l := lin{new(big.Int), map[*Term]*big.Int{}}
		c.addLin(&l, b, a.N)
		return c.fromLin(l)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.raw("*", SInt, a, b)
}

// Div, Mod: Euclidean (SMT-LIB) with positive constant divisor.
func (c *Ctx) Div(a, b *Term) *Term {
	if b.Kind == kInt && b.N.Sign() > 0 {
		if a.Kind == kInt {
			return c.Big(new(big.Int).Div(a.N, b.N))
		}
		if b.N.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if iv, ok := c.ival(a, nil); ok && iv.lo != nil && iv.hi != nil && iv.lo.Sign() >= 0 && iv.hi.Cmp(b.N) < 0 {
			return c.Int(0)
		}
		if a.Kind == kApp && a.Op == "div" && a.Args[1].Kind == kInt && a.Args[1].N.Sign() > 0 {
			return c.Div(a.Args[0], c.Big(new(big.Int).Mul(a.Args[1].N, b.N)))
		}
		if q, r, ok := c.splitLin(a, b.N); ok {
			return c.Add(q, c.Div(r, b))
		}
	}
	return c.raw("div", SInt, a, b)
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if b.Kind == kInt && b.N.Sign() > 0 {
		if a.Kind == kInt {
			return c.Big(new(big.Int).Mod(a.N, b.N))
		}
		if iv, ok := c.ival(a, nil); ok && iv.lo != nil && iv.hi != nil && iv.lo.Sign() >= 0 && iv.hi.Cmp(b.N) < 0 {
			return a
		}
		if _, r, ok := c.splitLin(a, b.N); ok {
			return c.Mod(r, b)
		}
		if a.Kind == kApp && a.Op == "mod" && a.Args[1].Kind == kInt && a.Args[1].N.Sign() > 0 &&
			new(big.Int).Mod(a.Args[1].N, b.N).Sign() == 0 {
			return c.Mod(a.Args[0], b)
		}
	}
	return c.raw("mod", SInt, a, b)
}

// splitLin: a = q*n + r with the multiples of n moved to q (nil, nil, false if there are none).
func (c *Ctx) splitLin(a *Term, n *big.Int) (q, r *Term, ok bool) {
	l := c.toLin(a)
	ql := lin{new(big.Int), map[*Term]*big.Int{}}
	rl := lin{new(big.Int), map[*Term]*big.Int{}}
	for t, k := range l.cs {
		m := new(big.Int)
		d, m := new(big.Int).DivMod(k, n, m)
		if m.Sign() == 0 && k.Sign() != 0 {
			ql.cs[t] = d
			ok = true
		} else {
			rl.cs[t] = k
		}
	}
	m := new(big.Int)
	d, m := new(big.Int).DivMod(l.k, n, m)
	if d.Sign() != 0 {
		ok = true
	}
	ql.k, rl.k = d, m
	if !ok {
		return nil, nil, false
	}
	return c.fromLin(ql), c.fromLin(rl), true
}

func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(a, b)
	if d.Kind == kInt {
		return c.Bool(d.N.Sign() <= 0)
	}
	if iv, ok := c.ival(d, nil); ok {
		if iv.hi != nil && iv.hi.Sign() <= 0 {
			return c.tru
		}
		if iv.lo != nil && iv.lo.Sign() > 0 {
			return c.fls
		}
	}
	// canonical: positive side <= other side
	l := c.toLin(d)
	pos := lin{new(big.Int), map[*Term]*big.Int{}}
	neg := lin{new(big.Int), map[*Term]*big.Int{}}
	for t, k := range l.cs {
		if k.Sign() > 0 {
			pos.cs[t] = k
		} else if k.Sign() < 0 {
			neg.cs[t] = new(big.Int).Neg(k)
		}
	}
	if l.k.Sign() > 0 {
		pos.k = l.k
	} else {
		neg.k = new(big.Int).Neg(l.k)
	}
	return c.raw("<=", SBool, c.fromLin(pos), c.fromLin(neg))
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.Add(a, c.Int(1)), b) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s / %s", a.Sort, b.Sort, c.Str(a), c.Str(b)))
	}
	switch a.Sort {
	case SBool:
		if a == c.tru {
			return b
		}
		if b == c.tru {
			return a
		}
		if a == c.fls {
			return c.Not(b)
		}
		if b == c.fls {
			return c.Not(a)
		}
	case SInt:
		d := c.Sub(a, b)
		if d.Kind == kInt {
			return c.Bool(d.N.Sign() == 0)
		}
		if iv, ok := c.ival(d, nil); ok {
			if (iv.hi != nil && iv.hi.Sign() < 0) || (iv.lo != nil && iv.lo.Sign() > 0) {
				return c.fls
			}
		}
		if c.Distinct(a, b) {
			return c.fls
		}
	case SStr:
		if la, ok := c.lits[a]; ok {
			if lb, ok := c.lits[b]; ok {
				return c.Bool(la == lb)
			}
		}
	case SSlice:
		if a.Op == "mk-slice" && b.Op == "mk-slice" {
			return c.And(c.Eq(a.Args[0], b.Args[0]), c.Eq(a.Args[1], b.Args[1]), c.Eq(a.Args[2], b.Args[2]), c.Eq(a.Args[3], b.Args[3]))
		}
	case SIface:
		if n := c.NilIface(); a == n || b == n {
			return c.Eq(c.ITag(a), c.ITag(b))
		}
		if a.Op == "mk-iface" && b.Op == "mk-iface" {
			return c.And(c.Eq(a.Args[0], b.Args[0]), c.Eq(a.Args[1], b.Args[1]))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.raw("=", SBool, a, b)
}

// Distinct: references known syntactically to differ.
func (c *Ctx) Distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Kind == kInt && b.Kind == kInt {
		return a.N.Cmp(b.N) != 0
	}
	ea, ka, oka := c.unEmb(a)
	eb, kb, okb := c.unEmb(b)
	if oka && okb {
		return ka != kb || c.Distinct(ea, eb)
	}
	if oka || okb {
		// embedded refs are negative, plain refs are not; only claim it for alloc'd or literal
		if oka {
			return b.alloc || (b.Kind == kInt && b.N.Sign() >= 0) || c.isOld[b]
		}
		return a.alloc || (a.Kind == kInt && a.N.Sign() >= 0) || c.isOld[a]
	}
	if a.alloc && b.alloc {
		return true
	}
	if a.alloc && !b.free && b.birth < a.birth {
		return true
	}
	if b.alloc && !a.free && a.birth < b.birth {
		return true
	}
	return false
}

const embK = 4096

// Emb makes the reference of an array embedded in object r (field number k < embK).
func (c *Ctx) Emb(r *Term, k int) *Term {
	return c.Sub(c.Int(int64(-k)), c.Mul(c.Int(embK), r))
}

func (c *Ctx) unEmb(t *Term) (*Term, int, bool) {
	var m, k *Term
	if t.Kind == kApp && t.Op == "*" {
		m = t
	} else if t.Kind == kApp && t.Op == "+" && len(t.Args) == 2 {
		m, k = t.Args[0], t.Args[1]
	} else {
		return nil, 0, false
	}
	if m.Kind != kApp || m.Op != "*" || m.Args[0].Kind != kInt || m.Args[0].N.Int64() != -embK {
		return nil, 0, false
	}
	kk := 0
	if k != nil {
		if k.Kind != kInt {
			return nil, 0, false
		}
		kk = int(-k.N.Int64())
	}
	return m.Args[1], kk, true
}

// ---- intervals

func (c *Ctx) SetRange(t *Term, lo, hi *big.Int) {
	if t.Kind == kInt {
		return
	}
	if o, ok := c.rng[t]; ok {
		if o.lo != nil && (lo == nil || o.lo.Cmp(lo) > 0) {
			lo = o.lo
		}
		if o.hi != nil && (hi == nil || o.hi.Cmp(hi) < 0) {
			hi = o.hi
		}
	}
	c.rng[t] = Interval{lo, hi}
}

// SetRangeNN records that a length term is not negative.
func (c *Ctx) SetRangeNN(t *Term) {
	if t.Kind == kApp && (t.Op == "s-len" || strings.HasPrefix(t.Op, "len_")) {
		c.SetRange(t, new(big.Int), nil)
	}
}

func (c *Ctx) ival(t *Term, over map[*Term]Interval) (Interval, bool) {
	return c.ivalD(t, over, 12)
}

func (c *Ctx) ivalD(t *Term, over map[*Term]Interval, d int) (Interval, bool) {
	if t.Kind == kInt {
		return Interval{t.N, t.N}, true
	}
	var r Interval
	r, _ = c.rng[t]
	if over != nil {
		if o, ok := over[t]; ok {
			if o.lo != nil && (r.lo == nil || o.lo.Cmp(r.lo) > 0) {
				r.lo = o.lo
			}
			if o.hi != nil && (r.hi == nil || o.hi.Cmp(r.hi) < 0) {
				r.hi = o.hi
			}
		}
	}
	if d > 0 && t.Kind == kApp {
		var s Interval
		switch t.Op {
		case "+":
			lo, hi := new(big.Int), new(big.Int)
			okl, okh := true, true
			for _, a := range t.Args {
				i, ok := c.ivalD(a, over, d-1)
				if !ok {
					okl, okh = false, false
					break
				}
				if i.lo == nil {
					okl = false
				} else {
					lo.Add(lo, i.lo)
				}
				if i.hi == nil {
					okh = false
				} else {
					hi.Add(hi, i.hi)
				}
			}
			if okl {
				s.lo = lo
			}
			if okh {
				s.hi = hi
			}
		case "*":
			if t.Args[0].Kind == kInt {
				if i, ok := c.ivalD(t.Args[1], over, d-1); ok {
					k := t.Args[0].N
					a, b := i.lo, i.hi
					if k.Sign() < 0 {
						a, b = b, a
					}
					if a != nil {
						s.lo = new(big.Int).Mul(a, k)
					}
					if b != nil {
						s.hi = new(big.Int).Mul(b, k)
					}
				}
			}
		case "ite":
			i, ok1 := c.ivalD(t.Args[1], over, d-1)
			j, ok2 := c.ivalD(t.Args[2], over, d-1)
			if ok1 && ok2 {
				if i.lo != nil && j.lo != nil {
					s.lo = i.lo
					if j.lo.Cmp(i.lo) < 0 {
						s.lo = j.lo
					}
				}
				if i.hi != nil && j.hi != nil {
					s.hi = i.hi
					if j.hi.Cmp(i.hi) > 0 {
						s.hi = j.hi
					}
				}
			}
		case "mod":
			if t.Args[1].Kind == kInt && t.Args[1].N.Sign() > 0 {
				s.lo = new(big.Int)
				s.hi = new(big.Int).Sub(t.Args[1].N, big.NewInt(1))
			}
		case "div":
			if t.Args[1].Kind == kInt && t.Args[1].N.Sign() > 0 {
				if i, ok := c.ivalD(t.Args[0], over, d-1); ok {
					if i.lo != nil {
						s.lo = new(big.Int).Div(i.lo, t.Args[1].N)
					}
					if i.hi != nil {
						s.hi = new(big.Int).Div(i.hi, t.Args[1].N)
					}
				}
			}
		case "at_Str":
			s.lo, s.hi = new(big.Int), big.NewInt(255)
		case "len_Str":
			s.lo = new(big.Int)
		default:
			if strings.HasPrefix(t.Op, "len_") {
				s.lo = new(big.Int)
			}
		}
		if s.lo != nil && (r.lo == nil || s.lo.Cmp(r.lo) > 0) {
			r.lo = s.lo
		}
		if s.hi != nil && (r.hi == nil || s.hi.Cmp(r.hi) < 0) {
			r.hi = s.hi
		}
	}
	return r, r.lo != nil || r.hi != nil
}

// ---- arrays

func (c *Ctx) elemSort(arr string) string {
	// "(Array K V)"
	s := strings.TrimSuffix(strings.TrimPrefix(arr, "(Array "), ")")
	// skip K
	d, i := 0, 0
	for i = 0; i < len(s); i++ {
		if s[i] == '(' {
			d++
		} else if s[i] == ')' {
			d--
		} else if s[i] == ' ' && d == 0 {
			break
		}
	}
	return s[i+1:]
}

func (c *Ctx) keySort(arr string) string {
	s := strings.TrimSuffix(strings.TrimPrefix(arr, "(Array "), ")")
	d, i := 0, 0
	for i = 0; i < len(s); i++ {
		if s[i] == '(' {
			d++
		} else if s[i] == ')' {
			d--
		} else if s[i] == ' ' && d == 0 {
			break
		}
	}
	return s[:i]
}

func (c *Ctx) Select(a, i *Term) *Term {
	for a.Kind == kApp {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if i.Sort == SInt && c.Distinct2(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
			if i.Sort == SStr && c.Eq(a.Args[1], i) == c.fls {
				a = a.Args[0]
				continue
			}
		} else if a.Op == "wr" {
			o, q := a.Args[1], a.Args[2]
			if c.Le(o, i) == c.tru && c.Lt(i, c.Add(o, c.Len(q))) == c.tru {
				return c.At(q, c.Sub(i, o))
			}
			if c.Lt(i, o) == c.tru || c.Le(c.Add(o, c.Len(q)), i) == c.tru {
				a = a.Args[0]
				continue
			}
		} else if a.Op == "constarr" {
			return a.Args[0]
		} else if a.Op == "sarr" && i.Kind == kInt {
			if l, ok := c.lits[a.Args[0]]; ok && i.N.IsInt64() && i.N.Int64() >= 0 && i.N.Int64() < int64(len(l)) {
				return c.Int(int64(l[i.N.Int64()]))
			}
		}
		break
	}
	return c.raw("select", c.elemSort(a.Sort), a, i)
}

// Distinct2: distinct as refs, or integers with constant nonzero difference.
func (c *Ctx) Distinct2(a, b *Term) bool {
	d := c.Sub(a, b)
	if d.Kind == kInt {
		return d.N.Sign() != 0
	}
	return c.Distinct(a, b)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.Kind == kApp && a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Kind == kApp && v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	if a.Kind == kApp && a.Op == "constarr" && a.Args[0] == v {
		return a
	}
	return c.raw("store", a.Sort, a, i, v)
}

func (c *Ctx) ConstArr(sort string, v *Term) *Term { return c.raw("constarr", sort, v) }

// ---- slices / ifaces

func (c *Ctx) MkSlice(ref, off, ln, cp *Term) *Term {
	return c.raw("mk-slice", SSlice, ref, off, ln, cp)
}
func (c *Ctx) sel(i int, name string, s *Term) *Term {
	if s.Kind == kApp && (s.Op == "mk-slice" || s.Op == "mk-iface") {
		return s.Args[i]
	}
	if s.Kind == kApp && s.Op == "ite" {
		return c.Ite(s.Args[0], c.sel(i, name, s.Args[1]), c.sel(i, name, s.Args[2]))
	}
	return c.raw(name, SInt, s)
}
func (c *Ctx) SRef(s *Term) *Term { return c.sel(0, "s-ref", s) }
func (c *Ctx) SOff(s *Term) *Term { return c.sel(1, "s-off", s) }
func (c *Ctx) SLen(s *Term) *Term { return c.sel(2, "s-len", s) }
func (c *Ctx) SCap(s *Term) *Term { return c.sel(3, "s-cap", s) }
func (c *Ctx) MkIface(tag, val *Term) *Term {
	return c.raw("mk-iface", SIface, tag, val)
}
func (c *Ctx) ITag(s *Term) *Term { return c.sel(0, "i-tag", s) }
func (c *Ctx) IVal(s *Term) *Term { return c.sel(1, "i-val", s) }
func (c *Ctx) NilSlice() *Term    { z := c.Int(0); return c.MkSlice(z, z, z, z) }
func (c *Ctx) NilIface() *Term    { z := c.Int(0); return c.MkIface(z, z) }

// ---- sequences (Str is the sequence of Int)

func seqElem(s string) string {
	if s == SStr {
		return SInt
	}
	switch s {
	case "Seq_Int":
		return SInt
	case "Seq_Str":
		return SStr
	case "Seq_Slice":
		return SSlice
	case "Seq_Bool":
		return SBool
	case "Seq_Iface":
		return SIface
	}
	panic("seqElem " + s)
}
func isSeq(s string) bool { return s == SStr || strings.HasPrefix(s, "Seq_") }

func (c *Ctx) Len(s *Term) *Term {
	if l, ok := c.lits[s]; ok {
		return c.Int(int64(len(l)))
	}
	if l, ok := c.lenOf[s]; ok {
		if iv, ok := c.ival(l, nil); ok && iv.lo != nil && iv.lo.Sign() >= 0 {
			return l
		}
	}
	if s.Kind == kApp {
		switch {
		case s.Op == "unit_"+s.Sort:
			return c.Int(1)
		case s.Op == "cat_"+s.Sort:
			return c.Add(c.Len(s.Args[0]), c.Len(s.Args[1]))
		case s.Op == "view_"+s.Sort:
			if iv, ok := c.ival(s.Args[2], nil); ok && iv.lo != nil && iv.lo.Sign() >= 0 {
				return s.Args[2]
			}
		case s.Op == "upd_"+s.Sort:
			return c.Len(s.Args[0])
		}
	}
	if s.Op == "empty_"+s.Sort {
		return c.Int(0)
	}
	return c.raw("len_"+s.Sort, SInt, s)
}
func (c *Ctx) At(s, i *Term) *Term {
	if l, ok := c.lits[s]; ok && i.Kind == kInt && i.N.IsInt64() && i.N.Int64() >= 0 && i.N.Int64() < int64(len(l)) {
		return c.Int(int64(l[i.N.Int64()]))
	}
	if s.Kind == kApp && !i.free {
		in := func(n *Term) bool { return c.Le(c.Int(0), i) == c.tru && c.Lt(i, n) == c.tru }
		switch s.Op {
		case "unit_" + s.Sort:
			if i.Kind == kInt && i.N.Sign() == 0 {
				return s.Args[0]
			}
		case "view_" + s.Sort:
			if in(s.Args[2]) {
				t := c.Select(s.Args[0], c.Add(s.Args[1], i))
				if s.Sort == SStr && t.Kind != kInt && !t.free {
					c.SetRange(t, new(big.Int), big.NewInt(255))
				}
				return t
			}
		case "cat_" + s.Sort:
			n := c.Len(s.Args[0])
			if in(n) {
				return c.At(s.Args[0], i)
			}
			if c.Le(n, i) == c.tru {
				return c.At(s.Args[1], c.Sub(i, n))
			}
		case "sub_" + s.Sort:
			if s.Args[1].Kind == kInt && s.Args[1].N.Sign() >= 0 && c.Le(c.Int(0), i) == c.tru && c.Lt(i, c.Sub(s.Args[2], s.Args[1])) == c.tru && c.Le(s.Args[2], c.Len(s.Args[0])) == c.tru {
				return c.At(s.Args[0], c.Add(s.Args[1], i))
			}
		}
	}
	return c.raw("at_"+s.Sort, seqElem(s.Sort), s, i)
}
func (c *Ctx) View(arr, off, n *Term) *Term {
	return c.ViewS(seqOf(c.elemSort(arr.Sort)), arr, off, n)
}

// seqFor is the sort of element sequences of a heap family: bytes form Str, other integers Seq_Int.
func seqFor(fam, leaf string) string {
	if leaf == SInt && fam != "E:u8" {
		return "Seq_Int"
	}
	return seqOf(leaf)
}

// ViewS is the sequence (of sort ss) of array elements off..off+n.
func (c *Ctx) ViewS(ss string, arr, off, n *Term) *Term {
	if n.Kind == kInt && n.N.Sign() == 0 {
		return c.Empty(ss)
	}
	if arr.Kind == kApp && arr.Op == "sarr" && off.Kind == kInt && off.N.Sign() == 0 && n == c.Len(arr.Args[0]) {
		return arr.Args[0]
	}
	if arr.Kind == kApp {
		switch arr.Op {
		case "wr":
			o, q := arr.Args[1], arr.Args[2]
			if o == off && n == c.Len(q) && q.Sort == ss {
				return q
			}
			if c.Le(c.Add(off, n), o) == c.tru || c.Le(c.Add(o, c.Len(q)), off) == c.tru {
				return c.ViewS(ss, arr.Args[0], off, n)
			}
		case "store":
			if c.Lt(arr.Args[1], off) == c.tru || c.Le(c.Add(off, n), arr.Args[1]) == c.tru {
				return c.ViewS(ss, arr.Args[0], off, n)
			}
		}
	}
	if r := c.viewConst(ss, arr, off, n); r != nil {
		return r
	}
	return c.raw("view_"+ss, ss, arr, off, n)
}

// viewConst spells out the view of a constant range of a row that was written at constant places.
func (c *Ctx) viewConst(ss string, arr, off, n *Term) *Term {
	if off.Kind != kInt || n.Kind != kInt || n.N.Cmp(big.NewInt(256)) > 0 || arr.Kind != kApp || arr.Op != "store" && arr.Op != "wr" {
		return nil
	}
	o, ln := off.N.Int64(), n.N.Int64()
	type cl struct {
		t, q *Term // element, or element i of sequence q
		i    int64
	}
	cells := make([]cl, ln)
	left := ln
	a := arr
	for left > 0 && a.Kind == kApp && (a.Op == "store" || a.Op == "wr") {
		if a.Args[1].Kind != kInt {
			return nil
		}
		p := a.Args[1].N.Int64() - o
		if a.Op == "store" {
			if p >= 0 && p < ln && cells[p].t == nil && cells[p].q == nil {
				cells[p].t = a.Args[2]
				left--
			}
		} else {
			q := a.Args[2]
			m := c.Len(q)
			if q.Sort != ss || m.Kind != kInt {
				return nil
			}
			for i := int64(0); i < m.N.Int64(); i++ {
				if k := p + i; k >= 0 && k < ln && cells[k].t == nil && cells[k].q == nil {
					cells[k].q, cells[k].i = q, i
					left--
				}
			}
		}
		a = a.Args[0]
	}
	var ps []*Term
	for i := int64(0); i < ln; {
		j := i + 1
		switch x := cells[i]; {
		case x.q != nil:
			for j < ln && cells[j].q == x.q && cells[j].i == x.i+j-i {
				j++
			}
			if x.i == 0 && c.Len(x.q) == c.Int(j-i) {
				ps = append(ps, x.q)
			} else {
				ps = append(ps, c.SubSeq(x.q, c.Int(x.i), c.Int(x.i+j-i)))
			}
		case x.t != nil:
			ps = append(ps, c.UnitS(ss, x.t))
		default:
			for j < ln && cells[j].t == nil && cells[j].q == nil {
				j++
			}
			ps = append(ps, c.ViewS(ss, a, c.Int(o+i), c.Int(j-i)))
		}
		i = j
	}
	r := ps[len(ps)-1]
	for i := len(ps) - 2; i >= 0; i-- {
		r = c.Cat(ps[i], r)
	}
	return r
}

// Wr overwrites array row with sequence q from position o.
func (c *Ctx) Wr(row, o, q *Term) *Term {
	if c.isEmpty(q) {
		return row
	}
	if row.Kind == kApp && row.Op == "wr" && row.Args[1] == o && c.Len(row.Args[2]) == c.Len(q) {
		row = row.Args[0]
	}
	return c.raw("wr", row.Sort, row, o, q)
}

// markBytes: every element of the array symbol is a byte.
func (c *Ctx) markBytes(t *Term) *Term { c.byteSym[t] = true; return t }
func (c *Ctx) Sarr(s *Term) *Term {
	return c.raw("sarr", arrOf(SInt), s)
}
func (c *Ctx) Empty(sort string) *Term {
	if sort == SStr {
		return c.StrLit("")
	}
	return c.Sym("empty_"+sort, sort)
}
func (c *Ctx) Cat(a, b *Term) *Term {
	if c.isEmpty(a) {
		return b
	}
	if c.isEmpty(b) {
		return a
	}
	// right-nest
	if a.Kind == kApp && a.Op == "cat_"+a.Sort {
		return c.Cat(a.Args[0], c.Cat(a.Args[1], b))
	}
	return c.raw("cat_"+a.Sort, a.Sort, a, b)
}
func (c *Ctx) isEmpty(a *Term) bool {
	return a.Op == "empty_"+a.Sort
}
func (c *Ctx) SubSeq(s, i, j *Term) *Term {
	if i == j {
		return c.Empty(s.Sort)
	}
	if i.Kind == kInt && i.N.Sign() == 0 && j == c.Len(s) {
		return s
	}
	return c.raw("sub_"+s.Sort, s.Sort, s, i, j)
}
func (c *Ctx) Unit(elem *Term) *Term {
	return c.UnitS(seqOf(elem.Sort), elem)
}
func (c *Ctx) UnitS(ss string, elem *Term) *Term { return c.raw("unit_"+ss, ss, elem) }
func (c *Ctx) Upd(s, i, v *Term) *Term           { return c.raw("upd_"+s.Sort, s.Sort, s, i, v) }

// ---- quantifiers

func (c *Ctx) Quant(kind string, vars []*Term, body *Term, trig [][]*Term) *Term {
	if body == c.tru || body == c.fls {
		return body
	}
	// bound variables are named by height and place, so that equal formulas are the same term
	h := 1 + c.qheight(body)
	for _, g := range trig {
		for _, a := range g {
			if k := 1 + c.qheight(a); k > h {
				h = k
			}
		}
	}
	m := map[*Term]*Term{}
	nv := make([]*Term, len(vars))
	for i, v := range vars {
		t := c.intern(&Term{Op: fmt.Sprintf("q%d_%d", h, i), Kind: kBound, Sort: v.Sort})
		t.free = true
		nv[i] = t
		if t != v {
			m[v] = t
		}
	}
	if len(m) > 0 {
		body = c.Subst(body, m)
		ntr := make([][]*Term, len(trig))
		for i, g := range trig {
			ntr[i] = make([]*Term, len(g))
			for j, a := range g {
				ntr[i][j] = c.Subst(a, m)
			}
		}
		trig = ntr
		if body == c.tru || body == c.fls {
			return body
		}
	}
	vars = nv
	return c.intern(&Term{Op: kind, Kind: kQuant, Sort: SBool, Args: []*Term{body}, Vars: vars, Trig: trig})
}

func (c *Ctx) qheight(t *Term) int {
	if t.Kind != kApp && t.Kind != kQuant {
		return 0
	}
	if h, ok := c.qh[t]; ok {
		return h
	}
	h := 0
	for _, a := range t.Args {
		if k := c.qheight(a); k > h {
			h = k
		}
	}
	if t.Kind == kQuant {
		h++
	}
	c.qh[t] = h
	return h
}

func (c *Ctx) Forall(vars []*Term, body *Term, trig ...[]*Term) *Term {
	return c.Quant("forall", vars, body, trig)
}

// Subst replaces symbols/bound vars.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(*Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if t.Kind != kApp && t.Kind != kQuant {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = f(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if t.Kind == kQuant {
			tr := make([][]*Term, len(t.Trig))
			for i, g := range t.Trig {
				tr[i] = make([]*Term, len(g))
				for j, a := range g {
					tr[i][j] = f(a)
				}
			}
			if ch {
				r = c.intern(&Term{Op: t.Op, Kind: kQuant, Sort: SBool, Args: args, Vars: t.Vars, Trig: tr})
			}
		} else if ch {
			r = c.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "=>":
		return c.Imp(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "+":
		return c.Add(a...)
	case "*":
		return c.Mul(a[0], a[1])
	case "div":
		return c.Div(a[0], a[1])
	case "mod":
		return c.Mod(a[0], a[1])
	case "<=":
		return c.Le(a[0], a[1])
	case "=":
		return c.Eq(a[0], a[1])
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "s-ref":
		return c.SRef(a[0])
	case "s-off":
		return c.SOff(a[0])
	case "s-len":
		return c.SLen(a[0])
	case "s-cap":
		return c.SCap(a[0])
	case "i-tag":
		return c.ITag(a[0])
	case "i-val":
		return c.IVal(a[0])
	case "wr":
		return c.Wr(a[0], a[1], a[2])
	}
	switch {
	case strings.HasPrefix(t.Op, "len_") && isSeq(a[0].Sort):
		return c.Len(a[0])
	case strings.HasPrefix(t.Op, "at_") && len(a) == 2 && isSeq(a[0].Sort):
		return c.At(a[0], a[1])
	case strings.HasPrefix(t.Op, "view_") && isSeq(t.Sort):
		return c.ViewS(t.Sort, a[0], a[1], a[2])
	case strings.HasPrefix(t.Op, "cat_") && isSeq(t.Sort):
		return c.Cat(a[0], a[1])
	case strings.HasPrefix(t.Op, "upd_") && isSeq(t.Sort):
		return c.Upd(a[0], a[1], a[2])
	case strings.HasPrefix(t.Op, "sub_") && isSeq(t.Sort):
		return c.SubSeq(a[0], a[1], a[2])
	}
	return c.raw(t.Op, t.Sort, a...)
}

// ---- printing

func (c *Ctx) Str(t *Term) string {
	var b strings.Builder
	printTerm(&b, t, nil)
	return b.String()
}

func symName(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_!$.-+*<>=/%?&~^@", r)) {
			return "|" + s + "|"
		}
	}
	return s
}

func printTerm(b *strings.Builder, t *Term, named map[*Term]string) {
	if named != nil {
		if n, ok := named[t]; ok {
			b.WriteString(n)
			return
		}
	}
	printBody(b, t, named)
}

func printBody(b *strings.Builder, t *Term, named map[*Term]string) {
	switch t.Kind {
	case kInt:
		if t.N.Sign() < 0 {
			b.WriteString("(- ")
			b.WriteString(new(big.Int).Neg(t.N).String())
			b.WriteString(")")
		} else {
			b.WriteString(t.N.String())
		}
	case kSym, kBound:
		b.WriteString(symName(t.Op))
	case kApp:
		if t.Op == "constarr" {
			b.WriteString("((as const ")
			b.WriteString(t.Sort)
			b.WriteString(") ")
			printTerm(b, t.Args[0], named)
			b.WriteString(")")
			return
		}
		b.WriteString("(")
		b.WriteString(symName(t.Op))
		for _, a := range t.Args {
			b.WriteString(" ")
			printTerm(b, a, named)
		}
		b.WriteString(")")
	case kQuant:
		b.WriteString("(")
		b.WriteString(t.Op)
		b.WriteString(" (")
		for _, v := range t.Vars {
			fmt.Fprintf(b, "(%s %s)", symName(v.Op), v.Sort)
		}
		b.WriteString(") ")
		if len(t.Trig) > 0 {
			b.WriteString("(! ")
		}
		printTerm(b, t.Args[0], named)
		for _, g := range t.Trig {
			b.WriteString(" :pattern (")
			for i, a := range g {
				if i > 0 {
					b.WriteString(" ")
				}
				printTerm(b, a, named)
			}
			b.WriteString(")")
		}
		if len(t.Trig) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
	}
}

func visit(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var g func(*Term)
	g = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			g(a)
		}
		for _, v := range t.Vars {
			g(v)
		}
		for _, tr := range t.Trig {
			for _, a := range tr {
				g(a)
			}
		}
		f(t)
	}
	for _, t := range ts {
		g(t)
	}
}
