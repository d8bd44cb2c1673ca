package main

// Contract language: lexer, parser, declarations.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

type Ex struct {
	Op   string // id int str call idx slice dot un bin quant if old
	Name string
	Args []*Ex
	N    *big.Int
	Vars []VarDecl
	Trig [][]*Ex
	Pos  string
}

type VarDecl struct{ Name, Sort string }

type Clause struct {
	Label string
	E     *Ex
	Src   string
	Pos   string
	Vars  []VarDecl // metavariables (inv)
	Tag   string    // property tag filter, "" = all
}

type SpecFun struct {
	Name   string
	Params []VarDecl
	Res    string
	Body   *Ex // nil: uninterpreted
	Rec    bool
	LenE   *Ex // specseq
	IdxVar string
	AtE    *Ex
	Pos    string
	Opaque bool
}

type Lemma struct {
	Name   string
	Params []VarDecl
	Req    []Clause
	Ens    []Clause
	Trig   [][]*Ex
	Induct *Ex
	Uses   []string
	UseEx  []*Ex
	Axiom  bool
	Pos    string
	Depth  int
	Hide   []string
}

type Contract struct {
	Name     string
	Params   []string
	Results  []string
	Req      []Clause
	Ens      []Clause
	Mod      []Clause
	Inv      []Clause
	Uses     []*Ex
	Always   []Clause
	Raises   []Clause
	Alloc    []Clause
	Shares   []Clause // what the lock of a shared contract protects
	Volatile []Clause // what others may change at any time
	Keeps    []Clause // what holds of it at any time
	Trusted  bool     // extern: never verified here
	Flags    map[string]string
	Pos      string
	Hides    []string
	Ghost    []VarDecl
	Measures []*Ex
	Falls    []Clause // loop measures over loop variables
}

type SpecDB struct {
	Funs      map[string]*SpecFun
	Lemmas    []*Lemma
	Contracts map[string]*Contract
	Props     map[string]*PropDef
	Guards    []Guard
	Files     []string
}

type Guard struct{ Type, Field, Mux string }

type PropDef struct {
	ID      string
	Roots   []string
	Lemmas  []string
	Monitor bool
	Labels  map[string][]string // function -> clause labels that make up the property (empty: all)
	Note    []string
}

// ---- lexer

type tok struct {
	k   string // id int str op eof
	s   string
	pos string
}

func lex(src, pos string) []tok {
	var out []tok
	line := 1
	i := 0
	p := func() string { return fmt.Sprintf("%s", pos) }
	for i < len(src) {
		ch := src[i]
		switch {
		case ch == '\n':
			line++
			i++
		case ch == ' ' || ch == '\t' || ch == '\r':
			i++
		case ch == '#' || (ch == '/' && i+1 < len(src) && src[i+1] == '/'):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(ch)) || ch == '_' || ch == '$':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, tok{"id", src[i:j], p()})
			i = j
		case unicode.IsDigit(rune(ch)):
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || strings.ContainsRune("xXabcdefABCDEF", rune(src[j]))) {
				j++
			}
			out = append(out, tok{"int", src[i:j], p()})
			i = j
		case ch == '\'':
			out = append(out, tok{"int", fmt.Sprint(int(src[i+1])), p()})
			i += 3
		case ch == '"':
			j := i + 1
			var b strings.Builder
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				b.WriteByte(src[j])
				j++
			}
			out = append(out, tok{"str", b.String(), p()})
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "=", "?"}
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o, p()})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				panic(fmt.Sprintf("%s: bad character %q", pos, ch))
			}
		}
	}
	return append(out, tok{"eof", "", p()})
}

type parser struct {
	t []tok
	i int
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	t := p.t[p.i]
	return t.s == s && t.k != "str" && t.k != "eof"
}
func (p *parser) acc(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) exp(s string) {
	if !p.acc(s) {
		panic(fmt.Sprintf("%s: expected %q, got %q", p.peek().pos, s, p.peek().s))
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		panic(fmt.Sprintf("%s: expected identifier, got %q", t.pos, t.s))
	}
	return t.s
}

func (p *parser) sortName() string {
	s := p.ident()
	if s == "Arr" { // Arr[Elem]
		p.exp("[")
		e := p.sortName()
		p.exp("]")
		return arrOf(e)
	}
	if s == "Map" {
		p.exp("[")
		k := p.sortName()
		p.exp(",")
		v := p.sortName()
		p.exp("]")
		return arrKV(k, v)
	}
	if s == "Seq" {
		p.exp("[")
		e := p.sortName()
		p.exp("]")
		return seqOf(e)
	}
	if s == "BH" {
		return arrOf(arrOf(SInt))
	}
	return s
}

func mk(op string, pos string, args ...*Ex) *Ex { return &Ex{Op: op, Args: args, Pos: pos} }

func (p *parser) expr() *Ex { return p.iff() }
func (p *parser) iff() *Ex {
	a := p.imp()
	for p.is("<==>") {
		pos := p.next().pos
		a = &Ex{Op: "bin", Name: "<==>", Args: []*Ex{a, p.imp()}, Pos: pos}
	}
	return a
}
func (p *parser) imp() *Ex {
	a := p.or()
	if p.is("==>") {
		pos := p.next().pos
		return &Ex{Op: "bin", Name: "==>", Args: []*Ex{a, p.imp()}, Pos: pos}
	}
	return a
}
func (p *parser) or() *Ex {
	a := p.and()
	for p.is("||") {
		pos := p.next().pos
		a = &Ex{Op: "bin", Name: "||", Args: []*Ex{a, p.and()}, Pos: pos}
	}
	return a
}
func (p *parser) and() *Ex {
	a := p.cmp()
	for p.is("&&") {
		pos := p.next().pos
		a = &Ex{Op: "bin", Name: "&&", Args: []*Ex{a, p.cmp()}, Pos: pos}
	}
	return a
}
func isCmp(s string) bool {
	switch s {
	case "==", "!=", "<", "<=", ">", ">=":
		return true
	}
	return false
}
func (p *parser) cmp() *Ex {
	a := p.add()
	var res *Ex
	for p.peek().k == "op" && isCmp(p.peek().s) {
		t := p.next()
		b := p.add()
		e := &Ex{Op: "bin", Name: t.s, Args: []*Ex{a, b}, Pos: t.pos}
		if res == nil {
			res = e
		} else {
			res = &Ex{Op: "bin", Name: "&&", Args: []*Ex{res, e}, Pos: t.pos}
		}
		a = b
	}
	if res != nil {
		return res
	}
	return a
}
func (p *parser) add() *Ex {
	a := p.mul()
	for p.is("+") || p.is("-") {
		t := p.next()
		a = &Ex{Op: "bin", Name: t.s, Args: []*Ex{a, p.mul()}, Pos: t.pos}
	}
	return a
}
func (p *parser) mul() *Ex {
	a := p.unary()
	for p.is("*") || p.is("/") || p.is("%") {
		t := p.next()
		a = &Ex{Op: "bin", Name: t.s, Args: []*Ex{a, p.unary()}, Pos: t.pos}
	}
	return a
}
func (p *parser) unary() *Ex {
	if p.is("!") || p.is("-") {
		t := p.next()
		return &Ex{Op: "un", Name: t.s, Args: []*Ex{p.unary()}, Pos: t.pos}
	}
	return p.post()
}
func (p *parser) post() *Ex {
	a := p.prim()
	for {
		switch {
		case p.is("."):
			pos := p.next().pos
			a = &Ex{Op: "dot", Name: p.ident(), Args: []*Ex{a}, Pos: pos}
		case p.is("["):
			pos := p.next().pos
			var i, j *Ex
			if !p.is(":") {
				i = p.expr()
			}
			if p.acc(":") {
				if !p.is("]") {
					j = p.expr()
				}
				p.exp("]")
				a = &Ex{Op: "slice", Args: []*Ex{a, i, j}, Pos: pos}
			} else {
				p.exp("]")
				a = &Ex{Op: "idx", Args: []*Ex{a, i}, Pos: pos}
			}
		case p.is("(") && (a.Op == "id" || a.Op == "dot"):
			pos := p.next().pos
			var args []*Ex
			for !p.is(")") {
				args = append(args, p.expr())
				if !p.acc(",") {
					break
				}
			}
			p.exp(")")
			n := a.Name
			if a.Op == "dot" {
				n = a.Args[0].Name + "." + a.Name
			}
			a = &Ex{Op: "call", Name: n, Args: args, Pos: pos}
		default:
			return a
		}
	}
}
func (p *parser) varDecls(end string) []VarDecl {
	var out []VarDecl
	for !p.is(end) {
		n := p.ident()
		s := p.sortName()
		out = append(out, VarDecl{n, s})
		if !p.acc(",") {
			break
		}
	}
	return out
}
func (p *parser) trigs() [][]*Ex {
	var out [][]*Ex
	for p.acc("{") {
		var g []*Ex
		for !p.is("}") {
			g = append(g, p.expr())
			if !p.acc(",") {
				break
			}
		}
		p.exp("}")
		out = append(out, g)
	}
	return out
}
func (p *parser) prim() *Ex {
	t := p.next()
	switch t.k {
	case "int":
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			panic(t.pos + ": bad int " + t.s)
		}
		return &Ex{Op: "int", N: n, Pos: t.pos}
	case "str":
		return &Ex{Op: "str", Name: t.s, Pos: t.pos}
	case "id":
		switch t.s {
		case "forall", "exists":
			vs := p.varDecls("::")
			tr := p.trigs()
			p.exp("::")
			return &Ex{Op: "quant", Name: t.s, Vars: vs, Trig: tr, Args: []*Ex{p.expr()}, Pos: t.pos}
		case "if":
			a := p.expr()
			p.exp("then")
			b := p.expr()
			p.exp("else")
			return &Ex{Op: "if", Args: []*Ex{a, b, p.expr()}, Pos: t.pos}
		case "let":
			n := p.ident()
			p.exp("=")
			a := p.expr()
			p.exp("in")
			return &Ex{Op: "let", Name: n, Args: []*Ex{a, p.expr()}, Pos: t.pos}
		case "locked", "unlocked":
			p.exp("(")
			a := p.expr()
			p.exp(")")
			return &Ex{Op: t.s, Args: []*Ex{a}, Pos: t.pos}
		case "old":
			p.exp("(")
			a := p.expr()
			p.exp(")")
			return &Ex{Op: "old", Args: []*Ex{a}, Pos: t.pos}
		}
		return &Ex{Op: "id", Name: t.s, Pos: t.pos}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.exp(")")
			return e
		}
	}
	panic(fmt.Sprintf("%s: unexpected %q", t.pos, t.s))
}

// ---- declarations

var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("spec rec specseq uninterp axiom lemma contract extern requires ensures modifies inv use trigger induct flag prop roots lemmas guard always falls measure monitor note ghost labels depth like raises alloc hide shares volatile keeps") {
		keywords[k] = true
	}
}

func LoadSpecs(dir string) (*SpecDB, error) {
	db := &SpecDB{Funs: map[string]*SpecFun{}, Contracts: map[string]*Contract{}, Props: map[string]*PropDef{}}
	fs, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	for _, f := range fs {
		db.Files = append(db.Files, f)
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := db.parseFile(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	return db, nil
}

type rawClause struct {
	kw, text, pos string
}

func (db *SpecDB) parseFile(name, src string) (err error) {
	var cl []rawClause
	for ln, line := range strings.Split(src, "\n") {
		if i := strings.Index(line, "#"); i >= 0 && !strings.Contains(line[:i], "\"") {
			line = line[:i]
		}
		tl := strings.TrimSpace(line)
		if tl == "" {
			continue
		}
		w := tl
		if i := strings.IndexAny(tl, " \t("); i >= 0 {
			w = tl[:i]
		}
		pos := fmt.Sprintf("%s:%d", name, ln+1)
		if keywords[w] {
			cl = append(cl, rawClause{w, strings.TrimSpace(tl[len(w):]), pos})
		} else {
			if len(cl) == 0 {
				return fmt.Errorf("%s: text outside a clause", pos)
			}
			cl[len(cl)-1].text += "\n" + tl
		}
	}
	var curC *Contract
	var curL *Lemma
	var curP *PropDef
	for _, c := range cl {
		func() {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("%s: %v (in %s %s)", c.pos, r, c.kw, c.text)
				}
			}()
			switch c.kw {
			case "spec", "rec", "specseq", "uninterp":
				p := &parser{t: lex(c.text, c.pos)}
				f := &SpecFun{Name: p.ident(), Rec: c.kw == "rec", Pos: c.pos}
				p.exp("(")
				f.Params = p.varDecls(")")
				p.exp(")")
				f.Res = p.sortName()
				if c.kw == "specseq" {
					if p.ident() != "len" {
						panic("len expected")
					}
					f.LenE = p.expr()
					if p.ident() != "at" {
						panic("at expected")
					}
					f.IdxVar = p.ident()
					p.exp("=")
					f.AtE = p.expr()
				} else if c.kw != "uninterp" {
					p.exp("=")
					f.Body = p.expr()
				}
				p.expEOF()
				if db.Funs[f.Name] != nil {
					panic("duplicate spec function " + f.Name)
				}
				db.Funs[f.Name] = f
				curC, curL, curP = nil, nil, nil
			case "axiom", "lemma":
				p := &parser{t: lex(c.text, c.pos)}
				l := &Lemma{Name: p.ident(), Axiom: c.kw == "axiom", Pos: c.pos}
				p.exp("(")
				l.Params = p.varDecls(")")
				p.exp(")")
				p.expEOF()
				db.Lemmas = append(db.Lemmas, l)
				curC, curL, curP = nil, l, nil
			case "contract", "extern":
				ct := &Contract{Trusted: c.kw == "extern", Pos: c.pos, Flags: map[string]string{}}
				txt := c.text
				i := strings.Index(txt, "(")
				ct.Name = strings.TrimSpace(txt[:i])
				p := &parser{t: lex(txt[i:], c.pos)}
				p.exp("(")
				for !p.is(")") {
					ct.Params = append(ct.Params, p.ident())
					p.acc(",")
				}
				p.exp(")")
				if p.acc("(") {
					for !p.is(")") {
						ct.Results = append(ct.Results, p.ident())
						p.acc(",")
					}
					p.exp(")")
				}
				p.expEOF()
				if db.Contracts[ct.Name] != nil {
					panic("duplicate contract " + ct.Name)
				}
				db.Contracts[ct.Name] = ct
				curC, curL, curP = ct, nil, nil
			case "like":
				o := db.Contracts[c.text]
				if o == nil {
					panic("no contract " + c.text)
				}
				curC.Req, curC.Ens, curC.Mod = o.Req, o.Ens, o.Mod
			case "requires", "ensures", "modifies", "always", "raises", "alloc", "shares", "volatile", "keeps":
				cla := parseClause(c, c.kw == "modifies" || c.kw == "shares" || c.kw == "volatile")
				for _, k := range cla {
					switch {
					case curC != nil && c.kw == "requires":
						curC.Req = append(curC.Req, k)
					case curC != nil && c.kw == "ensures":
						curC.Ens = append(curC.Ens, k)
					case curC != nil && c.kw == "modifies":
						curC.Mod = append(curC.Mod, k)
					case curC != nil && c.kw == "shares":
						curC.Shares = append(curC.Shares, k)
					case curC != nil && c.kw == "volatile":
						curC.Volatile = append(curC.Volatile, k)
					case curC != nil && c.kw == "keeps":
						curC.Keeps = append(curC.Keeps, k)
					case curC != nil && c.kw == "raises":
						curC.Raises = append(curC.Raises, k)
					case curC != nil && c.kw == "alloc":
						curC.Alloc = append(curC.Alloc, k)
					case curC != nil && c.kw == "always":
						curC.Always = append(curC.Always, k)
					case curL != nil && c.kw == "requires":
						curL.Req = append(curL.Req, k)
					case curL != nil && c.kw == "ensures":
						curL.Ens = append(curL.Ens, k)
					default:
						panic("clause outside contract")
					}
				}
			case "inv", "falls":
				// inv p Int, q Int :: expr
				p := &parser{t: lex(c.text, c.pos)}
				vs := p.varDecls("::")
				p.exp("::")
				e := p.expr()
				p.expEOF()
				k := Clause{E: e, Src: c.text, Pos: c.pos, Vars: vs}
				if c.kw == "falls" {
					curC.Falls = append(curC.Falls, k)
				} else {
					curC.Inv = append(curC.Inv, k)
				}
			case "measure":
				p := &parser{t: lex(c.text, c.pos)}
				curC.Measures = append(curC.Measures, p.expr())
				p.expEOF()
			case "use":
				if curL != nil && strings.Contains(c.text, "(") {
					p := &parser{t: lex(c.text, c.pos)}
					curL.UseEx = append(curL.UseEx, p.expr())
					p.expEOF()
				} else if curL != nil {
					curL.Uses = append(curL.Uses, strings.Fields(strings.ReplaceAll(c.text, ",", " "))...)
				} else {
					p := &parser{t: lex(c.text, c.pos)}
					curC.Uses = append(curC.Uses, p.expr())
					p.expEOF()
				}
			case "trigger":
				p := &parser{t: lex("{"+c.text+"}", c.pos)}
				curL.Trig = append(curL.Trig, p.trigs()...)
			case "induct":
				p := &parser{t: lex(c.text, c.pos)}
				curL.Induct = p.expr()
				p.expEOF()
			case "hide":
				curL.Hide = strings.Fields(c.text)
			case "depth":
				fmt.Sscan(c.text, &curL.Depth)
			case "flag":
				for _, w := range strings.Fields(c.text) {
					k, v, has := strings.Cut(w, "=")
					if !has {
						v = "1"
					}
					curC.Flags[k] = v
				}
			case "ghost":
				p := &parser{t: lex(c.text, c.pos)}
				curC.Ghost = append(curC.Ghost, p.varDecls("")...)
			case "guard":
				w := strings.Fields(c.text)
				db.Guards = append(db.Guards, Guard{w[0], w[1], w[2]})
			case "prop":
				curP = &PropDef{ID: strings.TrimSpace(c.text), Labels: map[string][]string{}}
				db.Props[curP.ID] = curP
				curC, curL = nil, nil
			case "roots":
				curP.Roots = append(curP.Roots, strings.Fields(c.text)...)
			case "lemmas":
				curP.Lemmas = append(curP.Lemmas, strings.Fields(c.text)...)
			case "monitor":
				curP.Monitor = true
			case "labels":
				w := strings.Fields(c.text)
				curP.Labels[w[0]] = w[1:]
			case "note":
				if curP != nil {
					curP.Note = append(curP.Note, c.text)
				}
			}
		}()
		if err != nil {
			return err
		}
	}
	return nil
}

func (p *parser) expEOF() {
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("%s: unexpected %q", p.peek().pos, p.peek().s))
	}
}

func parseClause(c rawClause, list bool) []Clause {
	txt := c.text
	label := ""
	// label:  identifier followed by ": "
	if i := strings.Index(txt, ":"); i > 0 && i+1 < len(txt) && txt[i+1] != ':' {
		ok := true
		for _, r := range txt[:i] {
			if !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_') {
				ok = false
			}
		}
		if ok {
			label, txt = txt[:i], txt[i+1:]
		}
	}
	p := &parser{t: lex(txt, c.pos)}
	if list {
		var out []Clause
		for {
			e := p.expr()
			out = append(out, Clause{E: e, Src: txt, Pos: c.pos})
			if !p.acc(",") {
				break
			}
		}
		p.expEOF()
		return out
	}
	e := p.expr()
	p.expEOF()
	return []Clause{{Label: label, E: e, Src: strings.TrimSpace(txt), Pos: c.pos}}
}
