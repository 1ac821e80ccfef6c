package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---- AST ----

type Node struct {
	k    string // ident,int,str,sel,index,slice,call,un,bin,tern,forall,exists,set,old,is,as,let,in
	s    string
	n    int64
	kids []*Node
	bs   []Binder
	trig [][]*Node
	pos  string
	src  string
}

type Binder struct {
	name string
	typ  string // Go type text, or "" when ranging
	in   *Node
	loop bool // in hints: only variables the loop changes
}

type Clause struct {
	kind    string // requires ensures modifies hint inv decreases
	tags    []string
	name    string
	guard   string // instance guard, e.g. "RootType"
	e       *Node
	holes   []Binder
	changed bool // hint: only for loops that change what it is about
	mods    []*Node
	src     string
	pos     string
}

type Contract struct {
	Header  string
	Name    string // pkg.(*Recv).Meth or pkg.Func
	Params  []string
	Results []string
	Clauses []*Clause
	Extern  bool
	Pure    bool
	Trusted bool
	Inline  bool
	Pos     string
	File    string
	Pkg     string
}

type Pred struct {
	Name   string
	Params []Binder
	Body   *Node
	Pkg    string
}

type GhostFn struct {
	Name string
	Args []string
	Res  string
	Pkg  string
}

type JsonInv struct {
	Type string
	Var  string
	Body *Node
	Pkg  string
	Tags []string
}

type SpecSet struct {
	Contracts map[string]*Contract
	Preds     map[string]*Pred
	Ghosts    map[string]*GhostFn
	GVars     map[string]*GhostFn // ghost state variables: name -> sort
	Axioms    []*AxiomDecl
	JsonInvs  map[string]*JsonInv
	Order     []string
	Hints     []*Clause
	Volatile  []string
	Opaque    []string
}

type AxiomDecl struct {
	e      *Node
	Pkg    string
	Src    string
	Tags   []string
	Var    string
	Lo, Hi int64
}

func NewSpecSet() *SpecSet {
	return &SpecSet{Contracts: map[string]*Contract{}, Preds: map[string]*Pred{}, Ghosts: map[string]*GhostFn{}, GVars: map[string]*GhostFn{}, JsonInvs: map[string]*JsonInv{}}
}

// ---- lexer ----

type tok struct {
	k string // id,int,str,op,eof
	s string
	p int
}

func lex(src string) ([]tok, error) {
	var ts []tok
	i := 0
	ops := []string{"<==>", "==>", "::", ":=", "&&", "||", "==", "!=", "<=", ">=", "...", "<<", ">>"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] == '$' || src[j] == '#' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			ts = append(ts, tok{"id", src[i:j], i})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			ts = append(ts, tok{"int", src[i:j], i})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				return nil, err
			}
			ts = append(ts, tok{"str", s, i})
			i = j + 1
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, tok{"op", o, i})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				ts = append(ts, tok{"op", string(c), i})
				i++
			}
		}
	}
	ts = append(ts, tok{"eof", "", len(src)})
	return ts, nil
}

type parser struct {
	ts  []tok
	i   int
	src string
}

func (p *parser) peek() tok { return p.ts[p.i] }
func (p *parser) next() tok { t := p.ts[p.i]; p.i++; return t }
func (p *parser) isOp(s string) bool {
	return p.peek().k == "op" && p.peek().s == s
}
func (p *parser) isId(s string) bool {
	return p.peek().k == "id" && p.peek().s == s
}
func (p *parser) accept(s string) bool {
	if p.isOp(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("expected %q at ...%s", s, p.rest()))
	}
}
func (p *parser) rest() string {
	r := p.src[p.peek().p:]
	if len(r) > 60 {
		r = r[:60]
	}
	return r
}

func (p *parser) expr() *Node {
	if p.peek().k == "id" {
		switch p.peek().s {
		case "forall", "exists", "set":
			return p.quant()
		case "let":
			p.next()
			name := p.next().s
			p.expect(":=")
			e := p.iff()
			p.expect("::")
			b := p.expr()
			return &Node{k: "let", s: name, kids: []*Node{e, b}}
		}
	}
	c := p.iff()
	if p.accept("?") {
		a := p.expr()
		p.expect(":")
		b := p.expr()
		return &Node{k: "tern", kids: []*Node{c, a, b}}
	}
	return c
}

func (p *parser) quant() *Node {
	k := p.next().s
	n := &Node{k: k}
	for {
		name := p.next().s
		b := Binder{name: name}
		if p.isId("in") {
			p.next()
			b.in = p.or()
		} else {
			b.typ = p.typ()
		}
		n.bs = append(n.bs, b)
		if !p.accept(",") {
			break
		}
	}
	for p.isOp("{") {
		p.next()
		var tr []*Node
		for {
			tr = append(tr, p.add())
			if !p.accept(",") {
				break
			}
		}
		p.expect("}")
		n.trig = append(n.trig, tr)
	}
	p.expect("::")
	n.kids = []*Node{p.expr()}
	return n
}

// typ parses a Go type and returns its text.
func (p *parser) typ() string {
	switch {
	case p.accept("*"):
		return "*" + p.typ()
	case p.isOp("["):
		p.next()
		if p.accept("]") {
			return "[]" + p.typ()
		}
		n := p.next().s
		p.expect("]")
		return "[" + n + "]" + p.typ()
	case p.isId("map"):
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "map[" + k + "]" + p.typ()
	case p.isId("struct") || p.isId("interface"):
		s := p.next().s
		p.expect("{")
		p.expect("}")
		return s + "{}"
	}
	t := p.next()
	if t.k != "id" {
		panic("bad type at " + t.s)
	}
	s := t.s
	if p.isOp(".") && p.ts[p.i+1].k == "id" {
		p.next()
		s += "." + p.next().s
	}
	if p.isOp("[") && p.ts[p.i+1].k == "id" {
		p.next()
		a := p.typ()
		for p.accept(",") {
			a += "," + p.typ()
		}
		p.expect("]")
		s += "[" + a + "]"
	}
	return s
}

func (p *parser) iff() *Node {
	a := p.imp()
	for p.accept("<==>") {
		b := p.imp()
		a = &Node{k: "bin", s: "<==>", kids: []*Node{a, b}}
	}
	return a
}
func (p *parser) imp() *Node {
	a := p.or()
	if p.accept("==>") {
		var b *Node
		if p.isId("forall") || p.isId("exists") || p.isId("let") {
			b = p.expr()
		} else {
			b = p.imp()
		}
		return &Node{k: "bin", s: "==>", kids: []*Node{a, b}}
	}
	return a
}
func (p *parser) or() *Node {
	a := p.and()
	for p.accept("||") {
		b := p.and()
		a = &Node{k: "bin", s: "||", kids: []*Node{a, b}}
	}
	return a
}
func (p *parser) and() *Node {
	a := p.cmp()
	for p.accept("&&") {
		var b *Node
		if p.isId("forall") || p.isId("exists") || p.isId("let") {
			b = p.expr()
		} else {
			b = p.cmp()
		}
		a = &Node{k: "bin", s: "&&", kids: []*Node{a, b}}
	}
	return a
}
func (p *parser) cmp() *Node {
	if p.peek().k == "id" && (p.isId("forall") || p.isId("exists")) {
		return p.expr()
	}
	a := p.add()
	var res *Node
	for {
		op := ""
		if p.peek().k == "op" {
			switch p.peek().s {
			case "==", "!=", "<", "<=", ">", ">=":
				op = p.next().s
			}
		}
		if op == "" && p.isId("in") {
			p.next()
			b := p.add()
			return &Node{k: "in", kids: []*Node{a, b}}
		}
		if op == "" && p.isId("is") {
			p.next()
			t := p.typ()
			return &Node{k: "is", s: t, kids: []*Node{a}}
		}
		if op == "" {
			break
		}
		b := p.add()
		c := &Node{k: "bin", s: op, kids: []*Node{a, b}}
		if res == nil {
			res = c
		} else {
			res = &Node{k: "bin", s: "&&", kids: []*Node{res, c}}
		}
		a = b
	}
	if res != nil {
		return res
	}
	return a
}
func (p *parser) add() *Node {
	a := p.mul()
	for p.isOp("+") || p.isOp("-") {
		o := p.next().s
		b := p.mul()
		a = &Node{k: "bin", s: o, kids: []*Node{a, b}}
	}
	return a
}
func (p *parser) mul() *Node {
	a := p.un()
	for p.isOp("*") || p.isOp("/") || p.isOp("%") {
		o := p.next().s
		b := p.un()
		a = &Node{k: "bin", s: o, kids: []*Node{a, b}}
	}
	return a
}
func (p *parser) un() *Node {
	if p.isOp("!") || p.isOp("-") || p.isOp("*") || p.isOp("&") {
		o := p.next().s
		a := p.un()
		return &Node{k: "un", s: o, kids: []*Node{a}}
	}
	return p.post()
}
func (p *parser) post() *Node {
	a := p.prim()
	for {
		switch {
		case p.accept("."):
			if p.accept("(") {
				t := p.typ()
				p.expect(")")
				a = &Node{k: "as", s: t, kids: []*Node{a}}
				continue
			}
			f := p.next()
			a = &Node{k: "sel", s: f.s, kids: []*Node{a}}
		case p.accept("["):
			if p.accept(":") {
				hi := p.expr()
				p.expect("]")
				a = &Node{k: "slice", kids: []*Node{a, nil, hi}}
				continue
			}
			i := p.expr()
			if p.accept(":") {
				var hi *Node
				if !p.isOp("]") {
					hi = p.expr()
				}
				p.expect("]")
				a = &Node{k: "slice", kids: []*Node{a, i, hi}}
				continue
			}
			p.expect("]")
			a = &Node{k: "index", kids: []*Node{a, i}}
		case p.isOp("("):
			p.next()
			n := &Node{k: "call", kids: []*Node{a}}
			for !p.isOp(")") {
				n.kids = append(n.kids, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			a = n
		default:
			return a
		}
	}
}
func (p *parser) prim() *Node {
	t := p.peek()
	switch t.k {
	case "int":
		p.next()
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			panic(err)
		}
		return &Node{k: "int", n: n}
	case "str":
		p.next()
		return &Node{k: "str", s: t.s}
	case "id":
		if t.s == "old" {
			p.next()
			p.expect("(")
			e := p.expr()
			p.expect(")")
			return &Node{k: "old", kids: []*Node{e}}
		}
		if (t.s == "conv" || t.s == "asErr" || t.s == "hasErr") && p.ts[p.i+1].k == "op" && p.ts[p.i+1].s == "(" { // conv(T, e): interface boxing / conversion to type T
			p.next()
			p.expect("(")
			ty := p.typ()
			p.expect(",")
			e := p.expr()
			p.expect(")")
			return &Node{k: t.s, s: ty, kids: []*Node{e}}
		}
		if t.s == "zero" && p.ts[p.i+1].k == "op" && p.ts[p.i+1].s == "(" {
			p.next()
			p.expect("(")
			ty := p.typ()
			p.expect(")")
			return &Node{k: "zero", s: ty}
		}
		p.next()
		return &Node{k: "ident", s: t.s}
	case "op":
		if t.s == "(" {
			p.next()
			e := p.expr()
			p.expect(")")
			return e
		}
	}
	panic(fmt.Sprintf("unexpected %q at ...%s", t.s, p.rest()))
}

func parseExpr(src string) (n *Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in %q", r, src)
		}
	}()
	ts, err := lex(src)
	if err != nil {
		return nil, err
	}
	p := &parser{ts: ts, src: src}
	n = p.expr()
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("trailing input ...%s in %q", p.rest(), src)
	}
	n.src = src
	return n, nil
}

func parseBinders(s string) (bs []Binder, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in binders %q", r, s)
		}
	}()
	if strings.TrimSpace(s) == "" {
		return nil, nil
	}
	ts, err := lex(s)
	if err != nil {
		return nil, err
	}
	p := &parser{ts: ts, src: s}
	for {
		name := p.next().s
		b := Binder{name: name}
		if p.peek().s == "loop" {
			p.next()
			b.loop = true
		}
		if !p.isOp(",") && p.peek().k != "eof" {
			b.typ = p.typ()
		}
		bs = append(bs, b)
		if !p.accept(",") {
			break
		}
	}
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("bad binders %q", s)
	}
	for i := len(bs) - 2; i >= 0; i-- {
		if bs[i].typ == "" {
			bs[i].typ = bs[i+1].typ
		}
	}
	return bs, nil
}

// ---- files ----
//
// Lines starting with keywords begin an item; continuation lines are
// indented deeper than the keyword line. `//` starts a comment.

func (ss *SpecSet) LoadDir(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := ss.loadFile(filepath.Base(f), string(b)); err != nil {
			return fmt.Errorf("%s: %w", filepath.Base(f), err)
		}
	}
	return nil
}

var axiomFor = regexp.MustCompile(`^\s*for\s+(\w+)\s+in\s+(\d+)\.\.(\d+)\s*::`)

var clauseKW = map[string]bool{"requires": true, "ensures": true, "defines": true, "modifies": true, "hint": true, "pure": true, "trusted": true, "inline": true, "decreases": true, "nopanic": true}
var topKW = map[string]bool{"package": true, "func": true, "extern": true, "pred": true, "ghost": true, "gvar": true, "axiom": true, "jsoninv": true}

func (ss *SpecSet) loadFile(fn, src string) error {
	type item struct {
		kw, text string
		line     int
	}
	var items []item
	for ln, l := range strings.Split(src, "\n") {
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		kw := t
		if i := strings.IndexAny(t, " \t["); i >= 0 {
			kw = t[:i]
		}
		if clauseKW[kw] || topKW[kw] {
			if kw == "hint" && l[0] != ' ' && l[0] != '\t' {
				kw = "tophint"
			}
			items = append(items, item{kw, strings.TrimSpace(t[len(strings.TrimPrefix(kw, "top")):]), ln + 1})
		} else if len(items) > 0 {
			items[len(items)-1].text += " " + t
		} else {
			return fmt.Errorf("line %d: unexpected %q", ln+1, t)
		}
	}
	pkg := ""
	var cur *Contract
	for _, it := range items {
		fail := func(err error) error { return fmt.Errorf("line %d: %w", it.line, err) }
		switch it.kw {
		case "package":
			pkg = it.text
			cur = nil
		case "func", "extern":
			c, err := parseHeader(it.text)
			if err != nil {
				return fail(err)
			}
			c.Extern = it.kw == "extern"
			c.Pkg = pkg
			c.Pos = fmt.Sprintf("%s:%d", fn, it.line)
			if !c.Extern && !strings.Contains(c.Name, ".") {
				c.Name = pkg + "." + c.Name
			} else if !c.Extern && strings.HasPrefix(c.Name, "(") {
				c.Name = pkg + "." + c.Name
			}
			c.Header = it.text
			if old := ss.Contracts[c.Name]; old != nil {
				if old.Header != it.text || c.Extern {
					return fail(fmt.Errorf("duplicate contract %s with another header", c.Name))
				}
				cur = old
				continue
			}
			ss.Contracts[c.Name] = c
			ss.Order = append(ss.Order, c.Name)
			cur = c
		case "pred":
			i := strings.Index(it.text, "(")
			j := matchParen(it.text, i)
			k := strings.Index(it.text[j:], "=")
			if i < 0 || j < 0 || k < 0 {
				return fail(fmt.Errorf("bad pred"))
			}
			bs, err := parseBinders(it.text[i+1 : j])
			if err != nil {
				return fail(err)
			}
			e, err := parseExpr(it.text[j+k+1:])
			if err != nil {
				return fail(err)
			}
			cur = nil
			n := strings.TrimSpace(it.text[:i])
			if ss.Preds[n] != nil {
				return fail(fmt.Errorf("duplicate pred %s", n))
			}
			ss.Preds[n] = &Pred{Name: n, Params: bs, Body: e, Pkg: pkg}
		case "ghost", "gvar":
			i := strings.Index(it.text, "(")
			g := &GhostFn{Pkg: pkg}
			if it.kw == "gvar" {
				f := strings.Fields(it.text)
				if f[len(f)-1] == "volatile" {
					ss.Volatile = append(ss.Volatile, f[0])
					f = f[:len(f)-1]
				}
				g.Name, g.Res = f[0], strings.Join(f[1:], " ")
				ss.GVars[g.Name] = g
				continue
			}
			j := matchParen(it.text, i)
			g.Name = strings.TrimSpace(it.text[:i])
			for _, a := range splitTop(it.text[i+1:j], ',') {
				g.Args = append(g.Args, strings.TrimSpace(a))
			}
			if len(g.Args) == 1 && g.Args[0] == "" {
				g.Args = nil
			}
			g.Res = strings.TrimSpace(it.text[j+1:])
			ss.Ghosts[g.Name] = g
		case "axiom":
			text, tags := takeTags(it.text)
			a := &AxiomDecl{Pkg: pkg, Src: it.text, Tags: tags, Hi: -1}
			// axiom for c in LO..HI :: body: one instance for every c
			if m := axiomFor.FindStringSubmatch(text); m != nil {
				a.Var = m[1]
				a.Lo, _ = strconv.ParseInt(m[2], 10, 64)
				a.Hi, _ = strconv.ParseInt(m[3], 10, 64)
				text = text[len(m[0]):]
			}
			e, err := parseExpr(text)
			if err != nil {
				return fail(err)
			}
			a.e = e
			ss.Axioms = append(ss.Axioms, a)
		case "jsoninv":
			// jsoninv [tags] T(v) = expr
			text, tags := takeTags(it.text)
			i := strings.Index(text, "(")
			j := matchParen(text, i)
			k := strings.Index(text[j:], "=")
			e, err := parseExpr(text[j+k+1:])
			if err != nil {
				return fail(err)
			}
			n := strings.TrimSpace(text[:i])
			ss.JsonInvs[n] = &JsonInv{Type: n, Var: strings.TrimSpace(text[i+1 : j]), Body: e, Pkg: pkg, Tags: tags}
		default:
			if it.kw == "tophint" {
				cur = nil
				it.kw = "hint"
			}
			if cur == nil && it.kw != "hint" {
				return fail(fmt.Errorf("clause outside function"))
			}
			switch it.kw {
			case "pure":
				cur.Pure = true
				continue
			case "trusted":
				cur.Trusted = true
				continue
			case "inline":
				cur.Inline = true
				continue
			}
			cl := &Clause{kind: it.kw, pos: fmt.Sprintf("%s:%d", fn, it.line)}
			text, tags := takeTags(it.text)
			for _, t := range tags {
				if strings.HasPrefix(t, "T=") {
					cl.guard = t[2:]
				} else {
					cl.tags = append(cl.tags, t)
				}
			}
			cl.src = text
			switch it.kw {
			case "nopanic":
			case "modifies":
				for _, m := range splitTop(text, ',') {
					m = strings.TrimSpace(m)
					if m == "nothing" || m == "" {
						continue
					}
					e, err := parseExpr(m)
					if err != nil {
						return fail(err)
					}
					cl.mods = append(cl.mods, e)
				}
			case "hint":
				if strings.HasPrefix(text, "changed ") {
					cl.changed = true
					text = strings.TrimSpace(text[8:])
				}
				if !strings.HasPrefix(text, "(") {
					return fail(fmt.Errorf("hint needs (holes)"))
				}
				j := matchParen(text, 0)
				bs, err := parseBinders(text[1:j])
				if err != nil {
					return fail(err)
				}
				cl.holes = bs
				e, err := parseExpr(text[j+1:])
				if err != nil {
					return fail(err)
				}
				cl.e = e
			default:
				e, err := parseExpr(text)
				if err != nil {
					return fail(err)
				}
				cl.e = e
			}
			if cl.kind == "hint" && (cur == nil || cl.guard == "*") {
				if cl.guard == "*" {
					cl.guard = ""
				}
				cl.name = pkg
				ss.Hints = append(ss.Hints, cl)
				continue
			}
			cur.Clauses = append(cur.Clauses, cl)
		}
	}
	return nil
}

func takeTags(t string) (string, []string) {
	var tags []string
	for strings.HasPrefix(t, "[") {
		j := strings.Index(t, "]")
		for _, x := range strings.Split(t[1:j], ",") {
			tags = append(tags, strings.TrimSpace(x))
		}
		t = strings.TrimSpace(t[j+1:])
	}
	return t, tags
}

func matchParen(s string, i int) int {
	if i < 0 {
		return -1
	}
	d := 0
	for ; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case sep:
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

// parseHeader: Name(p, q) (r, s)   where Name may be (*T).M, pkg.F, pkg.(*T).M
func parseHeader(t string) (*Contract, error) {
	c := &Contract{}
	// find the parameter list: the last-but-one or last parenthesised group
	t = strings.TrimSpace(t)
	var groups [][2]int
	for i := 0; i < len(t); i++ {
		if t[i] == '(' {
			j := matchParen(t, i)
			if j < 0 {
				return nil, fmt.Errorf("unbalanced header %q", t)
			}
			groups = append(groups, [2]int{i, j})
			i = j
		}
	}
	// receiver group is followed by '.'
	var rest [][2]int
	for _, g := range groups {
		if g[1]+1 < len(t) && t[g[1]+1] == '.' {
			continue
		}
		rest = append(rest, g)
	}
	if len(rest) == 0 {
		return nil, fmt.Errorf("no parameter list in %q", t)
	}
	c.Name = strings.TrimSpace(t[:rest[0][0]])
	for _, a := range strings.Split(t[rest[0][0]+1:rest[0][1]], ",") {
		if a = strings.TrimSpace(a); a != "" {
			c.Params = append(c.Params, a)
		}
	}
	if len(rest) > 1 {
		for _, a := range strings.Split(t[rest[1][0]+1:rest[1][1]], ",") {
			if a = strings.TrimSpace(a); a != "" {
				c.Results = append(c.Results, a)
			}
		}
	}
	return c, nil
}
