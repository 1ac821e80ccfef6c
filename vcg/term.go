package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed SMT-LIB terms with light simplification.
type Term struct {
	op    string // "int","var" (bound or free const),"app:<name>" or builtin operator
	name  string // constant / function name
	n     int64  // integer literal
	args  []*Term
	sort  string
	id    int
	bound bool // op=="var" and bound by a quantifier
	// quantifiers: args[0] is the body, binders in vars
	vars []*Term
	pats []*Term
	size int
	hasB bool // contains a bound variable (conservative)
	fr   int  // largest fresh-constant index occurring in the term
}

type TermTab struct {
	m    map[string]*Term
	next int
	defs map[string]*FunDecl
}

type FunDecl struct {
	Name string
	Args []string
	Res  string
	// pos: constant known to be > 0 (non-nil interface tag)
	Pos bool
}

// One term table per verification session (goroutine-local).
type TB struct {
	tab    map[string]*Term
	nextID int
	Decls  map[string]*FunDecl
	Order  []string // declaration order of functions
	Sorts  map[string]bool
	SortL  []string
	fresh  int
	strs   map[string]*Term
	strL   []string
	newDec []string // declarations not yet sent
}

func NewTB() *TB {
	return &TB{tab: map[string]*Term{}, Decls: map[string]*FunDecl{}, Sorts: map[string]bool{}, strs: map[string]*Term{}}
}

func (tb *TB) mk(op, name string, n int64, sort string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(n, 10))
	sb.WriteByte('|')
	sb.WriteString(sort)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := tb.tab[k]; ok {
		return t
	}
	tb.nextID++
	t := &Term{op: op, name: name, n: n, sort: sort, args: args, id: tb.nextID, size: 1}
	for _, a := range args {
		t.size += a.size
		if a.hasB {
			t.hasB = true
		}
		if a.fr > t.fr {
			t.fr = a.fr
		}
	}
	if t.size > 1<<40 {
		t.size = 1 << 40
	}
	tb.tab[k] = t
	return t
}

func (tb *TB) Int(n int64) *Term { return tb.mk("int", "", n, "Int") }
func (tb *TB) True() *Term       { return tb.mk("true", "", 0, "Bool") }
func (tb *TB) False() *Term      { return tb.mk("false", "", 0, "Bool") }
func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True()
	}
	return tb.False()
}

func isTrue(t *Term) bool  { return t.op == "true" }
func isFalse(t *Term) bool { return t.op == "false" }

// DeclSort declares an uninterpreted sort.
func (tb *TB) DeclSort(s string) {
	if !tb.Sorts[s] {
		tb.Sorts[s] = true
		if s == "" {
			panic("empty sort")
		}
		tb.SortL = append(tb.SortL, s)
	}
}

// Fn declares (once) and applies an uninterpreted function.
func (tb *TB) Fn(name, res string, args ...*Term) *Term {
	if _, ok := tb.Decls[name]; !ok {
		var as []string
		for _, a := range args {
			as = append(as, a.sort)
		}
		tb.Decls[name] = &FunDecl{Name: name, Args: as, Res: res}
		tb.Order = append(tb.Order, name)
		tb.newDec = append(tb.newDec, name)
	} else {
		d := tb.Decls[name]
		if len(d.Args) != len(args) || d.Res != res {
			panic(fmt.Sprintf("redeclaration of %s with different arity/sort: %v %s vs %d %s", name, d.Args, d.Res, len(args), res))
		}
		for i := range args {
			if d.Args[i] != args[i].sort {
				panic(fmt.Sprintf("ill-sorted application of %s: arg %d is %s, want %s", name, i, args[i].sort, d.Args[i]))
			}
		}
	}
	return tb.mk("app", name, 0, res, args...)
}

func (tb *TB) Const(name, sort string) *Term { return tb.Fn(name, sort) }

func (tb *TB) Fresh(hint, sort string) *Term {
	tb.fresh++
	t := tb.Fn(sym(fmt.Sprintf("%s!%d", hint, tb.fresh)), sort)
	t.fr = tb.fresh
	return t
}

// FreshPos is a fresh Int constant that the simplifier knows to be > 0
func (tb *TB) FreshPos(hint string) *Term {
	t := tb.Fresh(hint, "Int")
	tb.Decls[t.name].Pos = true
	return t
}

func (tb *TB) BVar(hint, sort string) *Term {
	tb.fresh++
	t := tb.mk("bvar", sym(fmt.Sprintf("%s?%d", hint, tb.fresh)), 0, sort)
	t.hasB = true
	return t
}

func sym(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!?$-~@%&*+<>^/=", c)) {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	s = strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, s)
	return "|" + s + "|"
}

// Str literal
func (tb *TB) Str(s string) *Term {
	if t, ok := tb.strs[s]; ok {
		return t
	}
	t := tb.mk("strlit", s, 0, "Str")
	tb.strs[s] = t
	tb.strL = append(tb.strL, s)
	return t
}

// ---------- linear integer arithmetic normal form ----------

type lin struct {
	c int64
	m map[*Term]int64
}

func (tb *TB) toLin(t *Term) lin {
	switch t.op {
	case "int":
		return lin{c: t.n}
	case "+":
		l := lin{m: map[*Term]int64{}}
		for _, a := range t.args {
			if a.op == "int" {
				l.c += a.n
			} else if a.op == "*" && a.args[0].op == "int" {
				l.m[a.args[1]] += a.args[0].n
			} else {
				l.m[a]++
			}
		}
		return l
	case "*":
		if t.args[0].op == "int" {
			return lin{m: map[*Term]int64{t.args[1]: t.args[0].n}}
		}
	}
	return lin{m: map[*Term]int64{t: 1}}
}

func (tb *TB) fromLin(l lin) *Term {
	var ks []*Term
	for k, c := range l.m {
		if c != 0 {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	for _, k := range ks {
		c := l.m[k]
		if c == 1 {
			args = append(args, k)
		} else {
			args = append(args, tb.mk("*", "", 0, "Int", tb.Int(c), k))
		}
	}
	if l.c != 0 || len(args) == 0 {
		if len(args) == 0 {
			return tb.Int(l.c)
		}
		args = append(args, tb.Int(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return tb.mk("+", "", 0, "Int", args...)
}

func (tb *TB) Add(a, b *Term) *Term {
	la, lb := tb.toLin(a), tb.toLin(b)
	r := lin{c: la.c + lb.c, m: map[*Term]int64{}}
	for k, v := range la.m {
		r.m[k] += v
	}
	for k, v := range lb.m {
		r.m[k] += v
	}
	return tb.fromLin(r)
}
func (tb *TB) Neg(a *Term) *Term {
	l := tb.toLin(a)
	r := lin{c: -l.c, m: map[*Term]int64{}}
	for k, v := range l.m {
		r.m[k] = -v
	}
	return tb.fromLin(r)
}
func (tb *TB) Sub(a, b *Term) *Term { return tb.Add(a, tb.Neg(b)) }
func (tb *TB) Mul(a, b *Term) *Term {
	if a.op == "int" {
		l := tb.toLin(b)
		r := lin{c: l.c * a.n, m: map[*Term]int64{}}
		for k, v := range l.m {
			r.m[k] = v * a.n
		}
		return tb.fromLin(r)
	}
	if b.op == "int" {
		return tb.Mul(b, a)
	}
	return tb.mk("*", "", 0, "Int", a, b)
}

// diffConst: if a-b is a known integer constant, return it
func (tb *TB) diffConst(a, b *Term) (int64, bool) {
	d := tb.Sub(a, b)
	if d.op == "int" {
		return d.n, true
	}
	return 0, false
}

func (tb *TB) Le(a, b *Term) *Term {
	if c, ok := tb.diffConst(a, b); ok {
		return tb.Bool(c <= 0)
	}
	return tb.mk("<=", "", 0, "Bool", a, b)
}
func (tb *TB) Lt(a, b *Term) *Term { return tb.Le(tb.Add(a, tb.Int(1)), b) }
func (tb *TB) Ge(a, b *Term) *Term { return tb.Le(b, a) }
func (tb *TB) Gt(a, b *Term) *Term { return tb.Lt(b, a) }

// ---------- booleans ----------

func (tb *TB) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return tb.False()
	case "false":
		return tb.True()
	case "not":
		return a.args[0]
	case "<=":
		// not (x <= y)  ==  y+1 <= x
		return tb.Le(tb.Add(a.args[1], tb.Int(1)), a.args[0])
	}
	return tb.mk("not", "", 0, "Bool", a)
}

func (tb *TB) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if isTrue(a) {
			return true
		}
		if isFalse(a) {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if !seen[a] {
			if seen[tb.Not(a)] {
				return false
			}
			seen[a] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tb.False()
		}
	}
	if len(out) == 0 {
		return tb.True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return tb.mk("and", "", 0, "Bool", out...)
}

func (tb *TB) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if isFalse(a) {
			return true
		}
		if isTrue(a) {
			return false
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if !seen[a] {
			if seen[tb.Not(a)] {
				return false
			}
			seen[a] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tb.True()
		}
	}
	if len(out) == 0 {
		return tb.False()
	}
	if len(out) == 1 {
		return out[0]
	}
	return tb.mk("or", "", 0, "Bool", out...)
}
func (tb *TB) Imp(a, b *Term) *Term {
	if isTrue(a) {
		return b
	}
	if isFalse(a) || isTrue(b) {
		return tb.True()
	}
	if isFalse(b) {
		return tb.Not(a)
	}
	if a == b {
		return tb.True()
	}
	return tb.mk("=>", "", 0, "Bool", a, b)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if isTrue(c) || a == b {
		return a
	}
	if isFalse(c) {
		return b
	}
	if a.sort == "Bool" {
		if isTrue(a) && isFalse(b) {
			return c
		}
		if isFalse(a) && isTrue(b) {
			return tb.Not(c)
		}
		if isTrue(a) {
			return tb.Or(c, b)
		}
		if isFalse(a) {
			return tb.And(tb.Not(c), b)
		}
		if isTrue(b) {
			return tb.Or(tb.Not(c), a)
		}
		if isFalse(b) {
			return tb.And(c, a)
		}
	}
	if a.sort != b.sort {
		panic("ite sorts " + a.sort + " " + b.sort)
	}
	return tb.mk("ite", "", 0, a.sort, c, a, b)
}

func isCtor(t *Term) bool {
	switch t.op {
	case "int", "strlit", "true", "false":
		return true
	case "app":
		switch t.name {
		case "null", "obj", "sub", "elt", "mksl", "mkif":
			return true
		}
	}
	return false
}

// distinct: provably different terms
func (tb *TB) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == "int" && b.op == "int" {
		return a.n != b.n
	}
	if a.op == "strlit" && b.op == "strlit" {
		return true
	}
	if a.op == "true" && b.op == "false" || a.op == "false" && b.op == "true" {
		return true
	}
	if a.sort == "Int" {
		if c, ok := tb.diffConst(a, b); ok && c != 0 {
			return true
		}
		// positive constants vs. <=0 literals
		if b.op == "int" && b.n <= 0 && tb.isPos(a) {
			return true
		}
		if a.op == "int" && a.n <= 0 && tb.isPos(b) {
			return true
		}
	}
	if a.op == "app" && b.op == "app" && isCtor(a) && isCtor(b) {
		if a.name != b.name {
			return true
		}
		for i := range a.args {
			if tb.distinct(a.args[i], b.args[i]) {
				return true
			}
		}
	}
	return false
}

func (tb *TB) isPos(t *Term) bool {
	if t.op == "int" {
		return t.n > 0
	}
	if t.op == "app" && len(t.args) == 0 {
		if d := tb.Decls[t.name]; d != nil && d.Pos {
			return true
		}
	}
	return false
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.True()
	}
	if a.sort != b.sort {
		panic(specErr(fmt.Sprintf("eq of different sorts %s %s: %s / %s", a.sort, b.sort, a, b)))
	}
	if tb.distinct(a, b) {
		return tb.False()
	}
	if a.sort == "Bool" {
		if isTrue(a) {
			return b
		}
		if isTrue(b) {
			return a
		}
		if isFalse(a) {
			return tb.Not(b)
		}
		if isFalse(b) {
			return tb.Not(a)
		}
	}
	if a.op == "app" && b.op == "app" && a.name == b.name && isCtor(a) && len(a.args) > 0 {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, tb.Eq(a.args[i], b.args[i]))
		}
		return tb.And(cs...)
	}
	// push equality through ite with constructor branches
	if a.op == "ite" && isCtor(b) && (tb.decidable(a.args[1], b) || tb.decidable(a.args[2], b)) {
		return tb.Ite(a.args[0], tb.Eq(a.args[1], b), tb.Eq(a.args[2], b))
	}
	if b.op == "ite" && isCtor(a) && (tb.decidable(b.args[1], a) || tb.decidable(b.args[2], a)) {
		return tb.Ite(b.args[0], tb.Eq(b.args[1], a), tb.Eq(b.args[2], a))
	}
	if a.sort == "Int" {
		// normalise: move everything to keep canonical
		d := tb.Sub(a, b)
		if d.op == "int" {
			return tb.Bool(d.n == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk("=", "", 0, "Bool", a, b)
}

func (tb *TB) decidable(a, b *Term) bool {
	if a == b || tb.distinct(a, b) {
		return true
	}
	if a.op == "ite" {
		return tb.decidable(a.args[1], b) || tb.decidable(a.args[2], b)
	}
	return isCtor(a) && isCtor(b)
}

// ---------- arrays ----------

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

func splitArr(s string) (k, v string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort " + s)
	}
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range in {
		if c == '(' {
			d++
		}
		if c == ')' {
			d--
		}
		if c == ' ' && d == 0 {
			return in[:i], in[i+1:]
		}
	}
	panic("bad array sort " + s)
}

func (tb *TB) Select(a, k *Term) *Term {
	ks, vs := splitArr(a.sort)
	if ks != k.sort {
		panic(specErr("select sort mismatch " + a.sort + " at " + k.sort))
	}
	for a.op == "store" {
		if a.args[1] == k {
			return a.args[2]
		}
		if tb.distinct(a.args[1], k) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "ite" && a.size < 2000 {
		return tb.Ite(a.args[0], tb.Select(a.args[1], k), tb.Select(a.args[2], k))
	}
	return tb.mk("select", "", 0, vs, a, k)
}

func (tb *TB) Store(a, k, v *Term) *Term {
	ks, vs := splitArr(a.sort)
	if ks != k.sort || vs != v.sort {
		panic(specErr("store sort mismatch " + a.sort + " [" + k.sort + "]:=" + v.sort))
	}
	if a.op == "store" && a.args[1] == k {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == k {
		return a
	}
	return tb.mk("store", "", 0, a.sort, a, k, v)
}

func (tb *TB) ConstArr(ks string, v *Term) *Term {
	return tb.mk("constarr", "", 0, arrSort(ks, v.sort), v)
}

// ---------- quantifiers ----------

func (tb *TB) Quant(kind string, vars []*Term, body *Term, pats ...*Term) *Term {
	if isTrue(body) || isFalse(body) {
		return body
	}
	// drop unused variables
	used := map[*Term]bool{}
	collectB(body, used, map[*Term]bool{})
	var vs []*Term
	for _, v := range vars {
		if used[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	var ids []string
	for _, v := range vs {
		ids = append(ids, v.name)
	}
	var ps []string
	var good []*Term
	for _, p := range pats {
		if p != nil && goodPat(p, vs) {
			good = append(good, p)
			ps = append(ps, strconv.Itoa(p.id))
		}
	}
	if len(good) == 0 && kind == "forall" && len(vs) == 1 {
		for _, p := range guessPats(body, vs[0]) {
			good = append(good, p)
			ps = append(ps, strconv.Itoa(p.id))
		}
	}
	pats = good
	key := kind + "Q" + strings.Join(ids, " ") + "|" + strings.Join(ps, ",")
	t := tb.mk(kind, key, 0, "Bool", body)
	t.vars = vs
	t.pats = pats
	// hasB: any free bound var remains
	delete(used, nil)
	for _, v := range vs {
		delete(used, v)
	}
	t.hasB = len(used) > 0
	return t
}
func (tb *TB) Forall(vars []*Term, body *Term, pats ...*Term) *Term {
	return tb.Quant("forall", vars, body, pats...)
}
func (tb *TB) Exists(vars []*Term, body *Term, pats ...*Term) *Term {
	return tb.Quant("exists", vars, body, pats...)
}

// collectB collects free bound variables
func collectB(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if !t.hasB || seen[t] {
		return
	}
	seen[t] = true
	if t.op == "bvar" {
		out[t] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		in := map[*Term]bool{}
		collectB(t.args[0], in, map[*Term]bool{})
		for _, v := range t.vars {
			delete(in, v)
		}
		for v := range in {
			out[v] = true
		}
		return
	}
	for _, a := range t.args {
		collectB(a, out, seen)
	}
}

// ---------- substitution ----------

func (tb *TB) Subst(t *Term, m map[*Term]*Term) *Term {
	return tb.subst(t, m, map[*Term]*Term{})
}

func (tb *TB) subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		na[i] = tb.subst(a, m, memo)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = tb.rebuild(t, na, m, memo)
	}
	memo[t] = r
	return r
}

func (tb *TB) rebuild(t *Term, a []*Term, m, memo map[*Term]*Term) *Term {
	switch t.op {
	case "+":
		r := tb.Int(0)
		for _, x := range a {
			r = tb.Add(r, x)
		}
		return r
	case "*":
		return tb.Mul(a[0], a[1])
	case "<=":
		return tb.Le(a[0], a[1])
	case "not":
		return tb.Not(a[0])
	case "and":
		return tb.And(a...)
	case "or":
		return tb.Or(a...)
	case "=>":
		return tb.Imp(a[0], a[1])
	case "ite":
		return tb.Ite(a[0], a[1], a[2])
	case "=":
		return tb.Eq(a[0], a[1])
	case "select":
		return tb.Select(a[0], a[1])
	case "store":
		return tb.Store(a[0], a[1], a[2])
	case "constarr":
		k, _ := splitArr(t.sort)
		return tb.ConstArr(k, a[0])
	case "forall", "exists":
		var ps []*Term
		for _, p := range t.pats {
			ps = append(ps, tb.subst(p, m, memo))
		}
		return tb.Quant(t.op, t.vars, a[0], ps...)
	case "app":
		return tb.App(t.name, t.sort, a...)
	}
	return tb.mk(t.op, t.name, t.n, t.sort, a...)
}

// App applies a known function with constructor/selector simplification
func (tb *TB) App(name, res string, a ...*Term) *Term {
	if len(a) == 1 {
		x := a[0]
		if i, ok := selIdx[name]; ok {
			if x.op == "app" && x.name == i.ctor {
				return x.args[i.i]
			}
			if x.op == "ite" && (ctorTop(x.args[1]) || ctorTop(x.args[2])) {
				return tb.Ite(x.args[0], tb.App(name, res, x.args[1]), tb.App(name, res, x.args[2]))
			}
		}
		if strings.HasPrefix(name, "unbox") || strings.HasPrefix(name, "|unbox") {
			if x.op == "app" {
				bn, bi := unboxKey(name)
				if x.name == bn && bi < len(x.args) {
					return x.args[bi]
				}
			}
		}
	}
	switch name {
	case "rid":
		switch {
		case a[0].op == "app" && a[0].name == "null":
			return tb.Int(-1)
		case a[0].op == "app" && a[0].name == "obj":
			return a[0].args[0]
		case a[0].op == "app" && (a[0].name == "sub" || a[0].name == "elt"):
			return tb.App("rid", "Int", a[0].args[0])
		}
	case "cat":
		return tb.Cat(a[0], a[1])
	}
	if _, ok := tb.Decls[name]; ok {
		return tb.Fn(name, res, a...)
	}
	if builtinFn[name] {
		return tb.mk("app", name, 0, res, a...)
	}
	return tb.Fn(name, res, a...)
}

func ctorTop(t *Term) bool {
	if t.op == "ite" {
		return ctorTop(t.args[1]) || ctorTop(t.args[2])
	}
	return t.op == "app" && (t.name == "mksl" || t.name == "mkif" || t.name == "obj" || t.name == "sub" || t.name == "elt")
}

type selInfo struct {
	ctor string
	i    int
}

var selIdx = map[string]selInfo{
	"sarr": {"mksl", 0}, "soff": {"mksl", 1}, "slen": {"mksl", 2}, "scap": {"mksl", 3},
	"itid": {"mkif", 0}, "ibox": {"mkif", 1},
	"oid": {"obj", 0}, "sp": {"sub", 0}, "sf": {"sub", 1}, "ep": {"elt", 0}, "ei": {"elt", 1},
}

var builtinFn = map[string]bool{"null": true, "obj": true, "sub": true, "elt": true, "mksl": true, "mkif": true,
	"sarr": true, "soff": true, "slen": true, "scap": true, "itid": true, "ibox": true, "oid": true, "sp": true, "sf": true, "ep": true, "ei": true,
	"rid": true, "cat": true, "strlen": true, "nilbox": true, "is-elt": true, "is-sub": true, "is-obj": true}

func unboxKey(name string) (string, int) {
	// unbox.<T>.#<i>
	n := strings.Trim(name, "|")
	j := strings.LastIndex(n, ".#")
	if j < 0 {
		return "", 1 << 30
	}
	i, _ := strconv.Atoi(n[j+2:])
	return sym("box" + n[len("unbox"):j]), i
}

func (tb *TB) Null() *Term                 { return tb.App("null", "Ref") }
func (tb *TB) Obj(n *Term) *Term           { return tb.App("obj", "Ref", n) }
func (tb *TB) SubR(p *Term, f int64) *Term { return tb.App("sub", "Ref", p, tb.Int(f)) }
func (tb *TB) Elt(p, i *Term) *Term        { return tb.App("elt", "Ref", p, i) }
func (tb *TB) MkSl(a, o, l, c *Term) *Term {
	return tb.App("mksl", "Slice", a, o, l, c)
}
func (tb *TB) SArr(s *Term) *Term { return tb.App("sarr", "Ref", s) }
func (tb *TB) SOff(s *Term) *Term { return tb.App("soff", "Int", s) }
func (tb *TB) SLen(s *Term) *Term { return tb.App("slen", "Int", s) }
func (tb *TB) SCap(s *Term) *Term { return tb.App("scap", "Int", s) }
func (tb *TB) Rid(r *Term) *Term  { return tb.App("rid", "Int", r) }
func (tb *TB) NilSl() *Term {
	z := tb.Int(0)
	return tb.MkSl(tb.Null(), z, z, z)
}
func (tb *TB) NilIf() *Term {
	return tb.App("mkif", "Iface", tb.Int(0), tb.App("nilbox", "Box"))
}

// Cat is string concatenation in right-associated normal form with literal merging.
func (tb *TB) Cat(a, b *Term) *Term {
	if a.op == "strlit" && a.name == "" {
		return b
	}
	if b.op == "strlit" && b.name == "" {
		return a
	}
	if a.op == "strlit" && b.op == "strlit" {
		return tb.Str(a.name + b.name)
	}
	if a.op == "app" && a.name == "cat" {
		return tb.Cat(a.args[0], tb.Cat(a.args[1], b))
	}
	if a.op == "strlit" && b.op == "app" && b.name == "cat" && b.args[0].op == "strlit" {
		return tb.Cat(tb.Str(a.name+b.args[0].name), b.args[1])
	}
	return tb.mk("app", "cat", 0, "Str", a, b)
}

// catIte concatenates, moving conditionals outside.
func (tb *TB) catIte(a, b *Term) *Term {
	if a.op == "ite" {
		return tb.Ite(a.args[0], tb.catIte(a.args[1], b), tb.catIte(a.args[2], b))
	}
	if b.op == "ite" {
		return tb.Ite(b.args[0], tb.catIte(a, b.args[1]), tb.catIte(a, b.args[2]))
	}
	return tb.Cat(a, b)
}

// ---------- printing ----------

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, nil, 0)
	s := sb.String()
	if len(s) > 4000 {
		return s[:4000] + "..."
	}
	return s
}

func (t *Term) write(sb *strings.Builder, names map[*Term]string, depth int) {
	if names != nil {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	t.writeRaw(sb, names, depth)
}

func (t *Term) writeRaw(sb *strings.Builder, names map[*Term]string, depth int) {
	if names == nil && sb.Len() > 6000 {
		sb.WriteString("…")
		return
	}
	switch t.op {
	case "int":
		if t.n < 0 {
			if t.n == -9223372036854775808 {
				sb.WriteString("(- 9223372036854775808)")
			} else {
				fmt.Fprintf(sb, "(- %d)", -t.n)
			}
		} else {
			fmt.Fprintf(sb, "%d", t.n)
		}
	case "true", "false":
		sb.WriteString(t.op)
	case "strlit":
		if names == nil {
			fmt.Fprintf(sb, "%q", t.name)
		} else {
			sb.WriteString(strSym(t.name))
		}
	case "bvar":
		sb.WriteString(t.name)
	case "app":
		if len(t.args) == 0 {
			sb.WriteString(t.name)
			return
		}
		switch t.name {
		case "is-elt", "is-sub", "is-obj":
			sb.WriteString("((_ is " + t.name[3:] + ")")
		default:
			sb.WriteString("(" + t.name)
		}
		for _, a := range t.args {
			sb.WriteByte(' ')
			a.write(sb, names, depth+1)
		}
		sb.WriteByte(')')
	case "constarr":
		fmt.Fprintf(sb, "((as const %s) ", t.sort)
		t.args[0].write(sb, names, depth+1)
		sb.WriteByte(')')
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.vars {
			fmt.Fprintf(sb, "(%s %s)", v.name, v.sort)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		if names != nil {
			t.args[0].writeShared(sb, names)
		} else {
			t.args[0].write(sb, names, depth+1)
		}
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				if p.op == "multipat" {
					for i, a := range p.args {
						if i > 0 {
							sb.WriteByte(' ')
						}
						a.write(sb, names, depth+1)
					}
				} else {
					p.write(sb, names, depth+1)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteByte(')')
	default:
		sb.WriteString("(" + t.op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			a.write(sb, names, depth+1)
		}
		sb.WriteByte(')')
	}
}

// writeShared prints a term using let-bindings for shared (non-leaf) subterms;
// names already bound outside are reused.
func (t *Term) writeShared(sb *strings.Builder, outer map[*Term]string) {
	cnt := map[*Term]int{}
	var order []*Term
	var visit func(x *Term)
	visit = func(x *Term) {
		if _, ok := outer[x]; ok {
			return
		}
		cnt[x]++
		if cnt[x] > 1 {
			return
		}
		if x.op != "forall" && x.op != "exists" {
			for _, a := range x.args {
				visit(a)
			}
		}
		order = append(order, x)
	}
	visit(t)
	names := map[*Term]string{}
	for k, v := range outer {
		names[k] = v
	}
	n := 0
	for _, x := range order {
		if cnt[x] > 1 && len(x.args) > 0 && x != t && x.size > 2 {
			nm := fmt.Sprintf("$l%d", x.id)
			sb.WriteString("(let ((" + nm + " ")
			x.writeRaw(sb, names, 1)
			sb.WriteString(")) ")
			names[x] = nm
			n++
		}
	}
	t.write(sb, names, 1)
	for ; n > 0; n-- {
		sb.WriteByte(')')
	}
}

func (t *Term) SMT() string {
	var sb strings.Builder
	t.writeShared(&sb, map[*Term]string{})
	return sb.String()
}

func strSym(s string) string {
	return sym("s:" + strings.Map(func(r rune) rune {
		if r == '\n' || r == '"' || r == '|' || r == '\\' || r < 32 || r > 126 {
			return '~'
		}
		return r
	}, s) + "#" + strconv.Itoa(len(s)) + "." + strconv.FormatUint(uint64(fnv(s)), 36))
}

func fnv(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	return h
}

// guessPats: triggers (select A v) with A a closed array, constants first
func guessPats(body, v *Term) []*Term {
	var consts, others []*Term
	seen := map[*Term]bool{}
	var hasStore func(t *Term, d int) bool
	hasStore = func(t *Term, d int) bool {
		if t.op == "store" || t.op == "ite" || d > 12 {
			return true
		}
		for _, a := range t.args {
			if hasStore(a, d+1) {
				return true
			}
		}
		return false
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		if !t.hasB || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1] == v && !t.args[0].hasB {
			if len(t.args[0].args) == 0 {
				consts = append(consts, t)
			} else if !hasStore(t.args[0], 0) {
				others = append(others, t)
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(body)
	if len(consts) > 0 {
		return consts
	}
	if len(others) > 0 {
		return others[:1]
	}
	return nil
}

// goodPat: usable as a trigger for exactly the variables vs
func goodPat(p *Term, vs []*Term) bool {
	ok := true
	seen := map[*Term]bool{}
	used := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "ite", "and", "or", "not", "=", "<=", "=>", "forall", "exists":
			ok = false
			return
		case "bvar":
			used[t] = true
			return
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	if p.op == "multipat" {
		for _, a := range p.args {
			if len(a.args) == 0 || !a.hasB {
				return false
			}
			visit(a)
		}
	} else {
		if len(p.args) == 0 {
			return false
		}
		visit(p)
	}
	for _, v := range vs {
		if !used[v] {
			return false
		}
	}
	return ok
}

func (tb *TB) Iff(a, b *Term) *Term { return tb.Eq(a, b) }
