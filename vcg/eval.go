package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// SV is a specification value.
type SV struct {
	v   Val
	t   types.Type // nil for ghost-sorted values
	gs  string     // ghost sort when t == nil
	ref *Term      // struct located in memory at ref (v == nil until forced)
	st  *State     // state in which a located struct is to be read
}

type Ctx struct {
	x     *Exec
	st    *State
	old   *State
	vars  map[string]SV
	pkg   *types.Package
	loop  *LoopAct
	fr    *Frame
	depth int
	eVars map[string]SV
}

func (c *Ctx) with(name string, v SV) *Ctx {
	n := *c
	n.vars = make(map[string]SV, len(c.vars)+1)
	for k, w := range c.vars {
		n.vars[k] = w
	}
	n.vars[name] = v
	return &n
}

type specErr string

func sfail(f string, a ...any) { panic(specErr(fmt.Sprintf(f, a...))) }

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]

func (x *Exec) resolveType(pkg *types.Package, s string) types.Type {
	key := pkg.Path() + "|" + s
	if t, ok := x.typeCache[key]; ok {
		return t
	}
	if t, ok := x.tsub[s]; ok {
		return t
	}
	src := s
	// substitute type parameter names
	for k, t := range x.tsub {
		src = replaceIdent(src, k, types.TypeString(t, func(p *types.Package) string {
			if p == pkg {
				return ""
			}
			return p.Name()
		}))
	}
	// build a scratch scope in which every short package name is visible
	tp := types.NewPackage("spec/"+pkg.Path(), pkg.Name())
	for n, p := range x.w.byName {
		tp.Scope().Insert(types.NewPkgName(token.NoPos, tp, n, p))
	}
	for _, n := range pkg.Scope().Names() {
		if o, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok {
			if tp.Scope().Lookup(n) == nil {
				tp.Scope().Insert(types.NewTypeName(token.NoPos, tp, n, o.Type()))
			}
		}
	}
	fs := token.NewFileSet()
	tv, err := types.Eval(fs, tp, token.NoPos, src)
	if err != nil {
		sfail("cannot resolve type %q: %v", s, err)
	}
	if !tv.IsType() {
		sfail("%q is not a type", s)
	}
	if len(x.tsub) == 0 {
		x.typeCache[key] = tv.Type
	}
	return tv.Type
}

func replaceIdent(s, id, by string) string {
	var sb strings.Builder
	i := 0
	isId := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i < len(s) {
		if isId(s[i]) {
			j := i
			for j < len(s) && isId(s[j]) {
				j++
			}
			if s[i:j] == id && (i == 0 || s[i-1] != '.') {
				sb.WriteString(by)
			} else {
				sb.WriteString(s[i:j])
			}
			i = j
		} else {
			sb.WriteByte(s[i])
			i++
		}
	}
	return sb.String()
}

// ghost sorts in specs: Go types map to their leaf sort, "set[T]" to arrays,
// other identifiers to uninterpreted sorts.
func (x *Exec) specSort(pkg *types.Package, s string) (string, types.Type) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "set[") {
		k, _ := x.specSort(pkg, s[4:len(s)-1])
		return arrSort(k, "Bool"), nil
	}
	if strings.HasPrefix(s, "fun[") { // fun[K,V]
		parts := splitTop(s[4:len(s)-1], ',')
		k, _ := x.specSort(pkg, parts[0])
		v, _ := x.specSort(pkg, parts[1])
		return arrSort(k, v), nil
	}
	switch s {
	case "int":
		return "Int", tInt
	case "bool":
		return "Bool", tBool
	case "string":
		return "Str", tString
	case "any", "error":
		t := types.Universe.Lookup(s).Type()
		return "Iface", t
	case "Ref", "Slice", "Iface", "Box":
		return s, nil
	}
	if strings.HasPrefix(s, "$") { // uninterpreted ghost sort
		so := "G_" + s[1:]
		x.declSort(so)
		return so, nil
	}
	t := x.resolveType(pkg, s)
	so := x.w.leafSort(t)
	if so == "" {
		sfail("ghost functions take leaf types only: %s", s)
	}
	x.declSort(so)
	return so, t
}

func (c *Ctx) force(v SV) SV {
	if v.v == nil && v.ref != nil {
		v.v = c.x.loadAt(v.st, v.ref, v.t)
	}
	return v
}

func (c *Ctx) term(n *Node) *Term {
	v := c.force(c.eval(n))
	t, ok := v.v.(*Term)
	if !ok {
		if a, ok := v.v.(*Addr); ok {
			_ = a
		}
		sfail("expected a leaf value for %s (have %T)", nodeStr(n), v.v)
	}
	return t
}

func (c *Ctx) boolT(n *Node) *Term {
	t := c.term(n)
	if t.sort != "Bool" {
		sfail("expected bool: %s is %s", nodeStr(n), t.sort)
	}
	return t
}

func isPtrStruct(t types.Type) (types.Type, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Struct); ok {
			return p.Elem(), true
		}
	}
	return nil, false
}

func (c *Ctx) tsv(t *Term, ty types.Type) SV { return SV{v: t, t: ty} }

func (c *Ctx) lookupField(t types.Type, name string) (int, *types.Var) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i, st.Field(i)
		}
	}
	return -1, nil
}

func (c *Ctx) field(v SV, name string) SV {
	x := c.x
	if v.t == nil {
		sfail("field %s of ghost value", name)
	}
	t := v.t
	if et, ok := isPtrStruct(t); ok {
		r := c.force(v).v.(*Term)
		v = SV{t: et, ref: r, st: c.st}
		t = et
	}
	i, f := c.lookupField(t, name)
	if f == nil {
		sfail("no field %s in %s", name, tstr(t))
	}
	if v.v != nil {
		cv, ok := v.v.(*Comp)
		if !ok {
			sfail("field %s of opaque %s", name, tstr(t))
		}
		return SV{v: cv.f[i], t: f.Type()}
	}
	if s := x.w.leafSort(f.Type()); s != "" {
		cell := x.rd(v.st, x.fieldComp(t, i), v.ref)
		if !cell.hasB {
			x.valFacts(v.st, cell, f.Type())
		}
		return SV{v: cell, t: f.Type()}
	}
	return SV{t: f.Type(), ref: x.tb.SubR(v.ref, int64(i)), st: v.st}
}

func (c *Ctx) elem(st *State, s *Term, i *Term, et types.Type) SV {
	x := c.x
	r := x.tb.Elt(x.tb.SArr(s), x.tb.Add(x.tb.SOff(s), i))
	if x.w.leafSort(et) != "" {
		if isByte(et) {
			return SV{v: x.byteAt(st, s, i), t: et}
		}
		return SV{v: x.rd(st, x.memComp(et), r), t: et}
	}
	return SV{t: et, ref: r, st: st}
}

func (x *Exec) byteAt(st *State, s, i *Term) *Term {
	return x.bat(x.rd(st, x.bcComp(), x.tb.SArr(s)), x.tb.Add(x.tb.SOff(s), i))
}

// nonneg: t is a sum of constants and lengths that is never negative
func (x *Exec) nonneg(t *Term) bool {
	l := x.tb.toLin(t)
	if l.c < 0 {
		return false
	}
	for k, c := range l.m {
		if c < 0 || c > 0 && !(k.op == "app" && (k.name == "strlen" || k.name == "slen" || k.name == "scap")) {
			return false
		}
	}
	return true
}

// chr: the string of one byte
func (x *Exec) chr(v *Term) *Term {
	if v.op == "int" && v.n >= 0 && v.n < 256 {
		return x.tb.Str(string([]byte{byte(v.n)}))
	}
	return x.tb.Fn("chr", "Str", v)
}

// bat: byte i of s
func (x *Exec) bat(s, i *Term) *Term {
	tb := x.tb
	switch {
	case s.op == "strlit" && i.op == "int" && i.n >= 0 && int(i.n) < len(s.name):
		return tb.Int(int64(s.name[i.n]))
	case s.op == "app" && s.name == "chr" && i.op == "int" && i.n == 0:
		return s.args[0]
	case s.op == "app" && s.name == "cat":
		pl := x.strlen(s.args[0])
		if x.nonneg(tb.Sub(i, pl)) {
			return x.bat(s.args[1], tb.Sub(i, pl))
		}
		if x.nonneg(i) && x.nonneg(tb.Sub(pl, tb.Add(i, tb.Int(1)))) {
			return x.bat(s.args[0], i)
		}
	case s.op == "app" && s.name == "bsub":
		if x.nonneg(i) && x.nonneg(tb.Sub(s.args[2], tb.Add(i, tb.Int(1)))) {
			return x.bat(s.args[0], tb.Add(s.args[1], i))
		}
	}
	if !x.batAx {
		x.batAx = true
		b, o, l, j := tb.BVar("s", "Str"), tb.BVar("o", "Int"), tb.BVar("l", "Int"), tb.BVar("i", "Int")
		t := tb.Fn("bat", "Int", tb.Fn("bsub", "Str", b, o, l), j)
		x.sol.Axiom(tb.Forall([]*Term{b, o, l, j}, tb.Imp(tb.And(tb.Le(tb.Int(0), j), tb.Lt(j, l)), tb.Eq(t, tb.Fn("bat", "Int", b, tb.Add(o, j)))), t))
	}
	return tb.Fn("bat", "Int", s, i)
}

// bset: s with byte i replaced
func (x *Exec) bset(s, i, v *Term) *Term {
	tb := x.tb
	rest := tb.Sub(tb.Sub(x.strlen(s), i), tb.Int(1))
	return tb.Cat(x.bsub(s, tb.Int(0), i), tb.Cat(x.chr(v), x.bsub(s, tb.Add(i, tb.Int(1)), rest)))
}

// content of a byte slice as a string
func (x *Exec) content(st *State, s *Term) *Term {
	if s.op == "ite" {
		return x.tb.Ite(s.args[0], x.content(st, s.args[1]), x.content(st, s.args[2]))
	}
	if s == x.tb.NilSl() {
		return x.tb.Str("")
	}
	b := x.rd(st, x.bcComp(), x.tb.SArr(s))
	return x.bsub(b, x.tb.SOff(s), x.tb.SLen(s))
}

func (x *Exec) strlen(s *Term) *Term {
	switch {
	case s.op == "strlit":
		return x.tb.Int(int64(len(s.name)))
	case s.op == "app" && s.name == "cat":
		return x.tb.Add(x.strlen(s.args[0]), x.strlen(s.args[1]))
	case s.op == "app" && s.name == "bsub":
		return s.args[2] // slices in range only
	case s.op == "app" && s.name == "chr":
		return x.tb.Int(1)
	case s.op == "app" && s.name == "zbytes":
		return s.args[0]
	}
	return x.tb.App("strlen", "Int", s)
}

func (x *Exec) bsub(b, o, l *Term) *Term {
	tb := x.tb
	if o.op == "int" && o.n == 0 {
		if l == x.strlen(b) || (l.op == "app" && l.name == "strlen" && l.args[0] == b) {
			return b
		}
	}
	if l.op == "int" && l.n == 0 {
		return tb.Str("")
	}
	if b.op == "strlit" && o.op == "int" && l.op == "int" && o.n >= 0 && l.n >= 0 && o.n+l.n <= int64(len(b.name)) {
		return tb.Str(b.name[o.n : o.n+l.n])
	}
	if b.op == "app" && b.name == "bsub" {
		return x.bsub(b.args[0], tb.Add(b.args[1], o), l)
	}
	// cat(p, q) with o == len(p), l == len(q)
	if b.op == "app" && b.name == "cat" {
		pl := x.strlen(b.args[0])
		if d, ok := tb.diffConst(o, pl); ok && d >= 0 {
			return x.bsub(b.args[1], tb.Sub(o, pl), l)
		}
		if o.op == "int" && o.n == 0 && l == pl {
			return b.args[0]
		}
		if x.nonneg(tb.Sub(o, pl)) {
			return x.bsub(b.args[1], tb.Sub(o, pl), l)
		}
		if x.nonneg(tb.Sub(pl, tb.Add(o, l))) {
			return x.bsub(b.args[0], o, l)
		}
		if x.nonneg(tb.Sub(pl, o)) && x.nonneg(tb.Sub(tb.Add(o, l), pl)) {
			return tb.Cat(x.bsub(b.args[0], o, tb.Sub(pl, o)), x.bsub(b.args[1], tb.Int(0), tb.Sub(tb.Add(o, l), pl)))
		}
	}
	if !x.bsubAx {
		x.bsubAx = true
		s := tb.BVar("s", "Str")
		ln := tb.App("strlen", "Int", s)
		t := tb.Fn("bsub", "Str", s, tb.Int(0), ln)
		x.sol.Axiom(tb.Forall([]*Term{s}, tb.mk("=", "", 0, "Bool", t, s), t))
		o1, l1 := tb.BVar("o", "Int"), tb.BVar("l", "Int")
		t2 := tb.Fn("bsub", "Str", s, o1, l1)
		x.sol.Axiom(tb.Forall([]*Term{s, o1, l1}, tb.Imp(tb.Le(tb.Int(0), l1), tb.mk("=", "", 0, "Bool", tb.App("strlen", "Int", t2), l1)), t2))
		x.sol.Axiom(tb.Forall([]*Term{s}, tb.Imp(tb.mk("=", "", 0, "Bool", ln, tb.Int(0)), tb.Eq(s, tb.Str(""))), ln))
	}
	return tb.Fn("bsub", "Str", b, o, l)
}

func (c *Ctx) eval(n *Node) SV {
	x := c.x
	tb := x.tb
	switch n.k {
	case "int":
		return c.tsv(tb.Int(n.n), tInt)
	case "str":
		return c.tsv(tb.Str(n.s), tString)
	case "ident":
		return c.ident(n.s)
	case "sel":
		// package-qualified?
		if n.kids[0].k == "ident" {
			if _, isVar := c.vars[n.kids[0].s]; !isVar {
				if p, ok := x.w.byName[n.kids[0].s]; ok && x.ss.Preds[n.kids[0].s] == nil {
					return c.pkgObj(p, n.s)
				}
			}
		}
		return c.field(c.eval(n.kids[0]), n.s)
	case "old":
		nc := *c
		if c.old == nil {
			sfail("old() not available here")
		}
		nc.st = c.old
		return nc.force(nc.eval(n.kids[0]))
	case "index":
		b := c.force(c.eval(n.kids[0]))
		if b.t == nil {
			k := c.term(n.kids[1])
			r := tb.Select(b.v.(*Term), k)
			return c.ghostSV(r)
		}
		switch u := b.t.Underlying().(type) {
		case *types.Slice:
			return c.elem(c.st, b.v.(*Term), c.term(n.kids[1]), u.Elem())
		case *types.Map:
			return c.mapVal(b.v.(*Term), c.term(n.kids[1]), u)
		case *types.Basic:
			return SV{v: x.bat(b.v.(*Term), c.term(n.kids[1])), t: types.Typ[types.Uint8]}
		}
		sfail("cannot index %s", tstr(b.t))
	case "slice":
		b := c.force(c.eval(n.kids[0]))
		lo := tb.Int(0)
		if n.kids[1] != nil {
			lo = c.term(n.kids[1])
		}
		bt := b.v.(*Term)
		var hi *Term
		if n.kids[2] != nil {
			hi = c.term(n.kids[2])
		} else if bt.sort == "Slice" {
			hi = tb.SLen(bt)
		} else {
			hi = x.strlen(bt)
		}
		if bt.sort == "Str" {
			return SV{v: x.bsub(bt, lo, tb.Sub(hi, lo)), t: b.t}
		}
		return SV{v: tb.MkSl(tb.SArr(bt), tb.Add(tb.SOff(bt), lo), tb.Sub(hi, lo), tb.Sub(tb.SCap(bt), lo)), t: b.t}
	case "un":
		switch n.s {
		case "!":
			return c.tsv(tb.Not(c.boolT(n.kids[0])), tBool)
		case "-":
			return c.tsv(tb.Neg(c.term(n.kids[0])), tInt)
		case "*":
			v := c.force(c.eval(n.kids[0]))
			p, ok := v.t.Underlying().(*types.Pointer)
			if !ok {
				sfail("deref of non-pointer")
			}
			if a, ok := v.v.(*Addr); ok {
				return SV{v: x.loadAddr(c.st, a), t: p.Elem()}
			}
			if x.w.leafSort(p.Elem()) != "" {
				return SV{v: x.rd(c.st, x.memComp(p.Elem()), v.v.(*Term)), t: p.Elem()}
			}
			return SV{t: p.Elem(), ref: v.v.(*Term), st: c.st}
		case "&":
			v := c.eval(n.kids[0])
			if v.ref == nil {
				sfail("& of non-located value")
			}
			return SV{v: v.ref, t: types.NewPointer(v.t)}
		}
	case "tern":
		a, b := c.force(c.eval(n.kids[1])), c.force(c.eval(n.kids[2]))
		return SV{v: tb.Ite(c.boolT(n.kids[0]), a.v.(*Term), b.v.(*Term)), t: a.t, gs: a.gs}
	case "bin":
		return c.bin(n)
	case "in":
		m := c.force(c.eval(n.kids[1]))
		k := c.term(n.kids[0])
		if m.t == nil {
			return c.tsv(tb.Select(m.v.(*Term), k), tBool)
		}
		if mt, ok := m.t.Underlying().(*types.Map); ok {
			mi := x.mapInfo(mt)
			return c.tsv(tb.Select(x.rd(c.st, mi.md, m.v.(*Term)), k), tBool)
		}
		if st, ok := m.t.Underlying().(*types.Slice); ok {
			xx := tb.BVar("x", "Int")
			s := m.v.(*Term)
			e := c.elem(c.st, s, tb.Sub(xx, tb.SOff(s)), st.Elem())
			body := tb.And(tb.Le(tb.SOff(s), xx), tb.Lt(xx, tb.Add(tb.SOff(s), tb.SLen(s))), tb.Eq(e.v.(*Term), k))
			return c.tsv(tb.Exists([]*Term{xx}, body, tb.Elt(tb.SArr(s), xx)), tBool)
		}
		sfail("in: bad container")
	case "is":
		v := c.force(c.eval(n.kids[0]))
		T := x.resolveType(c.pkg, n.s)
		return c.tsv(tb.Eq(tb.App("itid", "Int", v.v.(*Term)), x.tid(T)), tBool)
	case "as":
		v := c.force(c.eval(n.kids[0]))
		T := x.resolveType(c.pkg, n.s)
		return SV{v: x.unboxVal(v.v.(*Term), T), t: T}
	case "conv":
		T := x.resolveType(c.pkg, n.s)
		v := c.force(c.eval(n.kids[0]))
		if _, ok := T.Underlying().(*types.Interface); ok {
			if _, ok := v.t.Underlying().(*types.Interface); ok {
				return SV{v: v.v, t: T}
			}
			return SV{v: x.mkIface(v.v, v.t), t: T}
		}
		return SV{v: v.v, t: T}
	case "asErr", "hasErr":
		// the error of type T that errors.As finds in an error, and whether it finds one
		T := x.resolveType(c.pkg, n.s)
		hit, other, v, w := x.asError(c.term(n.kids[0]), T)
		if n.k == "hasErr" {
			return c.tsv(c.x.tb.Or(hit, other), tBool)
		}
		return SV{v: x.iteVal(hit, v, w, T), t: T}
	case "zero":
		T := x.resolveType(c.pkg, n.s)
		return SV{v: x.zeroOf(T), t: T}
	case "let":
		v := c.eval(n.kids[0])
		return c.with(n.s, v).eval(n.kids[1])
	case "forall", "exists":
		return c.quant(n)
	case "set":
		return c.setComp(n)
	case "call":
		return c.call(n)
	}
	sfail("cannot evaluate %s", nodeStr(n))
	return SV{}
}

func (c *Ctx) ghostSV(r *Term) SV {
	switch r.sort {
	case "Bool":
		return SV{v: r, t: tBool}
	case "Int":
		return SV{v: r, t: tInt}
	case "Str":
		return SV{v: r, t: tString}
	case "Iface":
		return SV{v: r, t: types.Universe.Lookup("any").Type()}
	}
	return SV{v: r, gs: r.sort}
}

func (c *Ctx) mapVal(m, k *Term, u *types.Map) SV {
	x := c.x
	mi := x.mapInfo(u)
	var ts []*Term
	for _, mv := range mi.mv {
		v := x.tb.Select(x.rd(c.st, mv, m), k)
		ts = append(ts, v)
	}
	if !m.hasB && !k.hasB {
		// values outside the domain are zero: what a Go lookup yields
		in := x.tb.Select(x.rd(c.st, mi.md, m), k)
		for i, v := range ts {
			if z, ok := x.zeroOf(mi.lv[i]).(*Term); ok {
				x.assume(x.tb.Or(in, x.tb.Eq(v, z)))
			}
		}
	}
	v, _ := x.w.unflatten(ts, u.Elem())
	if t, ok := v.(*Term); ok && !t.hasB {
		x.valFacts(c.st, t, u.Elem())
	}
	return SV{v: v, t: u.Elem()}
}

func (c *Ctx) ident(s string) SV {
	x := c.x
	if v, ok := c.vars[s]; ok {
		return v
	}
	switch s {
	case "true":
		return c.tsv(x.tb.True(), tBool)
	case "false":
		return c.tsv(x.tb.False(), tBool)
	case "nil":
		return SV{t: types.Typ[types.UntypedNil]}
	}
	if g, ok := x.ss.GVars[s]; ok {
		return c.gvar(c.st, g)
	}
	if g, ok := x.ss.Ghosts[s]; ok && len(g.Args) == 0 {
		return c.applyGhost(g, nil)
	}
	return c.pkgObj(c.pkg, s)
}

func (c *Ctx) gvar(st *State, g *GhostFn) SV {
	so, t := c.x.specSort(c.x.pkgOf(g.Pkg), g.Res)
	v := c.x.gread(st, g.Name, so)
	if t != nil {
		return SV{v: v, t: t}
	}
	sv := c.ghostSV(v)
	return sv
}

func (x *Exec) gread(st *State, name, so string) *Term {
	k := "G!" + name
	if t, ok := st.comps[k]; ok {
		return t
	}
	t, ok := x.init[k]
	if !ok {
		x.sorts[k] = so
		t = x.tb.Const(sym("G0!"+name), so)
		x.init[k] = t
	}
	st.comps[k] = t
	return t
}

func (x *Exec) pkgOf(short string) *types.Package {
	if p, ok := x.w.byName[short]; ok {
		return p
	}
	sfail("unknown package %s", short)
	return nil
}

func (c *Ctx) pkgObj(p *types.Package, s string) SV {
	x := c.x
	o := p.Scope().Lookup(s)
	if o == nil && p != c.pkg && c.pkg != nil {
		o = c.pkg.Scope().Lookup(s)
	}
	switch o := o.(type) {
	case *types.Const:
		return c.constSV(o.Val(), o.Type())
	case *types.Var:
		g := x.w.pkgs[p.Path()].Var(s)
		if g != nil {
			r := x.globalRef(g)
			if x.w.leafSort(o.Type()) != "" {
				return SV{v: x.rd(c.st, x.memComp(o.Type()), r), t: o.Type()}
			}
			return SV{t: o.Type(), ref: r, st: c.st}
		}
	}
	sfail("unknown identifier %s in package %s", s, p.Name())
	return SV{}
}

func (c *Ctx) constSV(v constant.Value, t types.Type) SV {
	tb := c.x.tb
	switch v.Kind() {
	case constant.Bool:
		return c.tsv(tb.Bool(constant.BoolVal(v)), tBool)
	case constant.String:
		return c.tsv(tb.Str(constant.StringVal(v)), tString)
	case constant.Int:
		if i, ok := constant.Int64Val(v); ok {
			return c.tsv(tb.Int(i), tInt)
		}
	}
	sfail("constant %v", v)
	return SV{}
}

func (c *Ctx) bin(n *Node) SV {
	x := c.x
	tb := x.tb
	b := func(t *Term) SV { return c.tsv(t, tBool) }
	switch n.s {
	case "&&":
		l := c.boolT(n.kids[0])
		if isFalse(l) {
			return b(l)
		}
		return b(tb.And(l, c.boolT(n.kids[1])))
	case "||":
		l := c.boolT(n.kids[0])
		if isTrue(l) {
			return b(l)
		}
		return b(tb.Or(l, c.boolT(n.kids[1])))
	case "==>":
		l := c.boolT(n.kids[0])
		if isFalse(l) {
			return b(tb.True())
		}
		return b(tb.Imp(l, c.boolT(n.kids[1])))
	case "<==>":
		return b(tb.Eq(c.boolT(n.kids[0]), c.boolT(n.kids[1])))
	case "<", "<=", ">", ">=":
		l, r := c.term(n.kids[0]), c.term(n.kids[1])
		switch n.s {
		case "<":
			return b(tb.Lt(l, r))
		case "<=":
			return b(tb.Le(l, r))
		case ">":
			return b(tb.Gt(l, r))
		}
		return b(tb.Ge(l, r))
	case "+":
		l, r := c.force(c.eval(n.kids[0])), c.force(c.eval(n.kids[1]))
		lt, rt := l.v.(*Term), r.v.(*Term)
		if lt.sort == "Str" {
			return SV{v: tb.catIte(lt, rt), t: tString}
		}
		return SV{v: tb.Add(lt, rt), t: l.t}
	case "-":
		return c.tsv(tb.Sub(c.term(n.kids[0]), c.term(n.kids[1])), tInt)
	case "*":
		return c.tsv(tb.Mul(c.term(n.kids[0]), c.term(n.kids[1])), tInt)
	case "==", "!=":
		l, r := c.eval(n.kids[0]), c.eval(n.kids[1])
		e := c.eq(l, r)
		if n.s == "!=" {
			e = tb.Not(e)
		}
		return b(e)
	}
	sfail("operator %s", n.s)
	return SV{}
}

func isNil(v SV) bool {
	b, ok := v.t.(*types.Basic)
	return ok && v.t != nil && b.Kind() == types.UntypedNil
}

func (c *Ctx) eq(l, r SV) *Term {
	tb := c.x.tb
	if isNil(l) {
		l, r = r, l
	}
	if isNil(r) {
		if isNil(l) {
			return tb.True()
		}
		l = c.force(l)
		t, ok := l.v.(*Term)
		if !ok {
			if _, isA := l.v.(*Addr); isA {
				return tb.False()
			}
			sfail("nil comparison of composite")
		}
		switch t.sort {
		case "Ref":
			return tb.Eq(t, tb.Null())
		case "Slice":
			return tb.Eq(tb.SArr(t), tb.Null())
		case "Iface":
			return tb.Eq(tb.App("itid", "Int", t), tb.Int(0))
		}
		sfail("nil comparison on %s", t.sort)
	}
	l, r = c.force(l), c.force(r)
	return c.x.eqVal(l.v, r.v)
}

func (x *Exec) eqVal(a, b Val) *Term {
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			panic(specErr(fmt.Sprintf("eq of %T and %T", a, b)))
		}
		return x.tb.Eq(p, q)
	case *Comp:
		q := b.(*Comp)
		var cs []*Term
		for i := range p.f {
			cs = append(cs, x.eqVal(p.f[i], q.f[i]))
		}
		return x.tb.And(cs...)
	}
	panic(specErr(fmt.Sprintf("eq of %T", a)))
}

func (c *Ctx) quant(n *Node) SV {
	x := c.x
	tb := x.tb
	nc := c
	var vars, guards, autoPats []*Term
	for _, b := range n.bs {
		if b.in != nil {
			s := nc.force(nc.eval(b.in))
			if s.t == nil {
				k, _ := splitArr(s.gs)
				v := tb.BVar(b.name, k)
				vars = append(vars, v)
				sel := tb.Select(s.v.(*Term), v)
				guards = append(guards, sel)
				if sel.op == "select" {
					autoPats = append(autoPats, sel)
				} else {
					autoPats = append(autoPats, nil)
				}
				nc = nc.with(b.name, nc.ghostSV(v))
				continue
			}
			switch u := s.t.Underlying().(type) {
			case *types.Slice:
				sl := s.v.(*Term)
				v := tb.BVar(b.name, "Int")
				vars = append(vars, v)
				guards = append(guards, tb.Le(tb.SOff(sl), v), tb.Lt(v, tb.Add(tb.SOff(sl), tb.SLen(sl))))
				autoPats = append(autoPats, tb.Elt(tb.SArr(sl), v))
				nc = nc.with(b.name, SV{v: tb.Sub(v, tb.SOff(sl)), t: tInt})
			case *types.Map:
				mi := x.mapInfo(u)
				v := tb.BVar(b.name, mi.ks)
				vars = append(vars, v)
				sel := tb.Select(x.rd(nc.st, mi.md, s.v.(*Term)), v)
				guards = append(guards, sel)
				if sel.op == "select" {
					autoPats = append(autoPats, sel)
				} else {
					autoPats = append(autoPats, nil)
				}
				nc = nc.with(b.name, SV{v: v, t: u.Key()})
			case *types.Basic: // range over int
				v := tb.BVar(b.name, "Int")
				vars = append(vars, v)
				guards = append(guards, tb.Le(tb.Int(0), v), tb.Lt(v, s.v.(*Term)))
				autoPats = append(autoPats, nil)
				nc = nc.with(b.name, SV{v: v, t: tInt})
			default:
				sfail("cannot range over %s", tstr(s.t))
			}
			continue
		}
		so, ty := x.specSortOrType(c.pkg, b.typ)
		if so == "" { // composite
			ls := x.w.leaves(ty)
			var ts []*Term
			for i, l := range ls {
				v := tb.BVar(fmt.Sprintf("%s%d", b.name, i), x.w.leafSort(l))
				vars = append(vars, v)
				ts = append(ts, v)
			}
			cv, _ := x.w.unflatten(ts, ty)
			nc = nc.with(b.name, SV{v: cv, t: ty})
			autoPats = append(autoPats, nil)
			continue
		}
		v := tb.BVar(b.name, so)
		vars = append(vars, v)
		autoPats = append(autoPats, nil)
		if ty != nil {
			nc = nc.with(b.name, SV{v: v, t: ty})
		} else {
			nc = nc.with(b.name, SV{v: v, gs: so})
		}
	}
	var pats []*Term
	for _, tr := range n.trig {
		var ps []*Term
		for _, e := range tr {
			ev := nc.force(nc.eval(e))
			ps = append(ps, ev.v.(*Term))
		}
		if len(ps) == 1 {
			pats = append(pats, ps[0])
		} else {
			m := tb.mk("multipat", "", 0, "Pat", ps...)
			pats = append(pats, m)
		}
	}
	if len(pats) == 0 {
		ok := true
		for _, p := range autoPats {
			if p == nil {
				ok = false
			}
		}
		if ok {
			if len(autoPats) == 1 {
				pats = autoPats
			} else {
				pats = []*Term{tb.mk("multipat", "", 0, "Pat", autoPats...)}
			}
		}
	}
	body := nc.boolT(n.kids[0])
	g := tb.And(guards...)
	if n.k == "forall" {
		return c.tsv(tb.Forall(vars, tb.Imp(g, body), pats...), tBool)
	}
	return c.tsv(tb.Exists(vars, tb.And(g, body), pats...), tBool)
}

func (x *Exec) specSortOrType(pkg *types.Package, s string) (string, types.Type) {
	if strings.HasPrefix(s, "$") || strings.HasPrefix(s, "set[") || strings.HasPrefix(s, "fun[") {
		return x.specSort(pkg, s)
	}
	switch s {
	case "int", "bool", "string", "any", "error", "Ref", "Slice", "Iface":
		return x.specSort(pkg, s)
	}
	t := x.resolveType(pkg, s)
	so := x.w.leafSort(t)
	if so != "" {
		x.declSort(so)
	}
	return so, t
}

// set k T :: P  — a fresh set constant with its defining axiom
func (c *Ctx) setComp(n *Node) SV {
	x := c.x
	tb := x.tb
	so, ty := x.specSortOrType(c.pkg, n.bs[0].typ)
	// canonical bound variable so that equal comprehensions coincide
	v := tb.mk("bvar", "sv?"+fmt.Sprint(c.depth), 0, so)
	v.hasB = true
	nc := c.with(n.bs[0].name, SV{v: v, t: ty})
	nc.depth++
	body := nc.boolT(n.kids[0])
	free := map[*Term]bool{}
	collectB(body, free, map[*Term]bool{})
	delete(free, v)
	if len(free) > 0 {
		return x.liftSet(body, v, so)
	}
	if s, ok := x.sets[body]; ok {
		return SV{v: s, gs: s.sort}
	}
	s := tb.Fresh("set", arrSort(so, "Bool"))
	sel := tb.Select(s, v)
	x.assume(tb.Forall([]*Term{v}, tb.Eq(sel, body), sel))
	x.remember(func() { delete(x.sets, body) })
	x.sets[body] = s
	return SV{v: s, gs: s.sort}
}

// liftSet: a comprehension that depends on outer bound variables becomes a
// fresh function of them.
func (x *Exec) liftSet(body, v *Term, so string) SV {
	tb := x.tb
	var outer, canon []*Term
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term, bound map[*Term]bool)
	walk = func(t *Term, bound map[*Term]bool) {
		if !t.hasB {
			return
		}
		if t.op == "bvar" {
			if t != v && !bound[t] && !seen[t] {
				seen[t] = true
				b := tb.mk("bvar", fmt.Sprintf("ov?%d", len(outer)), 0, t.sort)
				b.hasB = true
				outer = append(outer, t)
				canon = append(canon, b)
				m[t] = b
			}
			return
		}
		if t.op == "forall" || t.op == "exists" {
			nb := map[*Term]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, q := range t.vars {
				nb[q] = true
			}
			bound = nb
		}
		for _, a := range t.args {
			walk(a, bound)
		}
	}
	walk(body, map[*Term]bool{})
	cb := tb.Subst(body, m)
	srt := arrSort(so, "Bool")
	f, ok := x.sets[cb]
	if !ok {
		x.liftN++
		name := fmt.Sprintf("setf!%d", x.liftN)
		f = tb.Fn(name, srt, canon...)
		sel := tb.Select(f, v)
		x.assume(tb.Forall(append(append([]*Term{}, canon...), v), tb.Eq(sel, cb), sel))
		x.remember(func() { delete(x.sets, cb) })
		x.sets[cb] = f
	}
	return SV{v: tb.Fn(f.name, srt, outer...), gs: srt}
}

func (c *Ctx) applyGhost(g *GhostFn, args []SV) SV {
	x := c.x
	if len(args) != len(g.Args) {
		sfail("ghost %s: %d arguments, want %d", g.Name, len(args), len(g.Args))
	}
	p := x.pkgOf(g.Pkg)
	var ts []*Term
	for i, a := range args {
		so, _ := x.specSort(p, g.Args[i])
		if isNil(a) {
			ts = append(ts, x.zeroSort(so))
			continue
		}
		a = c.force(a)
		t, ok := a.v.(*Term)
		if !ok {
			sfail("ghost %s: composite argument %d", g.Name, i)
		}
		if t.sort != so {
			sfail("ghost %s: argument %d has sort %s, want %s", g.Name, i, t.sort, so)
		}
		ts = append(ts, t)
	}
	so, ty := x.specSort(p, g.Res)
	r := x.ufApp("g."+g.Name, so, ts)
	if ty != nil {
		return SV{v: r, t: ty}
	}
	return c.ghostSV(r)
}

// ufApp applies an uninterpreted spec function; some names have built-in
// evaluation on literals.
func (x *Exec) ufApp(name, so string, ts []*Term) *Term {
	if f, ok := litEval[name]; ok {
		if r := f(x, ts); r != nil {
			return r
		}
	}
	return x.tb.Fn(sym(name), so, ts...)
}

func (c *Ctx) call(n *Node) SV {
	x := c.x
	tb := x.tb
	fn := n.kids[0]
	args := n.kids[1:]
	name := ""
	if fn.k == "ident" {
		name = fn.s
	} else if fn.k == "sel" && fn.kids[0].k == "ident" {
		name = fn.kids[0].s + "." + fn.s
	}
	switch name {
	case "len":
		v := c.force(c.eval(args[0]))
		t := v.v.(*Term)
		switch t.sort {
		case "Slice":
			return c.tsv(tb.SLen(t), tInt)
		case "Str":
			return c.tsv(x.strlen(t), tInt)
		case "Ref":
			mi := x.mapInfo(v.t)
			return c.tsv(x.card(x.rd(c.st, mi.md, t)), tInt)
		}
		sfail("len of %s", t.sort)
	case "cap":
		return c.tsv(tb.SCap(c.term(args[0])), tInt)
	case "card":
		return c.tsv(x.card(c.term(args[0])), tInt)
	case "dom":
		v := c.force(c.eval(args[0]))
		mi := x.mapInfo(v.t)
		d := x.rd(c.st, mi.md, v.v.(*Term))
		return SV{v: d, gs: d.sort}
	case "vals": // the value array of a map with leaf values
		v := c.force(c.eval(args[0]))
		mi := x.mapInfo(v.t)
		d := x.rd(c.st, mi.mv[0], v.v.(*Term))
		return SV{v: d, gs: d.sort}
	case "bytes":
		v := c.force(c.eval(args[0]))
		t := v.v.(*Term)
		if t.sort == "Str" {
			return c.tsv(t, tString)
		}
		return c.tsv(x.content(c.st, t), tString)
	case "seq": // the elements of a slice as a mathematical sequence
		v := c.force(c.eval(args[0]))
		u, ok := v.t.Underlying().(*types.Slice)
		if !ok || x.w.leafSort(u.Elem()) == "" || isByte(u.Elem()) {
			sfail("seq of %s", tstr(v.t))
		}
		sl := v.v.(*Term)
		x.escapeTerm(c.st, sl)
		cn := x.memComp(u.Elem())
		H := x.comp(c.st, cn)
		es := x.w.leafSort(u.Elem())
		srt := "(Array Int " + es + ")"
		mk := func(h, a, o *Term) *Term { return tb.Fn(sym("seq!"+cn), srt, h, a, o) }
		if !x.ghostAx["seq"+cn] {
			x.ghostAx["seq"+cn] = true
			h, a, o, i := tb.BVar("h", H.sort), tb.BVar("a", "Ref"), tb.BVar("o", "Int"), tb.BVar("i", "Int")
			t := tb.Select(mk(h, a, o), i)
			x.sol.Axiom(tb.Forall([]*Term{h, a, o, i}, tb.Eq(t, tb.Select(h, tb.Elt(a, tb.Add(o, i)))), t))
		}
		return SV{v: mk(H, tb.SArr(sl), tb.SOff(sl)), gs: srt}
	case "fresh":
		v := c.force(c.eval(args[0]))
		t := v.v.(*Term)
		if t.sort == "Slice" {
			t = tb.SArr(t)
		}
		return c.tsv(tb.And(tb.Le(c.old.alloc, tb.Rid(t)), tb.Lt(tb.Rid(t), c.st.alloc)), tBool)
	case "allocated":
		v := c.force(c.eval(args[0]))
		return c.tsv(tb.Lt(tb.Rid(v.v.(*Term)), c.st.alloc), tBool)
	case "rid":
		v := c.force(c.eval(args[0]))
		return c.tsv(tb.Rid(v.v.(*Term)), tInt)
	case "deep": // deep("name", v): function of everything reachable from v
		nm := args[0].s
		v := c.eval(args[1])
		return c.ghostSV(x.deepUF(c.st, nm, "Str", c.force(v)))
	case "deepb":
		nm := args[0].s
		var vs []SV
		for _, a := range args[1:] {
			vs = append(vs, c.force(c.eval(a)))
		}
		return c.tsv(x.deepUF(c.st, nm, "Bool", vs...), tBool)
	case "visited":
		if c.loop == nil {
			sfail("visited outside loop")
		}
		var r *Term = tb.True()
		found := false
		for _, k := range c.loop.iterKeys {
			if v, ok := c.st.iters[k]; ok {
				found = true
				r = tb.Select(v, c.term(args[0]))
			}
		}
		if !found {
			sfail("visited: no map iteration here")
		}
		return c.tsv(r, tBool)
	case "entry":
		if c.loop == nil || c.loop.entry == nil {
			sfail("entry() outside a loop hint")
		}
		nc := *c
		nc.st = c.loop.entry.st
		nc.vars = map[string]SV{}
		for k, v := range c.vars {
			nc.vars[k] = v
		}
		for k, v := range c.eVars {
			nc.vars[k] = v
		}
		return nc.force(nc.eval(args[0]))
	case "errIs":
		e := c.term(args[0])
		t := c.term(args[1])
		return c.tsv(x.errIs(c.st, e, t), tBool)
	case "nonnil":
		v := c.eval(args[0])
		return c.tsv(tb.Not(c.eq(v, SV{t: types.Typ[types.UntypedNil]})), tBool)
	case "tid":
		return c.tsv(tb.App("itid", "Int", c.term(args[0])), tInt)
	case "jmember": // jmember(text, name): the member of a JSON object, as decoded into a generic map
		d := c.term(args[0])
		k := c.term(args[1])
		v := tb.Ite(tb.Select(tb.Fn("jdom", arrSort("Str", "Bool"), d), k), tb.Select(tb.Fn("jval", arrSort("Str", "Iface"), d), k), tb.NilIf())
		return SV{v: tb.Ite(tb.Fn("jisnull", "Bool", d), tb.NilIf(), v), t: types.Universe.Lookup("any").Type()}
	case "jhas": // jhas(text, name): the JSON object has this member
		d := c.term(args[0])
		return c.tsv(tb.And(tb.Not(tb.Fn("jisnull", "Bool", d)), tb.Select(tb.Fn("jdom", arrSort("Str", "Bool"), d), c.term(args[1]))), tBool)
	case "jmean": // jmean(text): what a JSON text denotes, whatever its white space
		return c.tsv(tb.Fn("jmean", "Str", c.term(args[0])), tString)
	case "decoded": // decoded(text, name, v): v is what decoding the member gives
		v := c.force(c.eval(args[2]))
		return c.tsv(x.decodedFrom(c.term(args[0]), c.term(args[1]), v), tBool)
	case "mkset": // mkset(m, k...): set literals
	case "setadd":
		s := c.term(args[0])
		k := c.term(args[1])
		r := tb.Store(s, k, tb.True())
		return SV{v: r, gs: r.sort}
	case "setdel":
		s := c.term(args[0])
		k := c.term(args[1])
		r := tb.Store(s, k, tb.False())
		return SV{v: r, gs: r.sort}
	case "upd": // upd(array, k, v)
		s := c.term(args[0])
		k := c.term(args[1])
		r := tb.Store(s, k, c.term(args[2]))
		return SV{v: r, gs: r.sort}
	}
	if p, ok := x.ss.Preds[name]; ok {
		if len(args) != len(p.Params) {
			sfail("pred %s: %d arguments, want %d", name, len(args), len(p.Params))
		}
		nc := &Ctx{x: x, st: c.st, old: c.old, vars: map[string]SV{}, pkg: x.pkgOf(p.Pkg), loop: c.loop, fr: c.fr, depth: c.depth + 1}
		if c.depth > 60 {
			sfail("pred recursion: %s", name)
		}
		for i, a := range args {
			v := c.eval(a)
			if isNil(v) {
				so, ty := x.specSortOrType(nc.pkg, p.Params[i].typ)
				v = SV{v: x.zeroSort(so), t: ty}
			} else if p.Params[i].typ != "" && v.t != nil && !strings.HasPrefix(p.Params[i].typ, "set[") && !strings.HasPrefix(p.Params[i].typ, "fun[") && !strings.HasPrefix(p.Params[i].typ, "$") {
				ty := x.resolveType(nc.pkg, p.Params[i].typ)
				// implicit interface boxing
				_, pi := ty.Underlying().(*types.Interface)
				_, vi := v.t.Underlying().(*types.Interface)
				if pi && !vi {
					v = c.force(v)
					v = SV{v: x.mkIface(v.v, v.t), t: ty}
				} else if v.ref == nil {
					v.t = ty
				}
			}
			// located values keep their own state
			nc.vars[p.Params[i].name] = v
		}
		return nc.eval(p.Body)
	}
	if g, ok := x.ss.Ghosts[name]; ok {
		var vs []SV
		for _, a := range args {
			vs = append(vs, c.eval(a))
		}
		return c.applyGhost(g, vs)
	}
	if v, ok := c.specPure(name, args); ok {
		return v
	}
	if v, ok := c.specRepoFn(name, args); ok {
		return v
	}
	sfail("unknown function %s in spec", nodeStr(n))
	return SV{}
}

func (x *Exec) card(set *Term) *Term {
	tb := x.tb
	if set.op == "constarr" && isFalse(set.args[0]) {
		return tb.Int(0)
	}
	k, _ := splitArr(set.sort)
	nm := sym("card!" + k)
	if !x.cardAx[nm] {
		x.cardAx[nm] = true
		a := tb.BVar("a", set.sort)
		b := tb.BVar("b", set.sort)
		e := tb.BVar("k", k)
		ca, cb := tb.Fn(nm, "Int", a), tb.Fn(nm, "Int", b)
		x.sol.Axiom(tb.Forall([]*Term{a}, tb.Le(tb.Int(0), ca), ca))
		x.sol.Axiom(tb.Eq(tb.Fn(nm, "Int", tb.ConstArr(k, tb.False())), tb.Int(0)))
		st := tb.Store(a, e, tb.True())
		x.sol.Axiom(tb.Forall([]*Term{a, e}, tb.mk("=", "", 0, "Bool", tb.Fn(nm, "Int", st), tb.Ite(tb.Select(a, e), ca, tb.Add(ca, tb.Int(1)))), tb.Fn(nm, "Int", st)))
		sf := tb.Store(a, e, tb.False())
		x.sol.Axiom(tb.Forall([]*Term{a, e}, tb.mk("=", "", 0, "Bool", tb.Fn(nm, "Int", sf), tb.Ite(tb.Select(a, e), tb.Sub(ca, tb.Int(1)), ca)), tb.Fn(nm, "Int", sf)))
		// monotone: A subset B -> |A| <= |B|, with a Skolem witness
		w := tb.Fn(sym("cardw!"+k), k, a, b)
		x.sol.Axiom(tb.Forall([]*Term{a, b}, tb.Or(tb.Le(ca, cb), tb.And(tb.Select(a, w), tb.Not(tb.Select(b, w)))), tb.mk("multipat", "", 0, "Pat", ca, cb)))
		// empty
		w0 := tb.Fn(sym("cardw0!"+k), k, a)
		x.sol.Axiom(tb.Forall([]*Term{a}, tb.Or(tb.Eq(ca, tb.Int(0)), tb.Select(a, w0)), ca))
		x.sol.Axiom(tb.Forall([]*Term{a, e}, tb.Imp(tb.Select(a, e), tb.Le(tb.Int(1), ca)), tb.mk("multipat", "", 0, "Pat", ca, tb.Select(a, e))))
	}
	return tb.Fn(nm, "Int", set)
}

// deepUF: uninterpreted function of a value and everything reachable from it
func (x *Exec) deepUF(st *State, name, res string, vs ...SV) *Term {
	var args []*Term
	key := name
	set := map[string]bool{}
	var order []string
	for _, v := range vs {
		t := v.t
		val := v.v
		// interface with statically known dynamic type
		if _, ok := t.Underlying().(*types.Interface); ok {
			i := val.(*Term)
			tid := x.tb.App("itid", "Int", i)
			if tid.op == "int" && tid.n > 0 {
				t = x.tidT[tid.n]
				val = x.unboxVal(i, t)
			}
		}
		if et, ok := isPtrStruct(t); ok {
			r := val.(*Term)
			x.escapeTerm(st, r)
			val = x.loadAt(st, r, et)
			t = et
		}
		x.escapeVal(st, val)
		args = append(args, x.w.flatten(val, t)...)
		x.reach(t, set, &order, map[string]bool{})
		key += "!" + typeKey(x.w, t)
	}
	for _, c := range order {
		args = append(args, x.comp(st, c))
	}
	return x.tb.Fn(sym(key), res, args...)
}

func (x *Exec) reach(t types.Type, set map[string]bool, order *[]string, seen map[string]bool) {
	add := func(c string) {
		if !set[c] {
			set[c] = true
			*order = append(*order, c)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		k := "p" + typeKey(x.w, t)
		if seen[k] {
			return
		}
		seen[k] = true
		x.cellComps(u.Elem(), add)
		x.reach(u.Elem(), set, order, seen)
	case *types.Slice:
		k := "s" + typeKey(x.w, t)
		if seen[k] {
			return
		}
		seen[k] = true
		if isByte(u.Elem()) {
			add(x.bcComp())
			return
		}
		x.cellComps(u.Elem(), add)
		x.reach(u.Elem(), set, order, seen)
	case *types.Map:
		k := "m" + typeKey(x.w, t)
		if seen[k] {
			return
		}
		seen[k] = true
		mi := x.mapInfo(t)
		add(mi.md)
		for _, c := range mi.mv {
			add(c)
		}
		x.reach(u.Elem(), set, order, seen)
	case *types.Struct:
		if isOpaqueStruct(t) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			x.reach(u.Field(i).Type(), set, order, seen)
		}
	case *types.Array:
		x.reach(u.Elem(), set, order, seen)
	case *types.Interface:
		// JSON values: map[string]any and []any
		k := "iface"
		if seen[k] {
			return
		}
		seen[k] = true
		anyT := types.Universe.Lookup("any").Type()
		x.reach(types.NewMap(tString, anyT), set, order, seen)
		x.reach(types.NewSlice(anyT), set, order, seen)
	}
}

func (x *Exec) cellComps(t types.Type, add func(string)) {
	if s := x.w.leafSort(t); s != "" {
		if s != "Func" {
			add(x.memComp(t))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if s := x.w.leafSort(ft); s != "" {
				if s != "Func" {
					add(x.fieldComp(t, i))
				}
			} else {
				x.cellComps(ft, add)
			}
		}
	case *types.Array:
		x.cellComps(u.Elem(), add)
	}
}

func nodeStr(n *Node) string {
	if n == nil {
		return ""
	}
	if n.src != "" {
		return n.src
	}
	switch n.k {
	case "ident":
		return n.s
	case "int":
		return fmt.Sprint(n.n)
	case "str":
		return fmt.Sprintf("%q", n.s)
	case "sel":
		return nodeStr(n.kids[0]) + "." + n.s
	case "call":
		var a []string
		for _, k := range n.kids[1:] {
			a = append(a, nodeStr(k))
		}
		return nodeStr(n.kids[0]) + "(" + strings.Join(a, ", ") + ")"
	case "bin":
		return nodeStr(n.kids[0]) + " " + n.s + " " + nodeStr(n.kids[1])
	case "index":
		return nodeStr(n.kids[0]) + "[" + nodeStr(n.kids[1]) + "]"
	case "un":
		return n.s + nodeStr(n.kids[0])
	}
	return n.k + " " + n.s
}
