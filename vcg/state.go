package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is the symbolic machine state along one path.
type State struct {
	comps  map[string]*Term
	alloc  *Term
	locals map[localKey]Val
	objs   map[*Term]*VObj // virtual (not yet escaped) objects by root ref
	iters  map[iterKey]*Term
	doms   map[iterKey]*Term
	trace  []string
}

type iterKey struct {
	f *FrameID
	r ssa.Value
}

// VObj: a fresh object whose cells are still known exactly.
type VObj struct {
	root  *Term
	t     types.Type // struct/array/leaf type, or *types.Map
	n     int64      // for arrays/slices: number of elements (t is elem type)
	isArr bool
	cells map[cellKey]*Term
}

type cellKey struct {
	comp string
	ref  *Term
}

func (st *State) clone() *State {
	n := &State{comps: make(map[string]*Term, len(st.comps)), alloc: st.alloc, locals: make(map[localKey]Val, len(st.locals)), objs: make(map[*Term]*VObj, len(st.objs)), iters: make(map[iterKey]*Term, len(st.iters))}
	for k, v := range st.comps {
		n.comps[k] = v
	}
	for k, v := range st.locals {
		n.locals[k] = v
	}
	for k, v := range st.objs {
		n.objs[k] = v
	}
	for k, v := range st.iters {
		n.iters[k] = v
	}
	n.doms = st.doms
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	return n
}

// compSorts registers each memory component's sort.
func (x *Exec) compSort(name, keySort, valSort string) {
	s := arrSort(keySort, valSort)
	if o, ok := x.sorts[name]; ok {
		if o != s {
			panic("component sort clash " + name + " " + o + " " + s)
		}
		return
	}
	x.sorts[name] = s
	x.declSort(valSort)
}

func (x *Exec) declSort(s string) {
	switch s {
	case "Int", "Bool", "Str", "Ref", "Slice", "Iface", "Box":
		return
	}
	if strings.HasPrefix(s, "(Array ") {
		k, v := splitArr(s)
		x.declSort(k)
		x.declSort(v)
		return
	}
	x.tb.DeclSort(s)
}

// comp returns the current version of a component
func (x *Exec) comp(st *State, name string) *Term {
	if t, ok := st.comps[name]; ok {
		return t
	}
	t := x.initComp(name)
	st.comps[name] = t
	return t
}

func (x *Exec) initComp(name string) *Term {
	if t, ok := x.init[name]; ok {
		return t
	}
	so, ok := x.sorts[name]
	if !ok {
		panic("unknown component " + name)
	}
	t := x.tb.Const(sym("H0!"+name), so)
	x.init[name] = t
	x.initFacts(name, t)
	return t
}

// initFacts: well-formedness of the initial heap component
func (x *Exec) initFacts(name string, h *Term) {
	tb := x.tb
	if strings.HasPrefix(name, "MD!") {
		_, v := splitArr(h.sort)
		k, _ := splitArr(v)
		x.sol.Axiom(tb.Eq(tb.Select(h, tb.Null()), tb.ConstArr(k, tb.False())))
		return
	}
	if !strings.HasPrefix(h.sort, "(Array Ref ") {
		return
	}
	_, v := splitArr(h.sort)
	if v == "Ref" || v == "Slice" {
		r := tb.BVar("r", "Ref")
		c := tb.Select(h, r)
		var body *Term
		if v == "Ref" {
			body = tb.Lt(tb.Rid(c), x.alloc0)
		} else {
			body = tb.And(tb.Lt(tb.Rid(tb.SArr(c)), x.alloc0), x.wfSlice(c))
		}
		x.sol.Axiom(tb.Forall([]*Term{r}, tb.Imp(tb.Lt(tb.Rid(r), x.alloc0), body), c))
	}
}

func (x *Exec) wfSlice(s *Term) *Term {
	tb := x.tb
	z := tb.Int(0)
	return tb.And(tb.Le(z, tb.SOff(s)), tb.Le(z, tb.SLen(s)), tb.Le(tb.SLen(s), tb.SCap(s)),
		tb.Imp(tb.Eq(tb.SArr(s), tb.Null()), tb.And(tb.Eq(tb.SLen(s), z), tb.Eq(tb.SCap(s), z), tb.Eq(tb.SOff(s), z))))
}

func typeKey(w *World, t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Name()
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			return "*" + w.structKey(u.Elem())
		}
		return "*" + typeKey(w, u.Elem())
	case *types.Slice:
		return "[]" + typeKey(w, u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeKey(w, u.Elem()))
	case *types.Map:
		return "map[" + typeKey(w, u.Key()) + "]" + typeKey(w, u.Elem())
	case *types.Struct:
		return w.structKey(t)
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "any"
		}
		return tstr(t)
	}
	return tstr(t.Underlying())
}

// cells of a struct/array/leaf value stored at ref
func (x *Exec) fieldComp(t types.Type, fi int) string {
	st := t.Underlying().(*types.Struct)
	ft := st.Field(fi).Type()
	n := "F!" + x.w.structKey(t) + "." + st.Field(fi).Name()
	if _, ok := x.sorts[n]; !ok {
		x.compSort(n, "Ref", x.w.leafSort(ft))
		x.compType[n] = ft
	}
	return n
}

func (x *Exec) memComp(t types.Type) string {
	if isByteArr(t) {
		return x.bcComp()
	}
	n := "M!" + typeKey(x.w, t)
	if _, ok := x.sorts[n]; !ok {
		x.compSort(n, "Ref", x.w.leafSort(t))
		x.compType[n] = t
	}
	return n
}

func (x *Exec) bcComp() string {
	x.compSort("BC", "Ref", "Str")
	return "BC"
}

type mapInfo struct {
	md string
	mv []string
	kt types.Type
	vt types.Type
	ks string
	lv []types.Type
}

func (x *Exec) mapInfo(t types.Type) *mapInfo {
	m := t.Underlying().(*types.Map)
	key := typeKey(x.w, m.Key()) + "|" + typeKey(x.w, m.Elem())
	if mi, ok := x.maps[key]; ok {
		return mi
	}
	kl := x.w.leaves(m.Key())
	if len(kl) != 1 {
		panic(unsupported("map key type " + tstr(m.Key())))
	}
	mi := &mapInfo{md: "MD!" + key, kt: m.Key(), vt: m.Elem(), ks: x.w.leafSort(kl[0])}
	x.declSort(mi.ks)
	x.compSort(mi.md, "Ref", arrSort(mi.ks, "Bool"))
	mi.lv = x.w.leaves(m.Elem())
	for i, l := range mi.lv {
		n := fmt.Sprintf("MV!%s#%d", key, i)
		x.declSort(x.w.leafSort(l))
		x.compSort(n, "Ref", arrSort(mi.ks, x.w.leafSort(l)))
		mi.mv = append(mi.mv, n)
	}
	x.maps[key] = mi
	return mi
}

type unsupported string

func rootOf(r *Term) *Term {
	for r.op == "app" && (r.name == "sub" || r.name == "elt") {
		r = r.args[0]
	}
	return r
}

// exact: path made only of sub / elt with literal index
func exactPath(r *Term) bool {
	for r.op == "app" && (r.name == "sub" || r.name == "elt") {
		if r.args[1].op != "int" {
			return false
		}
		r = r.args[0]
	}
	return true
}

// rd reads a cell
func (x *Exec) rd(st *State, comp string, ref *Term) *Term {
	root := rootOf(ref)
	if o, ok := st.objs[root]; ok {
		if exactPath(ref) {
			if v, ok := o.cells[cellKey{comp, ref}]; ok {
				return v
			}
			return x.zeroCell(comp)
		}
		x.materialise(st, root)
	}
	return x.tb.Select(x.comp(st, comp), ref)
}

func (x *Exec) zeroCell(comp string) *Term {
	so := x.sorts[comp]
	_, v := splitArr(so)
	if strings.HasPrefix(comp, "MD!") {
		k, _ := splitArr(v)
		return x.tb.ConstArr(k, x.tb.False())
	}
	if strings.HasPrefix(v, "(Array ") {
		return x.tb.Const(sym("anyarr!"+comp), v)
	}
	if comp == "BC" {
		return x.tb.Fresh("bc", "Str")
	}
	return x.zeroSort(v)
}

func (x *Exec) wr(st *State, comp string, ref, v *Term) {
	root := rootOf(ref)
	if o, ok := st.objs[root]; ok {
		if exactPath(ref) {
			n := &VObj{root: o.root, t: o.t, n: o.n, isArr: o.isArr, cells: make(map[cellKey]*Term, len(o.cells)+1)}
			for k, c := range o.cells {
				n.cells[k] = c
			}
			n.cells[cellKey{comp, ref}] = v
			st.objs[root] = n
			return
		}
		x.materialise(st, root)
	}
	st.comps[comp] = x.tb.Store(x.comp(st, comp), ref, v)
}

// materialise turns a virtual object into ordinary heap contents: its cells
// have never been constrained before, so their contents are assumed.
func (x *Exec) materialise(st *State, root *Term) {
	o, ok := st.objs[root]
	if !ok {
		return
	}
	delete(st.objs, root)
	tb := x.tb
	seen := map[cellKey]bool{}
	var keys []cellKey
	for k := range o.cells {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].comp != keys[j].comp {
			return keys[i].comp < keys[j].comp
		}
		return keys[i].ref.id < keys[j].ref.id
	})
	for _, k := range keys {
		seen[k] = true
		x.assume(tb.Eq(tb.Select(x.comp(st, k.comp), k.ref), o.cells[k]))
	}
	// zero cells
	var zero func(t types.Type, r *Term)
	zero = func(t types.Type, r *Term) {
		if s := x.w.leafSort(t); s != "" {
			if s == "Func" {
				return
			}
			c := x.memComp(t)
			if !seen[cellKey{c, r}] {
				x.assume(tb.Eq(tb.Select(x.comp(st, c), r), x.zeroOf(t).(*Term)))
			}
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				if s := x.w.leafSort(ft); s != "" {
					if s == "Func" {
						continue
					}
					c := x.fieldComp(t, i)
					if !seen[cellKey{c, r}] {
						x.assume(tb.Eq(tb.Select(x.comp(st, c), r), x.zeroOf(ft).(*Term)))
					}
				} else {
					zero(ft, tb.SubR(r, int64(i)))
				}
			}
		case *types.Array:
			for i := int64(0); i < u.Len(); i++ {
				zero(u.Elem(), tb.Elt(r, tb.Int(i)))
			}
		}
	}
	if o.t != nil {
		if m, ok := o.t.Underlying().(*types.Map); ok {
			mi := x.mapInfo(m)
			if !seen[cellKey{mi.md, root}] {
				x.assume(tb.Eq(tb.Select(x.comp(st, mi.md), root), x.zeroCell(mi.md)))
			}
		} else if o.isArr {
			for i := int64(0); i < o.n; i++ {
				zero(o.t, tb.Elt(root, tb.Int(i)))
			}
		} else {
			zero(o.t, root)
		}
	}
	// anything reachable from it has escaped too
	for _, k := range keys {
		x.escapeTerm(st, o.cells[k])
	}
}

// escapeTerm materialises every virtual object mentioned in t
func (x *Exec) escapeTerm(st *State, t *Term) {
	if len(st.objs) == 0 {
		return
	}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" && t.name == "obj" {
			if _, ok := st.objs[t]; ok {
				x.materialise(st, t)
			}
			return
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(t)
}

func (x *Exec) escapeVal(st *State, v Val) {
	switch y := v.(type) {
	case *Term:
		x.escapeTerm(st, y)
	case *Comp:
		for _, f := range y.f {
			x.escapeVal(st, f)
		}
	case Tuple:
		for _, f := range y {
			x.escapeVal(st, f)
		}
	}
}

func (x *Exec) materialiseAll(st *State) {
	for {
		var roots []*Term
		for r := range st.objs {
			roots = append(roots, r)
		}
		if len(roots) == 0 {
			return
		}
		sort.Slice(roots, func(i, j int) bool { return roots[i].id < roots[j].id })
		x.materialise(st, roots[0])
	}
}

func (x *Exec) newRef(st *State) *Term {
	r := x.tb.Obj(st.alloc)
	st.alloc = x.tb.Add(st.alloc, x.tb.Int(1))
	return r
}

func (x *Exec) newObj(st *State, t types.Type) *Term {
	r := x.newRef(st)
	st.objs[r] = &VObj{root: r, t: t, cells: map[cellKey]*Term{}}
	return r
}

func (x *Exec) newArr(st *State, et types.Type, n int64) *Term {
	r := x.newRef(st)
	st.objs[r] = &VObj{root: r, t: et, n: n, isArr: true, cells: map[cellKey]*Term{}}
	return r
}

// ---- typed load / store ----

func (x *Exec) loadAt(st *State, ref *Term, t types.Type) Val {
	if s := x.w.leafSort(t); s != "" {
		if s == "Func" {
			return x.tb.Fresh("fn", "Int")
		}
		v := x.rd(st, x.memComp(t), ref)
		x.valFacts(st, v, t)
		return v
	}
	c := &Comp{t: t}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if s := x.w.leafSort(ft); s != "" {
				if s == "Func" {
					c.f = append(c.f, x.tb.Int(0))
					continue
				}
				v := x.rd(st, x.fieldComp(t, i), ref)
				x.valFacts(st, v, ft)
				c.f = append(c.f, v)
			} else {
				c.f = append(c.f, x.loadAt(st, x.tb.SubR(ref, int64(i)), ft))
			}
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			c.f = append(c.f, x.loadAt(st, x.tb.Elt(ref, x.tb.Int(i)), u.Elem()))
		}
	}
	return c
}

func (x *Exec) storeAt(st *State, ref *Term, t types.Type, v Val) {
	if s := x.w.leafSort(t); s != "" {
		if s == "Func" {
			return
		}
		x.wr(st, x.memComp(t), ref, x.leaf(v))
		x.escIfHeap(st, ref, v)
		return
	}
	c := v.(*Comp)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if s := x.w.leafSort(ft); s != "" {
				if s == "Func" {
					continue
				}
				x.wr(st, x.fieldComp(t, i), ref, x.leaf(c.f[i]))
				x.escIfHeap(st, ref, c.f[i])
			} else {
				x.storeAt(st, x.tb.SubR(ref, int64(i)), ft, c.f[i])
			}
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			x.storeAt(st, x.tb.Elt(ref, x.tb.Int(i)), u.Elem(), c.f[i])
		}
	}
}

// escIfHeap: a value stored into ordinary (non virtual) memory escapes
func (x *Exec) escIfHeap(st *State, ref *Term, v Val) {
	if _, ok := st.objs[rootOf(ref)]; !ok {
		x.escapeVal(st, v)
	}
}

func (x *Exec) leaf(v Val) *Term {
	switch y := v.(type) {
	case *Term:
		return y
	case *Clo:
		return x.tb.Const(sym("fn!"+y.fn.String()), "Int")
	case *Addr:
		panic(unsupported("address of a scalar field or local escapes"))
	}
	panic(fmt.Sprintf("leaf: %T", v))
}

// valFacts: typing facts about a freshly read value
func (x *Exec) valFacts(st *State, v *Term, t types.Type) {
	if v.op == "app" && (v.name == "obj" || v.name == "null" || v.name == "mksl" || v.name == "mkif") {
		return
	}
	switch v.sort {
	case "Ref", "Slice":
	default:
		return
	}
	if v.hasB {
		return
	}
	k := factKey{v, st.alloc}
	if x.facted[k] {
		return
	}
	x.facted[k] = true
	x.remember(func() { delete(x.facted, k) })
	tb := x.tb
	switch v.sort {
	case "Ref":
		x.assume(tb.Lt(tb.Rid(v), st.alloc))
	case "Slice":
		x.assume(tb.And(tb.Lt(tb.Rid(tb.SArr(v)), st.alloc), x.wfSlice(v)))
	}
}

type factKey struct {
	v *Term
	a *Term
}

func (x *Exec) zeroSort(s string) *Term {
	tb := x.tb
	switch s {
	case "Int":
		return tb.Int(0)
	case "Bool":
		return tb.False()
	case "Str":
		return tb.Str("")
	case "Ref":
		return tb.Null()
	case "Slice":
		return tb.NilSl()
	case "Iface":
		return tb.NilIf()
	case "Func":
		return tb.Int(0)
	case "Float":
		x.tb.DeclSort("Float")
		return tb.Fn("i2f", "Float", tb.Int(0))
	}
	x.declSort(s)
	return tb.Const(sym("zero!"+s), s)
}

func (x *Exec) zeroOf(t types.Type) Val {
	if s := x.w.leafSort(t); s != "" {
		if isByteArr(t) {
			return x.tb.Const(sym("zerobytes!"+tstr(t)), "Str")
		}
		return x.zeroSort(s)
	}
	c := &Comp{t: t}
	for _, ft := range x.w.fieldTypes(t) {
		c.f = append(c.f, x.zeroOf(ft))
	}
	return c
}

// freshVal creates an arbitrary value of type t
func (x *Exec) freshVal(st *State, hint string, t types.Type) Val {
	if s := x.w.leafSort(t); s != "" {
		x.declSort(s)
		if s == "Func" {
			return x.tb.Fresh(hint, "Int")
		}
		v := x.tb.Fresh(hint, s)
		x.valFacts(st, v, t)
		if s == "Int" {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				x.assume(x.tb.Le(x.tb.Int(0), v))
			}
		}
		if s == "Iface" {
			x.assume(x.tb.Le(x.tb.Int(0), x.tb.App("itid", "Int", v)))
			x.assume(x.tb.Imp(x.tb.Eq(x.tb.App("itid", "Int", v), x.tb.Int(0)), x.tb.Eq(v, x.tb.NilIf())))
		}
		return v
	}
	if tu, ok := t.(*types.Tuple); ok {
		var r Tuple
		for i := 0; i < tu.Len(); i++ {
			r = append(r, x.freshVal(st, fmt.Sprintf("%s.%d", hint, i), tu.At(i).Type()))
		}
		return r
	}
	c := &Comp{t: t}
	for i, ft := range x.w.fieldTypes(t) {
		c.f = append(c.f, x.freshVal(st, fmt.Sprintf("%s.%d", hint, i), ft))
	}
	return c
}

// ---- interfaces ----

func (x *Exec) tid(t types.Type) *Term {
	k := types.TypeString(t, nil)
	if n, ok := x.tids[k]; ok {
		return x.tb.Int(n)
	}
	n := int64(len(x.tids) + 1)
	x.tids[k] = n
	x.tidT[n] = t
	return x.tb.Int(n)
}

func (x *Exec) boxName(t types.Type) string { return sym("box." + types.TypeString(t, shortQual)) }
func (x *Exec) unboxName(t types.Type, i int) string {
	return sym(fmt.Sprintf("unbox.%s.#%d", types.TypeString(t, shortQual), i))
}

func (x *Exec) mkIface(v Val, t types.Type) *Term {
	tid := x.tid(t)
	ls := x.w.leaves(t)
	var ts []*Term
	if cl, ok := v.(*Clo); ok {
		ts = []*Term{x.leaf(cl)}
	} else {
		ts = x.w.flatten(v, t)
	}
	bn := x.boxName(t)
	if len(ls) == 0 {
		return x.tb.App("mkif", "Iface", tid, x.tb.Fn(bn, "Box"))
	}
	if b := x.reboxed(ts, t); b != nil {
		return x.tb.App("mkif", "Iface", tid, b)
	}
	b := x.tb.Fn(bn, "Box", ts...)
	if !x.boxAx[bn] {
		x.boxAx[bn] = true
		var vs []*Term
		for i, a := range ts {
			vs = append(vs, x.tb.BVar(fmt.Sprintf("b%d", i), a.sort))
		}
		bt := x.tb.Fn(bn, "Box", vs...)
		var cs []*Term
		for i, a := range vs {
			cs = append(cs, x.tb.mk("=", "", 0, "Bool", x.tb.Fn(x.unboxName(t, i), a.sort, bt), a))
		}
		// built raw so that the simplifier does not fold it away
		if !(len(cs) == 0) {
			raw := x.rawBoxAxiom(t, vs, bt)
			x.sol.Axiom(raw)
		}
	}
	return x.tb.App("mkif", "Iface", tid, b)
}

// reboxed: boxing the unboxed payload of b gives b back. Every payload sort is
// countably infinite (finite types are excluded), so boxing can be read as a
// bijection per type without contradiction.
func (x *Exec) reboxed(ts []*Term, t types.Type) *Term {
	var b *Term
	inf := false
	for i, u := range ts {
		if u.op != "app" || u.name != x.unboxName(t, i) || len(u.args) != 1 || b != nil && u.args[0] != b {
			return nil
		}
		switch u.sort {
		case "Int", "Ref", "Slice", "String", "Iface", "Str":
			inf = true
		case "Bool":
		default:
			return nil
		}
		b = u.args[0]
	}
	if !inf {
		return nil
	}
	return b
}

func (x *Exec) rawBoxAxiom(t types.Type, vs []*Term, bt *Term) *Term {
	tb := x.tb
	var cs []*Term
	for i, a := range vs {
		un := x.unboxName(t, i)
		tb.Fn(un, a.sort, bt) // declare
		u := tb.mk("app", un, 0, a.sort, bt)
		u.hasB = true
		e := tb.mk("=", "", 0, "Bool", u, a)
		e.hasB = true
		cs = append(cs, e)
	}
	body := cs[0]
	if len(cs) > 1 {
		body = tb.mk("and", "", 0, "Bool", cs...)
		body.hasB = true
	}
	return tb.Forall(vs, body, bt)
}

func (x *Exec) unboxVal(i *Term, t types.Type) Val {
	b := x.tb.App("ibox", "Box", i)
	var ts []*Term
	for j, l := range x.w.leaves(t) {
		s := x.w.leafSort(l)
		if s == "Func" {
			s = "Int"
		}
		x.declSort(s)
		ts = append(ts, x.unboxLeaf(b, t, j, s))
	}
	v, _ := x.w.unflatten(ts, t)
	return v
}

func (x *Exec) unboxLeaf(b *Term, t types.Type, j int, s string) *Term {
	un := x.unboxName(t, j)
	if b.op == "app" && b.name == x.boxName(t) && j < len(b.args) {
		return b.args[j]
	}
	if b.op == "ite" {
		return x.tb.Ite(b.args[0], x.unboxLeaf(b.args[1], t, j, s), x.unboxLeaf(b.args[2], t, j, s))
	}
	return x.tb.Fn(un, s, b)
}
