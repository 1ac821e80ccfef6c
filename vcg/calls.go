package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type kont func(st *State, fr *Frame, v Val)

func (x *Exec) doCall(st *State, fr *Frame, in ssa.Value, call *ssa.CallCommon, pos token.Pos, k kont) {
	var fnv Val
	if _, ok := call.Value.(*ssa.Builtin); !ok {
		fnv = x.val(fr, call.Value)
	}
	args := make([]Val, len(call.Args))
	for i, a := range call.Args {
		args[i] = x.val(fr, a)
	}
	x.callWith(st, fr, call, fnv, args, pos, k)
}

func (x *Exec) callWith(st *State, fr *Frame, call *ssa.CallCommon, fnv Val, args []Val, pos token.Pos, k kont) {
	tb := x.tb
	if b, ok := call.Value.(*ssa.Builtin); ok {
		x.builtin(st, fr, b.Name(), call, args, pos, k)
		return
	}
	if call.IsInvoke() {
		rc := fnv.(*Term)
		x.safe(st, fr, "nil interface call", tb.Not(tb.Eq(tb.App("itid", "Int", rc), tb.Int(0))), pos)
		x.invoke(st, fr, call, rc, args, pos, k)
		return
	}
	if c, ok := fnv.(*Clo); ok {
		x.callFn(st, fr, c, args, pos, k)
		return
	}
	panic(unsupported("call through a function value"))
}

func (x *Exec) invoke(st *State, fr *Frame, call *ssa.CallCommon, rc *Term, args []Val, pos token.Pos, k kont) {
	tid := x.tb.App("itid", "Int", rc)
	if tid.op == "int" && tid.n > 0 {
		T := x.tidT[tid.n]
		sel := x.w.prog.MethodSets.MethodSet(T).Lookup(call.Method.Pkg(), call.Method.Name())
		if sel == nil {
			panic(unsupported("method " + call.Method.Name() + " of " + T.String()))
		}
		m := x.w.prog.MethodValue(sel)
		recv := x.unboxVal(rc, T)
		x.callFn(st, fr, &Clo{fn: m}, append([]Val{recv}, args...), pos, k)
		return
	}
	// contract of the interface method
	it := call.Value.Type()
	key := tstr(it) + "." + call.Method.Name()
	if call.Method.Pkg() == nil {
		key = "error." + call.Method.Name()
	}
	c := x.ss.Contracts[key]
	sig := call.Method.Type().(*types.Signature)
	if c == nil {
		// the method may be declared by an embedded interface
		if r := sig.Recv(); r != nil {
			c = x.ss.Contracts[tstr(r.Type())+"."+call.Method.Name()]
		}
	}
	if c == nil {
		if key == "error.Error" {
			k(st, fr, x.tb.Fn("errstr", "Str", rc))
			return
		}
		panic(unsupported("no contract for interface method " + key))
	}
	x.usedX[c.Name] = true
	pts := []types.Type{it}
	for i := 0; i < sig.Params().Len(); i++ {
		pts = append(pts, sig.Params().At(i).Type())
	}
	x.applyContract(st, fr, c, key, pts, sig.Results(), append([]Val{rc}, args...), nil, c.Pkg, pos, k)
}

func sigTypes(fn *ssa.Function) []types.Type {
	var pts []types.Type
	if r := fn.Signature.Recv(); r != nil {
		pts = append(pts, r.Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		pts = append(pts, fn.Signature.Params().At(i).Type())
	}
	return pts
}

func fnPkg(fn *ssa.Function) *types.Package {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func (x *Exec) callFn(st *State, fr *Frame, c *Clo, args []Val, pos token.Pos, k kont) {
	fn := c.fn
	full := fn.String()
	if o := fn.Origin(); o != nil {
		full = o.String()
	}
	if h, ok := intrinsics[full]; ok {
		h(x, st, fr, fn, args, pos, k)
		return
	}
	pkg := fnPkg(fn)
	key := rawKey(fn)
	if inRepo(pkg) {
		if ct := x.contractOf(fn); ct != nil && !ct.Inline && !x.inlineOnly(ct) {
			if x.importOnly(ct) {
				x.usedImp["frame of "+key+" (proved by the checks of "+provers(ct.Clauses...)+")"] = true
			} else {
				x.usedC[key] = true
				x.usedFn[fnKey(fn)] = true
			}
			x.applyContract(st, fr, ct, fnKey(fn), sigTypes(fn), fn.Signature.Results(), args, typeSub(fn), ct.Pkg, pos, k)
			return
		}
	}
	if ct := x.ss.Contracts[key]; ct != nil && ct.Extern && !inRepo(pkg) {
		x.usedX[key] = true
		x.applyContract(st, fr, ct, key, sigTypes(fn), fn.Signature.Results(), args, typeSub(fn), ct.Pkg, pos, k)
		return
	}
	if inRepo(pkg) || fn.Synthetic != "" && len(fn.Blocks) > 0 && pkg == nil || inlineExt[full] {
		x.inline(st, fr, c, args, pos, k)
		return
	}
	if pkg != nil && purePkg[pkg.Path()] {
		x.usedX["pure:"+key] = true
		rs := x.pureCall(st, fn, args)
		if len(rs) == 1 {
			k(st, fr, rs[0])
		} else {
			k(st, fr, Tuple(rs))
		}
		return
	}
	panic(unsupported("no contract for " + full))
}

// inlineOnly: a contract without any clause relevant to the current check
// provers lists the properties whose checks prove the clauses.
func provers(cls ...*Clause) string {
	m := map[string]bool{}
	for _, cl := range cls {
		for _, t := range cl.tags {
			if cl.kind == "ensures" && t[0] != '~' && t[0] != '^' {
				m[t] = true
			}
		}
	}
	var l []string
	for t := range m {
		l = append(l, t)
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func (x *Exec) inlineOnly(c *Contract) bool {
	for _, cl := range c.Clauses {
		if cl.kind != "hint" && x.tagOK(cl.tags) {
			return false
		}
	}
	return !c.Trusted
}

var inlineExt = map[string]bool{}

func (x *Exec) inline(st *State, fr *Frame, c *Clo, args []Val, pos token.Pos, k kont) {
	fn := c.fn
	for _, f := range x.stack {
		if f == fn {
			panic(unsupported("recursive call of " + fn.String() + " without contract"))
		}
	}
	if len(x.stack) > 14 {
		panic(unsupported("inlining depth"))
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	x.inlined[fnKey(fn)] = true
	nf := &Frame{id: &FrameID{fn}, fn: fn, env: map[ssa.Value]Val{}, c: x.ss.Contracts[rawKey(fn)], up: fr}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		nf.env[f] = c.binds[i]
	}
	x.stack = append(x.stack, fn)
	saved := x.stack
	nf.ret = func(st *State, rs []Val) {
		old := x.stack
		x.stack = saved[: len(saved)-1 : len(saved)-1]
		f2 := fr.clone()
		switch len(rs) {
		case 0:
			k(st, f2, nil)
		case 1:
			k(st, f2, rs[0])
		default:
			k(st, f2, Tuple(rs))
		}
		x.stack = old
	}
	x.enterFn(st, nf)
	x.stack = saved[: len(saved)-1 : len(saved)-1]
}

// ---- contracts ----

type mref struct {
	comp string
	ref  *Term
	pred func(r *Term) *Term
	all  bool
}

func (x *Exec) modset(c *Ctx, n *Node) []mref {
	var out []mref
	tb := x.tb
	cells := func(t types.Type, r *Term) {
		for _, ec := range x.elemComps(t) {
			out = append(out, mref{comp: ec.comp, ref: ec.at(tb, r)})
		}
	}
	switch n.k {
	case "sel":
		b := c.eval(n.kids[0])
		if b.t == nil {
			sfail("modifies: bad base")
		}
		ref, st := b.ref, b.t
		if et, ok := isPtrStruct(b.t); ok {
			ref, st = c.force(b).v.(*Term), et
		}
		i, f := c.lookupField(st, n.s)
		if f == nil || ref == nil {
			sfail("modifies: no field %s", n.s)
		}
		if x.w.leafSort(f.Type()) != "" {
			return []mref{{comp: x.fieldComp(st, i), ref: ref}}
		}
		cells(f.Type(), tb.SubR(ref, int64(i)))
		return out
	case "un":
		if n.s == "*" {
			v := c.force(c.eval(n.kids[0]))
			p := v.t.Underlying().(*types.Pointer)
			cells(p.Elem(), v.v.(*Term))
			return out
		}
	case "ident":
		if g, ok := x.ss.GVars[n.s]; ok {
			c.gvar(c.st, g)
			return []mref{{comp: "G!" + n.s, all: true}}
		}
		if v := c.ident(n.s); v.ref != nil || v.t != nil {
			// package variable
			if o := c.pkg.Scope().Lookup(n.s); o != nil {
				if g := x.w.pkgs[c.pkg.Path()].Var(n.s); g != nil {
					cells(o.Type(), x.globalRef(g))
					return out
				}
			}
		}
	case "call":
		nm := n.kids[0].s
		v := c.force(c.eval(n.kids[1]))
		t, _ := v.v.(*Term)
		switch nm {
		case "map":
			mi := x.mapInfo(v.t)
			out = append(out, mref{comp: mi.md, ref: t})
			for _, m := range mi.mv {
				out = append(out, mref{comp: m, ref: t})
			}
			return out
		case "elems":
			arr := tb.SArr(t)
			et := v.t.Underlying().(*types.Slice).Elem()
			if isByte(et) {
				return []mref{{comp: x.bcComp(), ref: arr}}
			}
			for _, ec := range x.elemComps(et) {
				out = append(out, mref{comp: ec.comp, pred: func(r *Term) *Term { return tb.Eq(tb.Rid(r), tb.Rid(arr)) }})
			}
			return out
		case "allmaps": // every map of this type
			mi := x.mapInfo(v.t)
			out = append(out, mref{comp: mi.md, all: true})
			for _, m := range mi.mv {
				out = append(out, mref{comp: m, all: true})
			}
			return out
		case "all": // every object of this pointer's element type
			p := v.t.Underlying().(*types.Pointer)
			for _, ec := range x.elemComps(p.Elem()) {
				out = append(out, mref{comp: ec.comp, all: true})
			}
			return out
		}
	}
	sfail("bad modifies clause %s", nodeStr(n))
	return nil
}

func (x *Exec) withSub(sub map[string]types.Type, f func()) {
	old := x.tsub
	if sub != nil {
		x.tsub = sub
	}
	defer func() { x.tsub = old }()
	f()
}

func (x *Exec) applyContract(st *State, fr *Frame, c *Contract, name string, pts []types.Type, res *types.Tuple, args []Val, sub map[string]types.Type, pkg string, pos token.Pos, k kont) {
	tb := x.tb
	for _, a := range args {
		if _, ok := a.(*Addr); ok {
			panic(unsupported("address of a scalar passed to " + name))
		}
		if c.Extern && len(c.Clauses) == 0 && res.Len() == 0 {
			continue // reads and keeps nothing that the proof could see
		}
		x.escapeVal(st, a)
	}
	if len(c.Params) != len(args) {
		panic(specErr(fmt.Sprintf("contract %s: %d parameters, call has %d", c.Name, len(c.Params), len(args))))
	}
	// everything reachable may be read by the callee
	old := st.clone()
	vars := map[string]SV{}
	for i, p := range c.Params {
		vars[p] = SV{v: args[i], t: pts[i]}
	}
	tp := x.pkgOf(pkg)
	pre := &Ctx{x: x, st: st, old: old, vars: vars, pkg: tp}
	var out Val
	x.withSub(sub, func() {
		for i, cl := range c.Clauses {
			if cl.kind != "requires" || !x.tagOK(cl.tags) || !x.guardOK(cl) {
				continue
			}
			t := pre.boolT(cl.e)
			x.oblige(st, fmt.Sprintf("%s/call %s/requires#%d", fnKey(x.root), name, i), "precondition", cl.src, cl.tags, t, pos)
		}
		// frame
		for _, cl := range c.Clauses {
			if cl.kind != "modifies" || !x.tagOK(cl.tags) || !x.guardOK(cl) {
				continue
			}
			for _, m := range cl.mods {
				oc := *pre
				oc.st = old
				for _, r := range x.modset(&oc, m) {
					x.havocRef(st, r)
				}
			}
		}
		if !c.Extern {
			for _, v := range x.ss.Volatile {
				if _, ok := st.comps["G!"+v]; ok {
					x.havocRef(st, mref{comp: "G!" + v, all: true})
				}
			}
		}
		if !c.Pure {
			na := tb.Fresh("alloc", "Int")
			x.assume(tb.Le(st.alloc, na))
			st.alloc = na
		}
		// results
		rnames := c.Results
		var rts []types.Type
		for i := 0; i < res.Len(); i++ {
			rts = append(rts, res.At(i).Type())
		}
		for i := len(rnames); i < len(rts); i++ {
			if len(rts) == 1 {
				rnames = append(rnames, "result")
			} else {
				rnames = append(rnames, fmt.Sprintf("result%d", i))
			}
		}
		isRes := map[string]int{}
		for i, n := range rnames {
			if i < len(rts) {
				isRes[n] = i
			}
		}
		post := &Ctx{x: x, st: st, old: old, vars: map[string]SV{}, pkg: tp}
		for n, v := range vars {
			post.vars[n] = v
		}
		done := map[*Clause]bool{}
		gdone := map[string]bool{}
		vals := make([]Val, len(rts))
		var ens []*Clause
		for _, cl := range c.Clauses {
			if (cl.kind == "ensures" || cl.kind == "defines") && x.tagOK(cl.tags) && x.guardOK(cl) {
				if x.imported(cl.tags) {
					x.usedImp["clause of "+name+": "+cl.src+" (proved by the checks of "+provers(cl)+")"] = true
				}
				if cl.kind == "defines" {
					x.usedX["ghost definition at "+name+": "+cl.src] = true
				}
				ens = append(ens, conjuncts(cl)...)
			}
		}
		for _, cl := range ens {
			e := cl.e
			// fresh(r) for a byte slice: a new buffer with unknown content
			if e.k == "call" && e.kids[0].k == "ident" && e.kids[0].s == "fresh" && len(e.kids) == 2 && e.kids[1].k == "ident" {
				if i, ok := isRes[e.kids[1].s]; ok && vals[i] == nil && isByteSlice(rts[i]) {
					vals[i] = x.newBytes(st, tb.Fresh("content", "Str"))
					done[cl] = true
				}
			}
			// ghost assignments: g == expr
			if e.k == "bin" && e.s == "==" && e.kids[0].k == "ident" && !mentions(e.kids[1], isRes) {
				if g, ok := x.ss.GVars[e.kids[0].s]; ok && c.modsGVar(g.Name) && !gdone[g.Name] && onlyOld(e.kids[1], g.Name) {
					gdone[g.Name] = true
					v := post.force(post.eval(e.kids[1]))
					if t, ok := v.v.(*Term); ok {
						st.comps["G!"+g.Name] = t
						done[cl] = true
					}
				}
			}
		}
		// defining clauses: result == expr, err == nil <==> P
		for _, cl := range ens {
			if done[cl] {
				continue
			}
			e := cl.e
			if e.k == "bin" && e.s == "==" && e.kids[0].k == "ident" {
				if i, ok := isRes[e.kids[0].s]; ok && vals[i] == nil && !mentions(e.kids[1], isRes) && e.kids[1].k != "ident" {
					v := post.force(post.eval(e.kids[1]))
					if v.v != nil {
						vals[i] = v.v
						done[cl] = true
					}
				} else if ok && vals[i] == nil && e.kids[1].k == "ident" && e.kids[1].s != "nil" && !mentions(e.kids[1], isRes) {
					v := post.force(post.eval(e.kids[1]))
					if v.v != nil && x.w.leafSort(rts[i]) != "" && sameSort(v.v, x.w.leafSort(rts[i])) {
						vals[i] = v.v
						done[cl] = true
					}
				}
			}
			if e.k == "bin" && e.s == "<==>" {
				l := e.kids[0]
				if l.k == "ident" { // bool result
					if i, ok := isRes[l.s]; ok && vals[i] == nil && !mentions(e.kids[1], isRes) {
						vals[i] = post.boolT(e.kids[1])
						done[cl] = true
					}
				}
				if l.k == "bin" && l.s == "==" && l.kids[0].k == "ident" && l.kids[1].k == "ident" && l.kids[1].s == "nil" {
					if i, ok := isRes[l.kids[0].s]; ok && vals[i] == nil && x.w.leafSort(rts[i]) == "Iface" && !mentions(e.kids[1], isRes) {
						p := post.boolT(e.kids[1])
						ev := tb.App("mkif", "Iface", tb.FreshPos("errtid"), tb.Fresh("errbox", "Box"))
						vals[i] = tb.Ite(p, tb.NilIf(), ev)
						done[cl] = true
					}
				}
			}
		}
		for i, t := range rts {
			if vals[i] == nil {
				vals[i] = x.freshVal(st, c.short()+"."+rnames[i], t)
			}
			x.deepFacts(st, vals[i], t)
			post.vars[rnames[i]] = SV{v: vals[i], t: t}
		}
		for _, cl := range ens {
			if done[cl] {
				continue
			}
			x.assume(post.boolT(cl.e))
		}
		switch len(vals) {
		case 0:
		case 1:
			out = vals[0]
		default:
			out = Tuple(vals)
		}
	})
	st.trace = append(st.trace, "call "+c.short())
	k(st, fr, out)
}

func sameSort(v Val, s string) bool {
	t, ok := v.(*Term)
	return ok && t.sort == s
}

func (c *Contract) short() string {
	n := c.Name
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func mentions(n *Node, names map[string]int) bool {
	if n == nil {
		return false
	}
	if n.k == "ident" {
		if _, ok := names[n.s]; ok {
			return true
		}
	}
	for _, k := range n.kids {
		if mentions(k, names) {
			return true
		}
	}
	for _, b := range n.bs {
		if b.in != nil && mentions(b.in, names) {
			return true
		}
	}
	return false
}

func (x *Exec) havocRef(st *State, r mref) {
	tb := x.tb
	old := x.comp(st, r.comp)
	if strings.HasPrefix(r.comp, "G!") {
		st.comps[r.comp] = tb.Fresh(r.comp, old.sort)
		return
	}
	_, vs := splitArr(old.sort)
	if r.ref != nil {
		f := tb.Fresh("mod", vs)
		if st.objs[rootOf(r.ref)] != nil {
			x.materialise(st, rootOf(r.ref))
			old = x.comp(st, r.comp)
		}
		st.comps[r.comp] = tb.Store(old, r.ref, f)
		x.cellFactsLater(st, r.comp, f)
		return
	}
	n := tb.Fresh("M."+r.comp, old.sort)
	if !r.all {
		q := tb.BVar("r", "Ref")
		cell := tb.Select(n, q)
		x.assume(tb.Forall([]*Term{q}, tb.Imp(tb.Not(r.pred(q)), tb.Eq(cell, tb.Select(old, q))), cell))
	}
	if strings.HasPrefix(r.comp, "MD!") {
		_, v := splitArr(n.sort)
		k, _ := splitArr(v)
		x.assume(tb.Eq(tb.Select(n, tb.Null()), tb.ConstArr(k, tb.False())))
	}
	st.comps[r.comp] = n
}

func (x *Exec) cellFactsLater(st *State, comp string, f *Term) {}

// ---- builtins ----

func (x *Exec) lenOf(st *State, v *Term, t types.Type) *Term {
	switch v.sort {
	case "Slice":
		return x.tb.SLen(v)
	case "Str":
		if a, ok := t.Underlying().(*types.Array); ok {
			return x.tb.Int(a.Len())
		}
		return x.strlen(v)
	case "Ref":
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return x.tb.Int(p.Elem().Underlying().(*types.Array).Len())
		}
		mi := x.mapInfo(t)
		return x.card(x.rd(st, mi.md, v))
	}
	panic(unsupported("len"))
}

func (x *Exec) builtin(st *State, fr *Frame, name string, call *ssa.CallCommon, args []Val, pos token.Pos, k kont) {
	tb := x.tb
	switch name {
	case "len":
		t := call.Args[0].Type()
		if c, ok := args[0].(*Comp); ok {
			k(st, fr, tb.Int(int64(len(c.f))))
			return
		}
		k(st, fr, x.lenOf(st, args[0].(*Term), t))
	case "cap":
		k(st, fr, tb.SCap(args[0].(*Term)))
	case "delete":
		m := args[0].(*Term)
		mi := x.mapInfo(call.Args[0].Type())
		key := x.leaf(args[1])
		x.wr(st, mi.md, m, tb.Store(x.rd(st, mi.md, m), key, tb.False()))
		// convention: values outside the domain are zero (see Ctx.mapVal)
		for i, c := range mi.mv {
			if z, ok := x.zeroOf(mi.lv[i]).(*Term); ok {
				x.wr(st, c, m, tb.Store(x.rd(st, c, m), key, z))
			}
		}
		k(st, fr, nil)
	case "append":
		k(st, fr, x.appendSl(st, args[0].(*Term), args[1].(*Term), call.Args[0].Type().Underlying().(*types.Slice).Elem()))
	case "ssa:wrapnilchk":
		x.nonNil(st, fr, args[0].(*Term), "nil dereference", pos)
		k(st, fr, args[0])
	case "min", "max":
		a, b := args[0].(*Term), args[1].(*Term)
		if a.sort != "Int" || len(args) != 2 {
			panic(unsupported(name))
		}
		if name == "min" {
			k(st, fr, tb.Ite(tb.Le(a, b), a, b))
		} else {
			k(st, fr, tb.Ite(tb.Le(a, b), b, a))
		}
	case "clear":
		m := args[0].(*Term)
		mi := x.mapInfo(call.Args[0].Type())
		x.wr(st, mi.md, m, x.zeroCell(mi.md))
		for i, c := range mi.mv {
			if z, ok := x.zeroOf(mi.lv[i]).(*Term); ok {
				x.wr(st, c, m, tb.ConstArr(mi.ks, z))
			}
		}
		k(st, fr, nil)
	case "copy":
		x.copyBuiltin(st, fr, call, args, k)
	default:
		panic(unsupported("builtin " + name))
	}
}

func (x *Exec) copyBuiltin(st *State, fr *Frame, call *ssa.CallCommon, args []Val, k kont) {
	tb := x.tb
	d, s := args[0].(*Term), args[1].(*Term)
	et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
	if !isByte(et) {
		panic(unsupported("copy of non-byte slices"))
	}
	var src *Term
	if s.sort == "Str" {
		src = s
	} else {
		src = x.content(st, s)
	}
	n := tb.Ite(tb.Le(tb.SLen(d), x.strlen(src)), tb.SLen(d), x.strlen(src))
	old := x.rd(st, x.bcComp(), tb.SArr(d))
	var nb *Term
	if tb.SOff(d).op == "int" && tb.SOff(d).n == 0 {
		nb = tb.Cat(x.bsub(src, tb.Int(0), n), x.bsub(old, n, tb.Sub(x.strlen(old), n)))
	} else {
		nb = tb.Fn("bcopy", "Str", old, tb.SOff(d), src, n)
	}
	x.wr(st, x.bcComp(), tb.SArr(d), nb)
	k(st, fr, n)
}

func (x *Exec) appendSl(st *State, s, t *Term, et types.Type) *Term {
	tb := x.tb
	if isByte(et) {
		var tc *Term
		if t.sort == "Str" {
			tc = t
		} else {
			tc = x.content(st, t)
		}
		if tc == tb.Str("") {
			return s
		}
		r := x.newBytes(st, tb.Cat(x.content(st, s), tc))
		return r
	}
	n, m := tb.SLen(s), tb.SLen(t)
	if m.op == "int" && m.n == 0 {
		return s
	}
	comps := x.elemComps(et)
	r := x.newRef(st)
	so, to := tb.SOff(s), tb.SOff(t)
	known := m.op == "int" && m.n <= 8
	if n.op == "int" && known && n.n+m.n <= 24 && so.op == "int" && to.op == "int" {
		// element-wise
		st.objs[r] = &VObj{root: r, t: et, n: n.n + m.n, isArr: true, cells: map[cellKey]*Term{}}
		for i := int64(0); i < n.n+m.n; i++ {
			var src *Term
			if i < n.n {
				src = tb.Elt(tb.SArr(s), tb.Int(so.n+i))
			} else {
				src = tb.Elt(tb.SArr(t), tb.Int(to.n+i-n.n))
			}
			for _, c := range comps {
				v := x.rd(st, c.comp, c.at(tb, src))
				x.wr(st, c.comp, c.at(tb, tb.Elt(r, tb.Int(i))), v)
			}
		}
		c := tb.Fresh("cap", "Int")
		x.assume(tb.Le(tb.Add(n, m), c))
		return tb.MkSl(r, tb.Int(0), tb.Add(n, m), c)
	}
	x.escapeTerm(st, s)
	if known && to.op == "int" {
		for j := int64(0); j < m.n; j++ {
			for _, c := range comps {
				v := x.rd(st, c.comp, c.at(tb, tb.Elt(tb.SArr(t), tb.Int(to.n+j))))
				x.escapeTerm(st, v)
				x.assume(tb.Eq(tb.Select(x.comp(st, c.comp), c.at(tb, tb.Elt(r, tb.Add(n, tb.Int(j))))), v))
			}
		}
	} else {
		x.escapeTerm(st, t)
		x.copyFact(st, comps, tb.SArr(t), to, m, r, n)
	}
	x.copyFact(st, comps, tb.SArr(s), so, n, r, tb.Int(0))
	c := tb.Fresh("cap", "Int")
	x.assume(tb.Le(tb.Add(n, m), c))
	res := tb.MkSl(r, tb.Int(0), tb.Add(n, m), c)
	if m.op != "int" {
		x.assume(tb.Le(tb.Int(0), m))
		return tb.Ite(tb.Eq(m, tb.Int(0)), s, res)
	}
	return res
}

// copyFact: cells dst[do .. do+n) equal src[so .. so+n)
func (x *Exec) copyFact(st *State, comps []elemComp, src, so, n, dst, do *Term) {
	tb := x.tb
	if n.op == "int" && n.n == 0 {
		return
	}
	v := tb.BVar("x", "Int")
	var a, b []*Term
	for _, c := range comps {
		cm := x.comp(st, c.comp)
		a = append(a, tb.Eq(tb.Select(cm, c.at(tb, tb.Elt(dst, v))), tb.Select(cm, c.at(tb, tb.Elt(src, tb.Add(tb.Sub(v, do), so))))))
		b = append(b, tb.Eq(tb.Select(cm, c.at(tb, tb.Elt(dst, tb.Add(tb.Sub(v, so), do)))), tb.Select(cm, c.at(tb, tb.Elt(src, v)))))
	}
	x.assume(tb.Forall([]*Term{v}, tb.Imp(tb.And(tb.Le(do, v), tb.Lt(v, tb.Add(do, n))), tb.And(a...)), tb.Elt(dst, v)))
	x.assume(tb.Forall([]*Term{v}, tb.Imp(tb.And(tb.Le(so, v), tb.Lt(v, tb.Add(so, n))), tb.And(b...)), tb.Elt(src, v)))
}

// ---- pure external functions ----

var purePkg = map[string]bool{
	"strings": true, "strconv": true, "encoding/hex": true, "path": true, "path/filepath": true, "net/url": true,
	"crypto/sha256": true, "crypto/sha512": true, "encoding/base64": true, "time": true, "unicode/utf8": true, "bytes": true, "math": true, "math/bits": true, "encoding/binary": true,
}

func (x *Exec) pureArgs(st *State, args []Val, pts []types.Type) []*Term {
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.pureArg(st, a, pts[i])...)
	}
	return ts
}

func (x *Exec) pureArg(st *State, a Val, t types.Type) []*Term {
	tb := x.tb
	switch v := a.(type) {
	case *Term:
		switch v.sort {
		case "Slice":
			et := t.Underlying().(*types.Slice).Elem()
			if isByte(et) {
				return []*Term{x.content(st, v)}
			}
			n := tb.SLen(v)
			if n.op == "int" && n.n <= 16 && x.w.leafSort(et) != "" {
				var ts []*Term
				for i := int64(0); i < n.n; i++ {
					r := tb.Elt(tb.SArr(v), tb.Add(tb.SOff(v), tb.Int(i)))
					ts = append(ts, x.rd(st, x.memComp(et), r))
				}
				return ts
			}
			panic(unsupported("slice argument of a pure function"))
		case "Ref":
			panic(unsupported("pointer argument of a pure function"))
		}
		return []*Term{v}
	case *Comp:
		var ts []*Term
		for i, ft := range x.w.fieldTypes(t) {
			ts = append(ts, x.pureArg(st, v.f[i], ft)...)
		}
		return ts
	}
	panic(unsupported("argument of a pure function"))
}

func (x *Exec) pureCall(st *State, fn *ssa.Function, args []Val) []Val {
	pts := sigTypes(fn)
	ts := x.pureArgs(st, args, pts)
	name := "p." + rawKey(fn)
	if len(ts) != len(pts) {
		name += fmt.Sprintf("/%d", len(ts))
	}
	var out []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		out = append(out, x.pureRes(st, fmt.Sprintf("%s#%d", name, i), ts, res.At(i).Type()))
	}
	return out
}

func (x *Exec) pureRes(st *State, name string, ts []*Term, t types.Type) Val {
	tb := x.tb
	so := x.w.leafSort(t)
	switch {
	case so == "Slice":
		et := t.Underlying().(*types.Slice).Elem()
		if isByte(et) {
			return x.newBytes(st, x.ufApp(name, "Str", ts))
		}
		if x.w.leafSort(et) == "" {
			panic(unsupported("result of pure function " + name))
		}
		if name == "p.strings.Split#0" {
			name = "g.split"
		}
		ln, at := name+".len", name+".at"
		if name == "g.split" {
			ln, at = "g.splitLen", "g.splitAt"
		}
		n := x.ufApp(ln, "Int", ts)
		x.assume(tb.Le(tb.Int(0), n))
		r := x.newRef(st)
		v := tb.BVar("i", "Int")
		cell := tb.Select(x.comp(st, x.memComp(et)), tb.Elt(r, v))
		val := tb.Fn(sym(at), x.w.leafSort(et), append(append([]*Term{}, ts...), v)...)
		x.assume(tb.Forall([]*Term{v}, tb.Imp(tb.And(tb.Le(tb.Int(0), v), tb.Lt(v, n)), tb.Eq(cell, val)), tb.Elt(r, v)))
		return tb.MkSl(r, tb.Int(0), n, n)
	case so == "Ref" || so == "Func":
		panic(unsupported("pointer result of pure function " + name))
	case so == "":
		if tu, ok := t.(*types.Tuple); ok {
			_ = tu
		}
		panic(unsupported("composite result of pure function " + name))
	}
	x.declSort(so)
	v := x.ufApp(name, so, ts)
	if so == "Iface" {
		x.ifaceFacts(v)
	}
	if so == "Int" {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			x.assumeOnce(tb.Le(tb.Int(0), v))
		}
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		x.assumeOnce(tb.Eq(tb.App("strlen", "Int", v), tb.Int(a.Len())))
	}
	return v
}

func (x *Exec) assumeOnce(t *Term) {
	if isTrue(t) || t.hasB {
		return
	}
	k := factKey{t, nil}
	if x.facted[k] {
		return
	}
	x.facted[k] = true
	x.remember(func() { delete(x.facted, k) })
	x.assume(t)
}

var litEval map[string]func(x *Exec, ts []*Term) *Term

func init() {
	litEval = map[string]func(x *Exec, ts []*Term) *Term{
		"itoa": func(x *Exec, ts []*Term) *Term {
			if ts[0].op == "int" {
				return x.tb.Str(strconv.FormatInt(ts[0].n, 10))
			}
			x.assumeOnce(x.tb.Not(x.tb.Eq(x.tb.Fn("itoa", "Str", ts[0]), x.tb.Str(""))))
			return nil
		},
		"p.strings.HasPrefix#0": func(x *Exec, ts []*Term) *Term {
			if ts[0].op == "strlit" && ts[1].op == "strlit" {
				return x.tb.Bool(strings.HasPrefix(ts[0].name, ts[1].name))
			}
			if x.knownPrefix(ts[0], ts[1]) {
				return x.tb.True()
			}
			x.prefixAxioms()
			return nil
		},
		"g.pow2": func(x *Exec, ts []*Term) *Term {
			if ts[0].op == "int" && ts[0].n >= 0 && ts[0].n <= 62 {
				return x.tb.Int(1 << uint(ts[0].n))
			}
			return nil
		},
		"g.shr": func(x *Exec, ts []*Term) *Term {
			if ts[0].op == "int" && ts[0].n >= 0 && ts[1].op == "int" && ts[1].n >= 0 && ts[1].n <= 62 {
				return x.tb.Int(ts[0].n >> uint(ts[1].n))
			}
			return nil
		},
		"g.hexpad": func(x *Exec, ts []*Term) *Term {
			if ts[0].op == "int" && ts[1].op == "int" && ts[1].n >= 0 && ts[0].n >= 0 && ts[0].n < 100 {
				return x.tb.Str(fmt.Sprintf("%0*x", int(ts[0].n), ts[1].n))
			}
			return nil
		},
		"p.strconv.FormatInt#0": func(x *Exec, ts []*Term) *Term {
			if ts[0].op == "int" && ts[1].op == "int" && ts[1].n >= 2 && ts[1].n <= 36 {
				return x.tb.Str(strconv.FormatInt(ts[0].n, int(ts[1].n)))
			}
			if ts[1].op == "int" && ts[1].n == 10 {
				return x.itoa(ts[0])
			}
			return nil
		},
		"p.strings.HasSuffix#0": func(x *Exec, ts []*Term) *Term {
			if ts[0].op == "strlit" && ts[1].op == "strlit" {
				return x.tb.Bool(strings.HasSuffix(ts[0].name, ts[1].name))
			}
			return nil
		},
	}
}

// specPure evaluates pkg.Fn(args) or pkg.Fn#i(args) in a specification.
func (c *Ctx) specPure(name string, args []*Node) (SV, bool) {
	x := c.x
	idx := 0
	if i := strings.IndexByte(name, '#'); i >= 0 {
		idx, _ = strconv.Atoi(name[i+1:])
		name = name[:i]
	}
	parts := strings.Split(name, ".")
	if len(parts) != 2 {
		return SV{}, false
	}
	p, ok := x.w.byName[parts[0]]
	if !ok || !purePkg[p.Path()] {
		return SV{}, false
	}
	sp := x.w.pkgs[p.Path()]
	var fn *ssa.Function
	if f := sp.Func(parts[1]); f != nil {
		fn = f
	} else {
		return SV{}, false
	}
	var ts []*Term
	for _, a := range args {
		v := c.force(c.eval(a))
		if v.t == nil {
			ts = append(ts, v.v.(*Term))
			continue
		}
		if t, ok := v.v.(*Term); ok && t.sort == "Str" {
			ts = append(ts, t)
			continue
		}
		ts = append(ts, x.pureArg(c.st, v.v, v.t)...)
	}
	nm := "p." + rawKey(fn)
	if len(ts) != fn.Signature.Params().Len() || fn.Signature.Variadic() {
		if len(ts) != fn.Signature.Params().Len() {
			nm += fmt.Sprintf("/%d", len(ts))
		}
	}
	rt := fn.Signature.Results().At(idx).Type()
	so := x.w.leafSort(rt)
	if so == "Slice" {
		if !isByteSlice(rt) {
			sfail("pure function %s returns a slice", name)
		}
		return SV{v: x.ufApp(fmt.Sprintf("%s#%d", nm, idx), "Str", ts), t: tString}, true
	}
	x.declSort(so)
	return SV{v: x.ufApp(fmt.Sprintf("%s#%d", nm, idx), so, ts), t: rt}, true
}

// conjuncts splits a clause at its top-level conjunctions.
func conjuncts(cl *Clause) []*Clause {
	if cl.e.k == "bin" && cl.e.s == "&&" {
		var out []*Clause
		for _, k := range cl.e.kids {
			n := *cl
			n.e = k
			out = append(out, conjuncts(&n)...)
		}
		return out
	}
	return []*Clause{cl}
}

func (c *Contract) modsGVar(n string) bool {
	for _, cl := range c.Clauses {
		if cl.kind == "modifies" {
			for _, m := range cl.mods {
				if m.k == "ident" && m.s == n {
					return true
				}
			}
		}
	}
	return false
}

// onlyOld: every occurrence of name in n is below old()
func onlyOld(n *Node, name string) bool {
	if n == nil || n.k == "old" {
		return true
	}
	if n.k == "ident" && n.s == name {
		return false
	}
	for _, k := range n.kids {
		if !onlyOld(k, name) {
			return false
		}
	}
	return true
}
