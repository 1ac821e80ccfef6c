package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type FuncResult struct {
	Key       string          `json:"function"`
	Contract  string          `json:"contract"`
	Obls      []*Obl          `json:"obligations"`
	Undecided string          `json:"undecided,omitempty"`
	Returns   int             `json:"paths"`
	Cuts      int             `json:"loop_cuts"`
	WallMs    int64           `json:"wall_ms"`
	used      map[string]bool // repo contracts
	usedX     map[string]bool
	usedImp   map[string]bool
	usedInv   map[string]bool
	usedFn    map[string]bool
	inlined   map[string]bool
	stats     *Stats
	raw       string
}

func (r *FuncResult) failed() bool {
	if r.Undecided != "" {
		return true
	}
	for _, o := range r.Obls {
		if o.Failed {
			return true
		}
	}
	return false
}

// repoFuncs maps contract keys to all (instantiated) functions.
func (w *World) repoFuncs() map[string][]*ssa.Function {
	m := map[string][]*ssa.Function{}
	seen := map[string]bool{}
	add := func(f *ssa.Function) {
		if f == nil || !inRepo(fnPkg(f)) || len(f.Blocks) == 0 {
			return
		}
		if f.TypeParams().Len() > len(f.TypeArgs()) {
			return
		}
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok && n.TypeArgs() != nil {
				for i := 0; i < n.TypeArgs().Len(); i++ {
					if _, isP := n.TypeArgs().At(i).(*types.TypeParam); isP {
						return
					}
				}
			}
		}
		for _, a := range f.TypeArgs() {
			if _, isP := a.(*types.TypeParam); isP {
				return
			}
		}
		if f.Synthetic != "" && f.Origin() == nil {
			return
		}
		k := fnKey(f)
		if seen[k] {
			return
		}
		seen[k] = true
		rk := rawKey(f)
		m[rk] = append(m[rk], f)
	}
	for f := range ssautil.AllFunctions(w.prog) {
		add(f)
	}
	// methods of the generic container for every role type
	if p := w.tpkgs[modPath+"/metadata"]; p != nil {
		for _, n := range []string{"Root", "Snapshot", "Timestamp", "Targets"} {
			fo, ok := p.Scope().Lookup(n).(*types.Func)
			if !ok {
				continue
			}
			res := fo.Type().(*types.Signature).Results()
			for i := 0; i < res.Len(); i++ {
				t := res.At(i).Type()
				ms := w.prog.MethodSets.MethodSet(t)
				for j := 0; j < ms.Len(); j++ {
					add(w.prog.MethodValue(ms.At(j)))
				}
			}
		}
		// methods of all package-level types
		for _, pk := range w.prog.AllPackages() {
			if !inRepo(pk.Pkg) {
				continue
			}
			for _, mem := range pk.Members {
				if tn, ok := mem.(*ssa.Type); ok {
					nt, ok := tn.Type().(*types.Named)
					if !ok || nt.TypeParams().Len() > 0 {
						continue
					}
					if _, isI := nt.Underlying().(*types.Interface); isI {
						continue
					}
					ms := w.prog.MethodSets.MethodSet(types.NewPointer(nt))
					for j := 0; j < ms.Len(); j++ {
						add(w.prog.MethodValue(ms.At(j)))
					}
				}
			}
		}
	}
	for _, l := range m {
		sort.Slice(l, func(i, j int) bool { return fnKey(l[i]) < fnKey(l[j]) })
	}
	return m
}

type VerifyOpts struct {
	prop    string
	safety  bool
	retract map[string]bool
	dir     string
	limit   time.Duration
	verbose bool
}

func verifyFunc(w *World, ss *SpecSet, fn *ssa.Function, c *Contract, o VerifyOpts) (res *FuncResult) {
	t0 := time.Now()
	stats := newStats()
	x := NewExec(w, ss, stats, o.dir)
	x.prop, x.safety, x.verbose = o.prop, o.safety, o.verbose
	for k := range o.retract {
		x.retract[k] = true
	}
	if o.limit > 0 {
		x.limit = o.limit
	}
	x.start = t0
	x.root, x.rootC = fn, c
	res = &FuncResult{Key: fnKey(fn), Contract: c.Pos, used: x.usedC, usedFn: x.usedFn, usedX: x.usedX, usedImp: x.usedImp, usedInv: x.usedInv, inlined: x.inlined, stats: stats}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				res.Undecided = "outside the verifier's reach: " + string(e)
			case stopVerify:
				res.Undecided = string(e)
			case specErr:
				res.Undecided = "specification: " + string(e)
			default:
				if o.verbose {
					panic(r)
				}
				res.Undecided = fmt.Sprintf("internal error: %v", r)
			}
		}
		for _, n := range x.oblOrd {
			res.Obls = append(res.Obls, x.obls[n])
		}
		res.Returns, res.Cuts = x.returns, x.cutN
		res.WallMs = time.Since(t0).Milliseconds()
		x.sol.Close()
	}()
	x.tsub = typeSub(fn)
	x.alloc0 = x.tb.Const("alloc0", "Int")
	x.tb.Decls["alloc0"].Pos = true
	st := &State{comps: map[string]*Term{}, alloc: x.alloc0, locals: map[localKey]Val{}, objs: map[*Term]*VObj{}, iters: map[iterKey]*Term{}}
	x.entry = st
	x.globalAxioms()
	fr := &Frame{id: &FrameID{fn}, fn: fn, env: map[ssa.Value]Val{}, c: c}
	x.stack = []*ssa.Function{fn}
	x.rootVar = map[string]SV{}
	if len(c.Params) != len(fn.Params) {
		res.Undecided = fmt.Sprintf("the function has %d parameters, its contract %d", len(fn.Params), len(c.Params))
		return
	}
	for i, p := range fn.Params {
		v := x.freshVal(st, p.Name(), p.Type())
		x.deepFacts(st, v, p.Type())
		fr.env[p] = v
		x.rootVar[c.Params[i]] = SV{v: v, t: p.Type()}
	}
	tp := fnPkg(fn)
	pre := &Ctx{x: x, st: st, old: st, vars: x.rootVar, pkg: tp}
	for _, cl := range c.Clauses {
		if cl.kind == "requires" && x.tagOK(cl.tags) && x.guardOK(cl) {
			x.assume(pre.boolT(cl.e))
		}
	}
	x.entry = st.clone()
	// declared frame
	var mods []mref
	mc := *pre
	mc.st = x.entry
	for _, cl := range c.Clauses {
		if cl.kind == "modifies" && x.tagOK(cl.tags) && x.guardOK(cl) {
			for _, m := range cl.mods {
				mods = append(mods, x.modset(&mc, m)...)
			}
		}
	}
	if !x.sol.Feasible() {
		res.Undecided = "precondition is unsatisfiable"
		return
	}
	inv := x.ownInv(fn)
	fr.ret = func(st *State, rs []Val) {
		x.returns++
		vars := map[string]SV{}
		for k, v := range x.rootVar {
			vars[k] = v
		}
		rt := fn.Signature.Results()
		for i := range rs {
			n := fmt.Sprintf("result%d", i)
			if len(rs) == 1 {
				n = "result"
			}
			if i < len(c.Results) {
				n = c.Results[i]
			}
			vars[n] = SV{v: rs[i], t: rt.At(i).Type()}
		}
		post := &Ctx{x: x, st: st, old: x.entry, vars: vars, pkg: tp}
		for i, cl := range c.Clauses {
			if cl.kind != "ensures" || !x.tagOK(cl.tags) || x.imported(cl.tags) || !x.guardOK(cl) {
				continue
			}
			t := post.boolT(cl.e)
			x.oblige(st, fmt.Sprintf("%s/ensures#%d", fnKey(fn), i), "postcondition", cl.src, cl.tags, t, 0)
		}
		if inv != nil && len(rs) == 1 {
			recv := fr.env[fn.Params[0]].(*Term)
			rt := fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
			ic := &Ctx{x: x, st: st, old: x.entry, vars: map[string]SV{inv.Var: {t: rt, ref: recv, st: st}}, pkg: x.pkgOf(inv.Pkg)}
			ok := x.tb.Eq(x.tb.App("itid", "Int", rs[0].(*Term)), x.tb.Int(0))
			x.oblige(st, fnKey(fn)+"/decoded-invariant", "data-structure invariant", nodeStr(inv.Body), inv.Tags, x.tb.Imp(ok, ic.boolT(inv.Body)), 0)
		}
		x.frameCheck(st, mods)
	}
	x.run2(st, fr)
	if x.returns == 0 && res.Undecided == "" && !o.safety {
		res.Undecided = "no feasible return path (vacuous)"
	}
	return
}

func (x *Exec) run2(st *State, fr *Frame) { x.enterFn(st, fr) }

func (x *Exec) ownInv(fn *ssa.Function) *JsonInv {
	if fn.Name() != "UnmarshalJSON" || fn.Signature.Recv() == nil {
		return nil
	}
	p, ok := fn.Signature.Recv().Type().(*types.Pointer)
	if !ok {
		return nil
	}
	return x.jsonInvOf(p.Elem())
}

// frameCheck: memory existing at entry and outside the declared modifies set
// is unchanged.
func (x *Exec) frameCheck(st *State, mods []mref) {
	tb := x.tb
	var names []string
	for c := range st.comps {
		names = append(names, c)
	}
	sort.Strings(names)
	for _, c := range names {
		t := st.comps[c]
		e := x.comp(x.entry, c)
		if t == e {
			continue
		}
		var refs []*Term
		var preds []func(*Term) *Term
		all := false
		for _, m := range mods {
			if m.comp != c {
				continue
			}
			switch {
			case m.all:
				all = true
			case m.ref != nil:
				refs = append(refs, m.ref)
			default:
				preds = append(preds, m.pred)
			}
		}
		if all {
			continue
		}
		name := fmt.Sprintf("%s/frame/%s", fnKey(x.root), c)
		if strings.HasPrefix(c, "G!") {
			if x.isVolatile(c[2:]) {
				continue
			}
			x.oblige(st, name, "frame", "does not change "+c, nil, tb.Eq(t, e), 0)
			continue
		}
		// strip stores to allowed or new places
		for t.op == "store" {
			ref := t.args[1]
			ok := false
			for _, r := range refs {
				if r == ref {
					ok = true
				}
			}
			root := rootOf(ref)
			if !ok && root.op == "app" && root.name == "obj" {
				if d, isC := tb.diffConst(root.args[0], x.alloc0); isC && d >= 0 {
					ok = true
				}
			}
			if !ok {
				break
			}
			t = t.args[0]
		}
		if t == e {
			continue
		}
		r := tb.Fresh("r", "Ref")
		conds := []*Term{tb.Lt(tb.Rid(r), x.alloc0), tb.Not(tb.Eq(r, tb.Null()))}
		for _, f := range refs {
			conds = append(conds, tb.Not(tb.Eq(r, f)))
		}
		for _, p := range preds {
			conds = append(conds, tb.Not(p(r)))
		}
		x.oblige(st, name, "frame", "changes "+c+" only as declared", nil, tb.Imp(tb.And(conds...), tb.Eq(tb.Select(t, r), tb.Select(e, r))), 0)
	}
}

// globalAxioms: spec axioms and the contents of immutable package variables
func (x *Exec) globalAxioms() {
	for _, a := range x.ss.Axioms {
		if len(a.Tags) > 0 && !x.tagOK(a.Tags) {
			continue
		}
		c := &Ctx{x: x, st: x.entry, old: x.entry, vars: map[string]SV{}, pkg: x.pkgOf(a.Pkg)}
		if a.Var == "" {
			x.sol.Axiom(c.boolT(a.e))
			continue
		}
		for i := a.Lo; i <= a.Hi; i++ {
			c.vars = map[string]SV{a.Var: {v: x.tb.Int(i), t: tInt}}
			x.sol.Axiom(c.boolT(a.e))
		}
	}
}

// ---- closure over contracts ----

type propRun struct {
	prop    string
	w       *World
	ss      *SpecSet
	funcs   map[string][]*ssa.Function
	safety  bool
	results []*FuncResult
	missing []string
	retract map[string]bool
	notes   []string
	rootK   map[string]bool
}

func (ss *SpecSet) roots(prop string) (keys []string, safety bool) {
	for _, n := range ss.Order {
		c := ss.Contracts[n]
		if c.Extern {
			continue
		}
		hit := false
		for _, cl := range c.Clauses {
			if cl.kind == "hint" || cl.kind == "requires" {
				continue
			}
			for _, t := range cl.tags {
				if t == prop {
					hit = true
					if cl.kind == "nopanic" {
						safety = true
					}
				}
			}
		}
		if hit {
			keys = append(keys, n)
		}
	}
	for _, j := range ss.JsonInvs {
		for _, t := range j.Tags {
			if t == prop {
				keys = append(keys, j.Pkg+".(*"+j.Type+").UnmarshalJSON")
			}
		}
	}
	sort.Strings(keys)
	return keys, safety
}

func (p *propRun) contractFor(key string) *Contract {
	if c := p.ss.Contracts[key]; c != nil {
		return c
	}
	fs := p.funcs[key]
	if len(fs) == 0 {
		return nil
	}
	c := &Contract{Name: key, Pos: "(implicit)", Pkg: fnPkg(fs[0]).Name()}
	for i := range fs[0].Params {
		c.Params = append(c.Params, fmt.Sprintf("p%d", i))
	}
	if len(c.Params) > 0 && fs[0].Signature.Recv() != nil {
		e, _ := parseExpr("p0 != nil")
		c.Clauses = append(c.Clauses, &Clause{kind: "requires", e: e, src: "p0 != nil"})
	}
	return c
}

func (x *Exec) isVolatile(n string) bool {
	for _, v := range x.ss.Volatile {
		if v == n {
			return true
		}
	}
	return false
}
