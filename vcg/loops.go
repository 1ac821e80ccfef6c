package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// LoopAct is a loop whose header has been cut on the current path.
type LoopAct struct {
	lp       *Loop
	silent   bool
	onBack   func(st *State, fr *Frame, from *ssa.BasicBlock)
	iterKeys []iterKey
	iter     *Term
	entry    *lside
}

// lside: the loop variables at one program point (entry, header or back edge)
type lside struct {
	st   *State
	env  map[ssa.Value]Val
	phi  map[*ssa.Phi]Val
	iter *Term
}

func (x *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	x.w.mu.Lock()
	defer x.w.mu.Unlock()
	if m, ok := x.loops[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			lp := m[h]
			if lp == nil {
				lp = &Loop{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				m[h] = lp
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				c := work[len(work)-1]
				work = work[:len(work)-1]
				if lp.blocks[c] {
					continue
				}
				lp.blocks[c] = true
				work = append(work, c.Preds...)
			}
		}
	}
	x.loops[fn] = m
	return m
}

func definedIn(v ssa.Value, lp *Loop) bool {
	if i, ok := v.(ssa.Instruction); ok {
		return lp.blocks[i.Block()]
	}
	return false
}

// canUnroll: the header condition is decided in the current state.
func (x *Exec) canUnroll(st *State, fr *Frame, from *ssa.BasicBlock, lp *Loop) bool {
	ifi, ok := lp.head.Instrs[len(lp.head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	for _, in := range lp.head.Instrs[:len(lp.head.Instrs)-1] {
		switch i := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef, *ssa.Field, *ssa.Extract:
		case *ssa.Next:
			rg, ok := i.Iter.(*ssa.Range)
			if !ok {
				return false
			}
			k := iterKey{fr.id, rg}
			if d := st.doms[k]; d == nil || d.op != "constarr" || !isFalse(d.args[0]) {
				return false
			}
			mt := rg.X.Type().Underlying().(*types.Map)
			if x.rd(st, x.mapInfo(mt).md, x.val(fr, rg).(*Term)) != st.doms[k] {
				return false
			}
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	x.push()
	defer x.pop()
	st2, fr2 := st.clone(), fr.clone()
	x.silent++
	defer func() { x.silent-- }()
	x.phis(st2, fr2, from, lp.head)
	for _, in := range lp.head.Instrs[nphi(lp.head) : len(lp.head.Instrs)-1] {
		if c, ok := in.(*ssa.Call); ok {
			v := x.val(fr2, c.Call.Args[0]).(*Term)
			fr2.env[c] = x.lenOf(st2, v, c.Call.Args[0].Type())
			continue
		}
		if !x.instr(st2, fr2, in) {
			return false
		}
	}
	c := x.val(fr2, ifi.Cond).(*Term)
	if isFalse(c) {
		return lp.blocks[lp.head.Succs[0]]
	}
	if !isTrue(c) {
		return false
	}
	// counted loops with a literal bound
	if b, ok := ifi.Cond.(*ssa.BinOp); ok {
		for _, s := range []ssa.Value{b.X, b.Y} {
			if !definedIn(s, lp) {
				if v, ok := x.val(fr2, s).(*Term); ok && v.op == "int" && v.n <= 10 && v.n >= -10 {
					return true
				}
			}
		}
	}
	return false
}

type modInfo struct {
	refs  []*Term
	full  bool
	roots []*Term // rids of loop-invariant roots written at variant places
	wild  bool    // some written place has a variant root
}

type lcand struct {
	key  string
	f    func(s *lside) *Term
	dead bool
	done bool // inductive with the generic candidates alone
}

type lvar struct {
	name string
	t    types.Type
	get  func(s *lside) Val
}

func (x *Exec) cut(st *State, fr *Frame, from *ssa.BasicBlock, lp *Loop) {
	tb := x.tb
	x.materialiseAll(st)
	fn := fr.fn
	head := lp.head
	lpos := x.loopPos(lp)
	st.trace = append(st.trace, "loop@"+lpos)
	pk := predIdx(head, from)

	// ---- loop variables ----
	var phis []*ssa.Phi
	for _, in := range head.Instrs[:nphi(head)] {
		phis = append(phis, in.(*ssa.Phi))
	}
	init := map[*ssa.Phi]Val{}
	for _, p := range phis {
		init[p] = x.val(fr, p.Edges[pk])
	}
	step := map[*ssa.Phi]int64{}
	for _, p := range phis {
		if c, ok := inductionStep(p, lp, head); ok {
			if t, isT := init[p].(*Term); isT && t.sort == "Int" {
				step[p] = c
			}
		}
	}
	// promoted locals written in the loop
	var locs []localKey
	seenL := map[*ssa.Alloc]bool{}
	var iterKeys []iterKey
	seenI := map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		if !lp.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				if a := rootAlloc(i.Addr); a != nil && !seenL[a] && promotable(a) {
					seenL[a] = true
					if !lp.blocks[a.Block()] {
						locs = append(locs, localKey{a, fr.id})
					}
				}
			case *ssa.Next:
				if rg, ok := i.Iter.(*ssa.Range); ok && !lp.blocks[rg.Block()] && !seenI[rg] {
					seenI[rg] = true
					if _, isM := rg.X.Type().Underlying().(*types.Map); isM {
						iterKeys = append(iterKeys, iterKey{fr.id, rg})
					}
				}
			}
		}
	}
	entry := st.clone()
	cutFr := tb.fresh
	eside := &lside{st: entry, env: fr.env, phi: init, iter: tb.Int(0)}
	mod := map[string]*modInfo{}
	modOrd := []string{}

	// build a havocked header state
	type hdr struct {
		side *lside
		fr   *Frame
	}
	build := func() hdr {
		h := entry.clone()
		f := fr.clone()
		iter := tb.Fresh("iter", "Int")
		x.assume(tb.Le(tb.Int(0), iter))
		na := tb.Fresh("alloc", "Int")
		x.assume(tb.Le(entry.alloc, na))
		h.alloc = na
		ph := map[*ssa.Phi]Val{}
		for _, p := range phis {
			if c, ok := step[p]; ok {
				ph[p] = tb.Add(init[p].(*Term), tb.Mul(tb.Int(c), iter))
			} else if _, isT := init[p].(*Addr); isT {
				ph[p] = init[p]
			} else if _, isC := init[p].(*Clo); isC {
				ph[p] = init[p]
			} else {
				ph[p] = x.freshVal(h, "phi."+p.Comment, p.Type())
				x.deepFacts(h, ph[p], p.Type())
			}
			f.env[p] = ph[p]
		}
		for _, l := range locs {
			if _, ok := h.locals[l]; ok {
				t := l.a.Type().Underlying().(*types.Pointer).Elem()
				h.locals[l] = x.freshVal(h, "loc."+l.a.Comment, t)
				x.deepFacts(h, h.locals[l], t)
			}
		}
		for _, k := range iterKeys {
			v := tb.Fresh("visited", entry.iters[k].sort)
			h.iters[k] = v
		}
		for _, c := range modOrd {
			m := mod[c]
			old := x.comp(entry, c)
			if m.full || !strings.HasPrefix(old.sort, "(Array ") || strings.HasPrefix(c, "G!") {
				n := tb.Fresh("H."+c, old.sort)
				h.comps[c] = n
				if strings.HasPrefix(c, "G!") {
					continue
				}
				if strings.HasPrefix(c, "MD!") {
					_, v := splitArr(n.sort)
					k, _ := splitArr(v)
					x.assume(tb.Eq(tb.Select(n, tb.Null()), tb.ConstArr(k, tb.False())))
				}
				if !m.wild {
					r := tb.BVar("r", "Ref")
					conds := []*Term{tb.Lt(tb.Rid(r), entry.alloc)}
					for _, w := range m.roots {
						// memory of nil (a nil slice) is never written
						conds = append(conds, tb.Or(tb.Lt(tb.Rid(r), tb.Int(0)), tb.Not(tb.Eq(tb.Rid(r), w))))
					}
					cell := tb.Select(n, r)
					x.assume(tb.Forall([]*Term{r}, tb.Imp(tb.And(conds...), tb.Eq(cell, tb.Select(old, r))), cell))
				}
				continue
			}
			cur := old
			_, vs := splitArr(old.sort)
			for _, r := range m.refs {
				f := tb.Fresh("w", vs)
				cur = tb.Store(cur, r, f)
				x.cellFacts(h, c, f)
			}
			h.comps[c] = cur
		}
		return hdr{&lside{st: h, env: f.env, phi: ph, iter: iter}, f}
	}

	// ---- candidates ----
	// first the generic ones are reduced to an inductive set, then the hints
	// are added to it (a wrong hint must not make the solver lose a generic one)
	var cands []*lcand
	phase := 0
	dropKey := fnKey(fn) + "@" + lpos + "|" + strings.Join(st.trace, " ")
	dropped := x.dropped[dropKey]
	if dropped == nil {
		dropped = map[string]bool{}
		x.dropped[dropKey] = dropped
	}
	have := map[string]bool{}
	var curHint *Clause
	var probe *lside // the state of an arbitrary iteration
	add := func(key string, f func(s *lside) *Term) {
		if have[key] {
			return
		}
		have[key] = true
		if dropped[key] {
			return
		}
		if (phase == 0) == strings.HasPrefix(key, "hint") {
			delete(have, key)
			return
		}
		cs := x.candStat(fn, lpos, key)
		if cs[0] >= 2 && cs[1] == 0 {
			return
		}
		c := &lcand{key: key, f: f}
		// initially true?
		t := x.safeEval(func() *Term { return f(eside) })
		if t != nil && curHint != nil && curHint.changed && probe != nil {
			if u := x.safeEval(func() *Term { return f(probe) }); u != nil && alphaEq(t, u, map[*Term]*Term{}, map[[2]*Term]bool{}) {
				delete(have, key)
				return // the loop does not change what the statement is about
			}
		}
		if t == nil {
			if x.verbose && os.Getenv("VCG_CANDS") != "" && strings.HasPrefix(key, "hint") {
				fmt.Printf("    loop@%s: cannot evaluate (%v): %s\n", lpos, x.evalErr, key)
			}
			return
		}
		if !isTrue(t) {
			if ok, _, _ := x.valid(t, 1500, false); !ok {
				cs[0]++
				if x.verbose && os.Getenv("VCG_CANDS") != "" && strings.HasPrefix(key, "hint") {
					fmt.Printf("    loop@%s: not initially: %s\n", lpos, key)
				}
				return
			}
		}
		cands = append(cands, c)
	}
	hints := x.hintClauses(fr)

	mkCands := func() {
		vars := x.loopVars(fr, lp, phis, step, locs)
		for c, m := range mod {
			if m.full || strings.HasPrefix(c, "G!") {
				continue
			}
			_ = m
		}
		for _, c := range modOrd {
			m := mod[c]
			if m.full || strings.HasPrefix(c, "G!") {
				continue
			}
			for _, r := range m.refs {
				c, r := c, r
				if strings.HasPrefix(c, "MD!") {
					add("domgrow "+c+r.String(), func(s *lside) *Term {
						a, b := tb.Select(x.comp(entry, c), r), tb.Select(x.comp(s.st, c), r)
						if a == b {
							return tb.True()
						}
						ks, _ := splitArr(a.sort)
						k := tb.BVar("k", ks)
						return tb.Forall([]*Term{k}, tb.Imp(tb.Select(a, k), tb.Select(b, k)), pat(tb.Select(a, k)), pat(tb.Select(b, k)))
					})
					add("domsame "+c+r.String(), func(s *lside) *Term {
						return tb.Eq(tb.Select(x.comp(entry, c), r), tb.Select(x.comp(s.st, c), r))
					})
					continue
				}
				if t := x.compType[c]; t != nil {
					vars = append(vars, lvar{c + "[" + r.String() + "]", t, func(s *lside) Val { return tb.Select(x.comp(s.st, c), r) }})
				}
			}
		}
		for _, v := range vars {
			v := v
			iv, ok := v.get(eside).(*Term)
			if !ok {
				if cv, isC := v.get(eside).(*Comp); isC {
					add("same "+v.name, func(s *lside) *Term { return x.eqVal(v.get(s), cv) })
				}
				continue
			}
			g := func(s *lside) *Term { return v.get(s).(*Term) }
			add("same "+v.name, func(s *lside) *Term { return tb.Eq(g(s), iv) })
			switch iv.sort {
			case "Ref":
				add("nonnil "+v.name, func(s *lside) *Term { return tb.Not(tb.Eq(g(s), tb.Null())) })
				add("new "+v.name, func(s *lside) *Term {
					return tb.Or(tb.Eq(g(s), iv), tb.Le(entry.alloc, tb.Rid(g(s))))
				})
			case "Iface":
				add("isnil "+v.name, func(s *lside) *Term { return tb.Eq(tb.App("itid", "Int", g(s)), tb.Int(0)) })
				add("notnil "+v.name, func(s *lside) *Term { return tb.Not(tb.Eq(tb.App("itid", "Int", g(s)), tb.Int(0))) })
			case "Int":
				add("ge "+v.name, func(s *lside) *Term { return tb.Le(iv, g(s)) })
				add("le "+v.name, func(s *lside) *Term { return tb.Le(g(s), iv) })
				add("le+iter "+v.name, func(s *lside) *Term { return tb.Le(g(s), tb.Add(iv, s.iter)) })
			case "Slice":
				add("len= "+v.name, func(s *lside) *Term { return tb.Eq(tb.SLen(g(s)), tb.Add(tb.SLen(iv), s.iter)) })
				add("len<= "+v.name, func(s *lside) *Term { return tb.Le(tb.SLen(g(s)), tb.Add(tb.SLen(iv), s.iter)) })
				add("len>= "+v.name, func(s *lside) *Term { return tb.Le(tb.SLen(iv), tb.SLen(g(s))) })
				add("lensame "+v.name, func(s *lside) *Term { return tb.Eq(tb.SLen(iv), tb.SLen(g(s))) })
				add("arr= "+v.name, func(s *lside) *Term { return tb.Eq(tb.SArr(iv), tb.SArr(g(s))) })
				add("arrnew "+v.name, func(s *lside) *Term {
					return tb.Or(tb.Le(entry.alloc, tb.Rid(tb.SArr(g(s)))), tb.Eq(tb.SArr(iv), tb.SArr(g(s))))
				})
				add("arrfresh "+v.name, func(s *lside) *Term {
					return tb.Or(tb.Le(x.entry.alloc, tb.Rid(tb.SArr(g(s)))), tb.Eq(tb.SArr(g(s)), tb.Null()))
				})
				add("off= "+v.name, func(s *lside) *Term { return tb.Eq(tb.SOff(iv), tb.SOff(g(s))) })
			}
		}
		// counted loops: the header test bounds the counter
		if ifi, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If); ok {
			if b, ok := ifi.Cond.(*ssa.BinOp); ok && (b.Op == token.LSS || b.Op == token.LEQ) {
				p, off := phiPlus(b.X, head)
				if p != nil && step[p] == 1 {
					// the bound: defined outside, or len(...) evaluated in the header
					bound := func(s *lside) *Term {
						if !definedIn(b.Y, lp) {
							if v, ok := fr.env[b.Y]; ok {
								return v.(*Term)
							}
							if c, ok := b.Y.(*ssa.Const); ok {
								return x.constVal(c).(*Term)
							}
						}
						return nil
					}
					if bound(eside) != nil {
						add("bound", func(s *lside) *Term {
							l := tb.Add(s.phi[p].(*Term), tb.Int(off-1))
							c := tb.Lt(l, bound(s))
							if b.Op == token.LEQ {
								c = tb.Le(l, bound(s))
							}
							return tb.Or(tb.Eq(s.iter, tb.Int(0)), c)
						})
					}
				}
			}
		}
		for _, k := range iterKeys {
			k := k
			add("visited", func(s *lside) *Term {
				v, d := s.st.iters[k], s.st.doms[k]
				ks, _ := splitArr(v.sort)
				kb := tb.BVar("k", ks)
				return tb.Forall([]*Term{kb}, tb.Imp(tb.Select(v, kb), tb.Select(d, kb)), pat(tb.Select(v, kb)))
			})
		}
		// frames of fully havocked components
		for _, c := range modOrd {
			m := mod[c]
			if !m.full || !m.wild || strings.HasPrefix(c, "G!") {
				continue
			}
			c := c
			fr1 := func(base *Term, roots []*Term) func(s *lside) *Term {
				return func(s *lside) *Term {
					n, old := x.comp(s.st, c), x.comp(entry, c)
					if n == old {
						return tb.True()
					}
					r := tb.BVar("r", "Ref")
					conds := []*Term{tb.Lt(tb.Rid(r), base)}
					for _, w := range roots {
						conds = append(conds, tb.Not(tb.Eq(tb.Rid(r), w)))
					}
					cell := tb.Select(n, r)
					return tb.Forall([]*Term{r}, tb.Imp(tb.And(conds...), tb.Eq(cell, tb.Select(old, r))), pat(cell))
				}
			}
			add("frame "+c, fr1(entry.alloc, nil))
			add("frame0 "+c, fr1(x.entry.alloc, nil))
			if len(m.roots) > 0 {
				add(fmt.Sprintf("frameW%d %s", len(m.roots), c), fr1(entry.alloc, m.roots))
			}
		}
		// hints
		for hi, h := range hints {
			if phase == 0 {
				break
			}
			if h.changed && probe == nil {
				x.push()
				probe = build().side
				x.pop()
			}
			curHint = h
			x.instHints(st, fr, lp, phis, step, locs, iterKeys, eside, hi, h, add)
			curHint = nil
		}
		probe = nil
	}

	patient := false // hints that are slow to decide get more of the solvers' time
	for _, h := range hints {
		patient = patient || h.changed
	}
	backSide := func(bst *State, bfr *Frame, from *ssa.BasicBlock, h *lside) *lside {
		k := predIdx(head, from)
		ph := map[*ssa.Phi]Val{}
		for _, p := range phis {
			ph[p] = x.val(bfr, p.Edges[k])
		}
		return &lside{st: bst, env: fr.env, phi: ph, iter: tb.Add(h.iter, tb.Int(1))}
	}

	// ---- rounds ----
	for round := 0; ; round++ {
		if round > 60 {
			panic(stopVerify("loop invariant inference did not converge at " + lpos))
		}
		mkCands()
		x.push()
		h := build()
		same := map[*Term]bool{}
		for _, c := range cands {
			if !c.dead {
				if t := x.safeEval(func() *Term { return c.f(h.side) }); t != nil {
					if same[t] && !isTrue(t) {
						c.dead = true // the same statement under another name
						dropped[c.key] = true
						continue
					}
					same[t] = true
					x.assume(t)
				} else {
					c.dead = true
				}
			}
		}
		changedMod := false
		changed := false
		act := &LoopAct{lp: lp, silent: true, iterKeys: iterKeys, iter: h.side.iter, entry: eside}
		act.onBack = func(bst *State, bfr *Frame, from *ssa.BasicBlock) {
			if x.discover(entry, h.side.st, bst, mod, &modOrd, cutFr) {
				changedMod = true
			}
			if changedMod {
				for _, c := range cands {
					c.done = false
				}
				return
			}
			x.materialiseAll(bst)
			bs := backSide(bst, bfr, from, h.side)
			for _, c := range cands {
				if c.dead || c.done {
					continue
				}
				t := x.safeEval(func() *Term { return c.f(bs) })
				ok := t != nil
				if ok && !isTrue(t) {
					ms := 700
					if strings.HasPrefix(c.key, "hint") {
						ms = 3000
					}
					x.sol.cur = lpos + " " + c.key
					ok, _, _ = x.valid(t, ms, false)
					if !ok && strings.HasPrefix(c.key, "hint") {
						ok = x.sol.Again(x.simp(t), patient)
					}
					x.sol.cur = ""
				}
				if !ok {
					c.dead = true
					changed = true
					dropped[c.key] = true
					x.candStat(fn, lpos, c.key)[0]++
					if x.verbose && (os.Getenv("VCG_CANDS") != "") {
						fmt.Printf("    loop@%s: not preserved: %s\n      path %s\n", lpos, c.key, strings.Join(bst.trace, " "))
						if os.Getenv("VCG_CANDS") == "2" {
							fmt.Printf("      goal %s\n", x.simp(t))
							if q := os.Getenv("VCG_DUMP"); q != "" && strings.Contains(c.key, q) {
								os.WriteFile("/tmp/dump.smt2", []byte(x.sol.script(x.simp(t))), 0o644)
							}
						}
					}
				}
			}
		}
		h.fr.acts = append(h.fr.acts, act)
		x.silent++
		x.run(h.side.st.clone(), h.fr, head, nphi(head))
		x.silent--
		x.pop()
		if !changed && !changedMod {
			if phase == 0 {
				phase = 1
				for _, c := range cands {
					c.done = true
				}
				n := len(cands)
				mkCands()
				if len(cands) > n {
					continue
				}
			}
			break
		}
	}
	if x.verbose && x.silent == 0 {
		var ks []string
		for _, c := range cands {
			if !c.dead {
				ks = append(ks, c.key)
			}
		}
		fmt.Printf("    loop@%s: mod %v invariants: %s\n", lpos, modOrd, strings.Join(ks, "; "))
		if os.Getenv("VCG_CANDS") != "" {
			for _, c := range modOrd {
				m := mod[c]
				fmt.Printf("      mod %s full=%v wild=%v refs=%v roots=%v\n", c, m.full, m.wild, m.refs, m.roots)
			}
		}
	}
	x.cutN++
	for _, c := range cands {
		if !c.dead {
			x.candStat(fn, lpos, c.key)[1]++
		}
	}
	h := build()
	for _, c := range cands {
		if !c.dead {
			if t := x.safeEval(func() *Term { return c.f(h.side) }); t != nil {
				x.assume(t)
			}
		}
	}
	h.fr.acts = append(h.fr.acts, &LoopAct{lp: lp, iterKeys: iterKeys, iter: h.side.iter, entry: eside, onBack: func(*State, *Frame, *ssa.BasicBlock) {}})
	x.run(h.side.st, h.fr, head, nphi(head))
}

// candStat counts how often a candidate invariant of a loop failed and held;
// candidates that only ever failed are not tried again (this affects which
// invariants are attempted, never which are accepted)
func (x *Exec) candStat(fn *ssa.Function, lpos, key string) *[2]int {
	if x.cstat == nil {
		x.cstat = map[string]*[2]int{}
	}
	k := fnKey(fn) + "@" + lpos + "|" + key
	if x.cstat[k] == nil {
		x.cstat[k] = &[2]int{}
	}
	return x.cstat[k]
}

func pat(t *Term) *Term {
	if t.op == "select" || t.op == "app" {
		return t
	}
	return nil
}

func (x *Exec) cellFacts(st *State, comp string, v *Term) {
	if t := x.compType[comp]; t != nil {
		x.deepFacts(st, v, t)
	}
}

func (x *Exec) safeEval(f func() *Term) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case specErr, unsupported:
				t = nil
				x.evalErr = r
			default:
				panic(r)
			}
		}
	}()
	return f()
}

func (x *Exec) loopPos(lp *Loop) string {
	best := token.NoPos
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				best = p
			}
		}
	}
	return x.posStr(best)
}

func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch a := v.(type) {
		case *ssa.Alloc:
			return a
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			return nil
		}
	}
}

// phiPlus: v == phi + off for a phi of block head
func phiPlus(v ssa.Value, head *ssa.BasicBlock) (*ssa.Phi, int64) {
	if p, ok := v.(*ssa.Phi); ok && p.Block() == head {
		return p, 0
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
			if p, ok := b.X.(*ssa.Phi); ok && p.Block() == head {
				if b.Op == token.SUB {
					return p, -c.Int64()
				}
				return p, c.Int64()
			}
		}
	}
	return nil, 0
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func inductionStep(p *ssa.Phi, lp *Loop, head *ssa.BasicBlock) (int64, bool) {
	if !isIntT(p.Type()) {
		return 0, false
	}
	var st int64
	found := false
	for i, e := range p.Edges {
		if !lp.blocks[head.Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok {
			return 0, false
		}
		q, off := phiPlus(b, head)
		if q != p {
			return 0, false
		}
		if found && off != st {
			return 0, false
		}
		st, found = off, true
	}
	return st, found
}

func (x *Exec) loopVars(fr *Frame, lp *Loop, phis []*ssa.Phi, step map[*ssa.Phi]int64, locs []localKey) []lvar {
	var vars []lvar
	for i, p := range phis {
		if _, ok := step[p]; ok {
			continue
		}
		p := p
		vars = append(vars, lvar{fmt.Sprintf("phi%d.%s", i, p.Comment), p.Type(), func(s *lside) Val { return s.phi[p] }})
	}
	for _, l := range locs {
		l := l
		t := l.a.Type().Underlying().(*types.Pointer).Elem()
		var walk func(t types.Type, path []int)
		walk = func(t types.Type, path []int) {
			if x.w.leafSort(t) != "" {
				pp := append([]int{}, path...)
				vars = append(vars, lvar{fmt.Sprintf("%s%v", l.a.Comment, pp), t, func(s *lside) Val { return x.getPath(s.st.locals[l], pp) }})
				return
			}
			for i, ft := range x.w.fieldTypes(t) {
				walk(ft, append(path, i))
			}
		}
		walk(t, nil)
	}
	return vars
}

// discover compares the heap at a back edge with the header and extends mod.
func (x *Exec) discover(entry, h, b *State, mod map[string]*modInfo, ord *[]string, cutFr int) bool {
	tb := x.tb
	ch := false
	var names []string
	for c := range b.comps {
		names = append(names, c)
	}
	sort.Strings(names)
	get := func(c string) *modInfo {
		m := mod[c]
		if m == nil {
			m = &modInfo{}
			mod[c] = m
			*ord = append(*ord, c)
			ch = true
		}
		return m
	}
	for _, c := range names {
		hc, ec, t := x.comp(h, c), x.comp(entry, c), b.comps[c]
		if t == hc {
			continue
		}
		if strings.HasPrefix(c, "G!") {
			get(c)
			continue
		}
		// stores of the header state that the iteration overwrote
		under := map[*Term][]*Term{}
		for u, l := hc, []*Term(nil); u.op == "store"; u = u.args[0] {
			l = append(l[:len(l):len(l)], u.args[1])
			under[u.args[0]] = l
		}
		for t != hc && t != ec {
			if l, ok := under[t]; ok {
				m := get(c)
				for _, ref := range l {
					if m.full {
						ch = m.addRoot(tb.Rid(ref)) || ch
						continue
					}
					dup := false
					for _, r := range m.refs {
						dup = dup || r == ref
					}
					if !dup {
						m.refs = append(m.refs, ref)
						ch = true
					}
				}
				break
			}
			if t.op != "store" {
				m := get(c)
				if !m.full || !m.wild {
					m.full, m.wild = true, true
					ch = true
				}
				break
			}
			ref := t.args[1]
			t = t.args[0]
			root := rootOf(ref)
			if root.op == "app" && root.name == "obj" {
				if d, ok := tb.diffConst(root.args[0], h.alloc); ok && d >= 0 {
					continue // object allocated in this iteration
				}
				// allocated after a nested allocation point of this iteration
				if root.fr > cutFr && root.args[0].fr > cutFr && x.provablyNew(root.args[0], h.alloc) {
					continue
				}
			}
			m := get(c)
			if ref.fr <= cutFr {
				if m.full {
					continue
				}
				dup := false
				for _, r := range m.refs {
					if r == ref {
						dup = true
					}
				}
				if !dup {
					m.refs = append(m.refs, ref)
					ch = true
				}
				continue
			}
			if !m.full {
				m.full = true
				ch = true
				for _, r := range m.refs {
					m.addRoot(tb.Rid(r))
				}
			}
			rid := tb.Rid(ref)
			if rid.fr <= cutFr {
				if m.addRoot(rid) {
					ch = true
				}
			} else if !m.wild {
				m.wild = true
				ch = true
			}
		}
	}
	return ch
}

// alphaEq tells whether two terms are equal up to the names of bound variables
func alphaEq(a, b *Term, bound map[*Term]*Term, seen map[[2]*Term]bool) bool {
	if a == b && !a.hasB {
		return true
	}
	if a.op == "bvar" || b.op == "bvar" {
		return a == b || bound[a] == b
	}
	if a.op != b.op || len(a.vars) == 0 && a.name != b.name || a.n != b.n || a.sort != b.sort || len(a.args) != len(b.args) {
		return false
	}
	k := [2]*Term{a, b}
	if seen[k] {
		return true
	}
	if len(a.vars) != len(b.vars) {
		return false
	}
	for i, v := range a.vars {
		if v.sort != b.vars[i].sort {
			return false
		}
		bound[v] = b.vars[i]
	}
	for i := range a.args {
		if !alphaEq(a.args[i], b.args[i], bound, seen) {
			return false
		}
	}
	seen[k] = true
	return true
}

func (x *Exec) provablyNew(n, alloc *Term) bool {
	ok, _, _ := x.valid(x.tb.Le(alloc, n), 500, false)
	return ok
}

func (m *modInfo) addRoot(r *Term) bool {
	for _, o := range m.roots {
		if o == r {
			return false
		}
	}
	m.roots = append(m.roots, r)
	return true
}

// ---- hints ----

func (x *Exec) hintClauses(fr *Frame) []*Clause {
	var out []*Clause
	seen := map[*Contract]bool{}
	addC := func(c *Contract) {
		if c == nil || seen[c] {
			return
		}
		seen[c] = true
		for _, cl := range c.Clauses {
			if cl.kind == "hint" && x.tagOK(cl.tags) && x.guardOK(cl) {
				out = append(out, cl)
			}
		}
	}
	addC(x.rootC)
	addC(fr.c)
	for _, cl := range x.ss.Hints {
		if x.tagOK(cl.tags) && x.guardOK(cl) {
			out = append(out, cl)
		}
	}
	return out
}

func (x *Exec) guardOK(cl *Clause) bool {
	if cl.guard == "" {
		return true
	}
	t, ok := x.tsub["T"]
	if !ok {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == cl.guard
}

// frameVals lists the parameters and instructions of the function of a frame, in program order.
func frameVals(fr *Frame) []ssa.Value {
	var out []ssa.Value
	for _, p := range fr.fn.Params {
		out = append(out, p)
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				out = append(out, v)
			}
		}
	}
	return out
}

type holeCand struct {
	name string
	sv   func(s *lside) SV
}

func (x *Exec) instHints(st *State, fr *Frame, lp *Loop, phis []*ssa.Phi, step map[*ssa.Phi]int64, locs []localKey, iterKeys []iterKey, eside *lside, hi int, h *Clause, add func(string, func(*lside) *Term)) {
	pkg := fr.fn.Pkg
	var tp *types.Package
	if x.root.Pkg != nil {
		tp = x.root.Pkg.Pkg
	} else if o := x.root.Origin(); o != nil {
		tp = o.Pkg.Pkg
	} else if pkg != nil {
		tp = pkg.Pkg
	}
	if h.name != "" {
		tp = x.pkgOf(h.name)
	}
	pools := make([][]holeCand, len(h.holes))
	for i, ho := range h.holes {
		var pool []holeCand
		if ho.typ == "iter" {
			pool = append(pool, holeCand{"iter", func(s *lside) SV { return SV{v: s.iter, t: tInt} }})
			for j, a := range fr.acts {
				a := a
				pool = append(pool, holeCand{fmt.Sprintf("iter%d", j), func(s *lside) SV { return SV{v: a.iter, t: tInt} }})
			}
			pools[i] = pool
			continue
		}
		if strings.HasPrefix(ho.typ, "set[") {
			so, _ := x.specSort(tp, ho.typ)
			for j, k := range iterKeys {
				k := k
				if eside.st.iters[k].sort == so {
					pool = append(pool, holeCand{fmt.Sprintf("vis%d", j), func(s *lside) SV { return SV{v: s.st.iters[k], gs: so} }})
				}
			}
			pools[i] = pool
			continue
		}
		var ty types.Type
		if x.safeEval(func() *Term { ty = x.resolveType(tp, ho.typ); return x.tb.True() }) == nil {
			return
		}
		carried := ho.loop // only variables the loop changes
		for j, p := range phis {
			p := p
			if types.Identical(p.Type(), ty) {
				pool = append(pool, holeCand{fmt.Sprintf("phi%d.%s", j, p.Comment), func(s *lside) SV { return SV{v: s.phi[p], t: ty} }})
			}
		}
		isLoc := map[*ssa.Alloc]bool{}
		for _, l := range locs {
			isLoc[l.a] = true
		}
		// promoted locals (any) and live-in values, in program order
		for _, prm := range fr.fn.Params {
			if carried {
				break
			}
			if v, ok := fr.env[prm]; ok && types.Identical(prm.Type(), ty) {
				pool = append(pool, holeCand{"param." + prm.Name(), func(s *lside) SV { return SV{v: v, t: ty} }})
			}
		}
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				if a, ok := v.(*ssa.Alloc); ok {
					et := a.Type().Underlying().(*types.Pointer).Elem()
					k := localKey{a, fr.id}
					if _, has := eside.st.locals[k]; has && types.Identical(et, ty) {
						pool = append(pool, holeCand{"loc." + a.Comment + "." + a.Name(), func(s *lside) SV { return SV{v: s.st.locals[k], t: ty} }})
					}
				}
				if definedIn(v, lp) || carried {
					continue
				}
				ev, ok := fr.env[v]
				if !ok || !types.Identical(v.Type(), ty) {
					continue
				}
				if _, isA := ev.(*Addr); isA {
					continue
				}
				pool = append(pool, holeCand{"val." + v.Name(), func(s *lside) SV { return SV{v: ev, t: ty} }})
			}
		}
		// a loop in a helper may be about what its callers work on
		for up := fr.up; up != nil && len(pool) == 0 && !carried; up = up.up {
			for _, v := range frameVals(up) {
				v := v
				if a, ok := v.(*ssa.Alloc); ok {
					k := localKey{a, up.id}
					if _, has := eside.st.locals[k]; has && types.Identical(a.Type().Underlying().(*types.Pointer).Elem(), ty) {
						pool = append(pool, holeCand{"up.loc." + a.Comment + "." + a.Name(), func(s *lside) SV { return SV{v: s.st.locals[k], t: ty} }})
					}
				}
				ev, ok := up.env[v]
				if _, isA := ev.(*Addr); !ok || isA || !types.Identical(v.Type(), ty) {
					continue
				}
				pool = append(pool, holeCand{"up." + v.Name(), func(s *lside) SV { return SV{v: ev, t: ty} }})
			}
		}
		pools[i] = pool
	}
	n := 0
	var rec func(i int, ch []holeCand)
	rec = func(i int, ch []holeCand) {
		if n > 150 {
			return
		}
		if i == len(pools) {
			n++
			ch := append([]holeCand{}, ch...)
			var nm []string
			for _, c := range ch {
				nm = append(nm, c.name)
			}
			key := fmt.Sprintf("hint%d(%s): %s", hi, strings.Join(nm, ","), h.src)
			add(key, func(s *lside) *Term {
				vars := map[string]SV{}
				for k, v := range x.rootVar {
					vars[k] = v
				}
				evars := map[string]SV{}
				for k, v := range vars {
					evars[k] = v
				}
				for j, c := range ch {
					vars[h.holes[j].name] = c.sv(s)
					evars[h.holes[j].name] = c.sv(eside)
				}
				if _, ok := vars["iter"]; !ok {
					vars["iter"] = SV{v: s.iter, t: tInt}
				}
				c := &Ctx{x: x, st: s.st, old: x.entry, vars: vars, pkg: tp, loop: &LoopAct{iterKeys: iterKeys, entry: eside}, eVars: evars}
				return c.boolT(h.e)
			})
			return
		}
		for _, c := range pools[i] {
			rec(i+1, append(ch, c))
		}
	}
	rec(0, nil)
}
