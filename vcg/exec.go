package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec verifies one function: it owns a term table and a solver process.
type Exec struct {
	evalErr any
	tb      *TB
	sol     *Solver
	w       *World
	ss      *SpecSet

	sorts     map[string]string
	compType  map[string]types.Type
	init      map[string]*Term
	maps      map[string]*mapInfo
	tids      map[string]int64
	tidT      map[int64]types.Type
	boxAx     map[string]bool
	cardAx    map[string]bool
	bsubAx    bool
	prefAx    bool
	batAx     bool
	facted    map[factKey]bool
	alloc0    *Term
	typeCache map[string]types.Type
	tsub      map[string]types.Type
	sets      map[*Term]*Term
	trail     []func()
	marks     []int

	root    *ssa.Function
	rootC   *Contract
	entry   *State
	rootVar map[string]SV
	prop    string // property being checked ("" = all)
	safety  bool

	obls    map[string]*Obl
	oblOrd  []string
	silent  int
	pc      []*Term
	paths   int
	vcs     int
	returns int
	stepN   int
	start   time.Time
	limit   time.Duration

	usedC   map[string]bool // contracts of repo functions relied on
	usedImp map[string]bool // clauses proved by the checks of other properties
	usedFn  map[string]bool // and the instances they were relied on for
	usedX   map[string]bool // assumed external contracts
	inlined map[string]bool
	retract map[string]bool
	havocd  map[string]bool
	stack   []*ssa.Function
	globals map[*ssa.Global]*Term
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	ghostAx map[string]bool
	cutN    int
	liftN   int
	dropped map[string]map[string]bool
	depth   int
	usedInv map[string]bool
	verbose bool
	cstat   map[string]*[2]int
	known   map[*Term]*Term // literals of the path condition
}

type Obl struct {
	Name    string         `json:"name"`
	Func    string         `json:"func"`
	Kind    string         `json:"kind"`
	Clause  string         `json:"clause"`
	Tags    []string       `json:"tags,omitempty"`
	VCs     int            `json:"vcs"`
	Failed  bool           `json:"failed"`
	Pos     string         `json:"pos,omitempty"`
	Path    []string       `json:"path,omitempty"`
	Why     string         `json:"why,omitempty"`
	Backend map[string]int `json:"backend,omitempty"`
	Ms      int64          `json:"ms"`
}

type FrameID struct{ fn *ssa.Function }

type Frame struct {
	id     *FrameID
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []*deferred
	acts   []*LoopAct
	unroll map[*ssa.BasicBlock]int
	ret    func(st *State, rs []Val)
	c      *Contract
	up     *Frame // of the caller, when inlined
}

type deferred struct {
	call ssa.CallCommon
	args []Val
	fnv  Val
	pos  token.Pos
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]Val, len(fr.env)+8)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	n.acts = fr.acts[:len(fr.acts):len(fr.acts)]
	if len(fr.unroll) > 0 {
		n.unroll = map[*ssa.BasicBlock]int{}
		for k, v := range fr.unroll {
			n.unroll[k] = v
		}
	}
	return &n
}

type stopVerify string

func NewExec(w *World, ss *SpecSet, stats *Stats, dir string) *Exec {
	tb := NewTB()
	x := &Exec{tb: tb, w: w, ss: ss, sorts: map[string]string{}, compType: map[string]types.Type{}, init: map[string]*Term{}, maps: map[string]*mapInfo{},
		tids: map[string]int64{}, tidT: map[int64]types.Type{}, boxAx: map[string]bool{}, cardAx: map[string]bool{}, facted: map[factKey]bool{},
		typeCache: map[string]types.Type{}, sets: map[*Term]*Term{}, obls: map[string]*Obl{}, usedC: map[string]bool{}, usedImp: map[string]bool{}, usedFn: map[string]bool{}, usedX: map[string]bool{}, inlined: map[string]bool{},
		retract: map[string]bool{}, havocd: map[string]bool{}, globals: map[*ssa.Global]*Term{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, ghostAx: map[string]bool{}, dropped: map[string]map[string]bool{}, usedInv: map[string]bool{}, known: map[*Term]*Term{}}
	x.sol = NewSolver(tb, stats, dir)
	x.limit = 240 * time.Second
	return x
}

func (x *Exec) remember(f func()) { x.trail = append(x.trail, f) }
func (x *Exec) push() {
	x.marks = append(x.marks, len(x.trail))
	x.sol.Push()
}
func (x *Exec) pop() {
	m := x.marks[len(x.marks)-1]
	x.marks = x.marks[:len(x.marks)-1]
	for i := len(x.trail) - 1; i >= m; i-- {
		x.trail[i]()
	}
	x.trail = x.trail[:m]
	x.sol.Pop()
}

func (x *Exec) assume(t *Term) {
	t = x.simp(t)
	x.sol.Assert(t)
	x.learn(t)
}

// simp rewrites t with the literals of the current path condition.
func (x *Exec) simp(t *Term) *Term {
	if len(x.known) == 0 || t.op == "true" || t.op == "false" {
		return t
	}
	return x.tb.Subst(t, x.known)
}

func (x *Exec) learn(t *Term) {
	if t.hasB {
		return
	}
	set := func(k, v *Term) {
		if _, has := x.known[k]; has {
			return
		}
		x.known[k] = v
		x.remember(func() { delete(x.known, k) })
	}
	switch t.op {
	case "and":
		for _, a := range t.args {
			x.learn(a)
		}
	case "not":
		if t.args[0].op != "forall" && t.args[0].op != "exists" {
			set(t.args[0], x.tb.False())
		}
		if t.args[0].op == "or" {
			for _, a := range t.args[0].args {
				x.learn(x.tb.Not(a))
			}
		}
	case "=":
		a, b := t.args[0], t.args[1]
		if isLit(a) {
			a, b = b, a
		}
		if isLit(b) && !isLit(a) {
			set(a, b)
		}
		set(t, x.tb.True())
	case "true", "false", "forall", "exists":
	default:
		set(t, x.tb.True())
	}
}

func isLit(t *Term) bool {
	return t.op == "int" || t.op == "strlit" || t.op == "app" && t.name == "null"
}

func (x *Exec) valid(t *Term, ms int, fallback bool) (bool, string, string) {
	return x.sol.Valid(x.simp(t), ms, fallback)
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.w.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// tagOK: does a clause with these tags belong to the current check?
func (x *Exec) tagOK(tags []string) bool {
	if len(tags) == 0 || x.prop == "" {
		return true
	}
	for _, t := range tags {
		if t == x.prop || len(t) > 1 && (t[0] == '~' || t[0] == '^') && t[1:] == x.prop {
			return true
		}
	}
	return false
}

// imported: the clause is only assumed at call sites in this check; the check
// of another property proves it.
func (x *Exec) imported(tags []string) bool {
	in := false
	for _, t := range tags {
		if t == x.prop || t == "~"+x.prop {
			return false
		}
		in = in || t == "^"+x.prop
	}
	return in
}

// importOnly: nothing of the contract is left to prove in this check.
func (x *Exec) importOnly(c *Contract) bool {
	in := false
	for _, cl := range c.Clauses {
		if cl.kind == "hint" {
			continue
		}
		for _, t := range cl.tags {
			if t == x.prop || t == "~"+x.prop {
				return false
			}
			in = in || t == "^"+x.prop
		}
	}
	return in
}

func (x *Exec) obl(name, kind, clause string, tags []string) *Obl {
	o := x.obls[name]
	if o == nil {
		o = &Obl{Name: name, Func: fnKey(x.root), Kind: kind, Clause: clause, Tags: tags, Backend: map[string]int{}}
		x.obls[name] = o
		x.oblOrd = append(x.oblOrd, name)
	}
	return o
}

// oblige proves cond now (unless silent) and then assumes it.
func (x *Exec) oblige(st *State, name, kind, clause string, tags []string, cond *Term, pos token.Pos) {
	if x.silent == 0 {
		o := x.obl(name, kind, clause, tags)
		if !o.Failed {
			x.vcs++
			o.VCs++
			t0 := time.Now()
			ok, be, why := x.valid(cond, 2500, true)
			o.Ms += time.Since(t0).Milliseconds()
			if ok {
				o.Backend[be]++
			} else {
				o.Failed = true
				o.Pos = x.posStr(pos)
				o.Path = append([]string{}, st.trace...)
				o.Why = why
				if x.verbose {
					fmt.Printf("    FAIL %s: %s\n      goal: %s\n      path: %s\n      %s\n", name, clause, cond, strings.Join(st.trace, " "), why)
				}
			}
		}
	}
	if !isFalse(cond) {
		x.assume(cond)
	}
}

// safe: a run-time safety condition
func (x *Exec) safe(st *State, fr *Frame, what string, cond *Term, pos token.Pos) {
	if isTrue(cond) {
		return
	}
	k := factKey{cond, nil}
	if x.facted[k] {
		return
	}
	x.facted[k] = true
	x.remember(func() { delete(x.facted, k) })
	if x.safety {
		x.oblige(st, fmt.Sprintf("%s/safe/%s@%s", fnKey(x.root), what, x.posStr(pos)), "safety", what+" in "+fnKey(fr.fn), nil, cond, pos)
		return
	}
	x.assume(cond)
}

func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		s := rawKey(o)
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok && n.TypeArgs() != nil {
				return s + "[" + tstr(n.TypeArgs().At(0)) + "]"
			}
		}
		var as []string
		for _, a := range f.TypeArgs() {
			as = append(as, tstr(a))
		}
		return s + "[" + strings.Join(as, ",") + "]"
	}
	return rawKey(f)
}

// rawKey: contract key of a (possibly generic) function
func rawKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		if f.Object() == nil || f.Object().Pkg() == nil {
			return f.String()
		}
	}
	pn := ""
	if f.Pkg != nil {
		pn = f.Pkg.Pkg.Name()
	} else {
		pn = f.Object().Pkg().Name()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		ptr := ""
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			ptr = "*"
		}
		n, ok := t.(*types.Named)
		if ok {
			if ptr != "" {
				return fmt.Sprintf("%s.(*%s).%s", pn, n.Obj().Name(), f.Name())
			}
			return fmt.Sprintf("%s.(%s).%s", pn, n.Obj().Name(), f.Name())
		}
	}
	if f.Parent() != nil {
		return rawKey(f.Parent()) + "$" + f.Name()
	}
	return pn + "." + f.Name()
}

func typeSub(f *ssa.Function) map[string]types.Type {
	m := map[string]types.Type{}
	if o := f.Origin(); o != nil {
		if r := o.Signature.Recv(); r != nil {
			rt, ft := r.Type(), f.Signature.Recv().Type()
			if p, ok := rt.(*types.Pointer); ok {
				rt = p.Elem()
				ft = ft.(*types.Pointer).Elem()
			}
			if n, ok := rt.(*types.Named); ok && n.TypeArgs() != nil {
				for i := 0; i < n.TypeArgs().Len(); i++ {
					if tp, ok := n.TypeArgs().At(i).(*types.TypeParam); ok {
						m[tp.Obj().Name()] = ft.(*types.Named).TypeArgs().At(i)
					}
				}
			}
		}
		tps := o.TypeParams()
		for i := 0; i < tps.Len() && i < len(f.TypeArgs()); i++ {
			m[tps.At(i).Obj().Name()] = f.TypeArgs()[i]
		}
	}
	return m
}

func (x *Exec) contractOf(f *ssa.Function) *Contract {
	k := rawKey(f)
	if x.retract[k] {
		return nil
	}
	c := x.ss.Contracts[k]
	if c == nil || c.Extern {
		return nil
	}
	if n := len(f.Params); len(c.Params) != n {
		return nil
	}
	return c
}

// ---- instruction execution ----

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	if r, ok := fr.env[v]; ok {
		return r
	}
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return x.globalRef(c)
	case *ssa.Function:
		return &Clo{fn: c}
	case *ssa.Builtin:
		return &Clo{}
	}
	panic(unsupported(fmt.Sprintf("value %s (%T) not available in %s", v.Name(), v, fr.fn)))
}

func (x *Exec) constVal(c *ssa.Const) Val {
	tb := x.tb
	t := c.Type()
	if c.Value == nil {
		return x.zeroOf(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return tb.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return tb.Str(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			n, _ := constant.Int64Val(c.Value)
			x.declSort("Float")
			return tb.Fn("i2f", "Float", tb.Int(n))
		}
		if n, ok := constant.Int64Val(c.Value); ok {
			return tb.Int(n)
		}
		return tb.Const(sym("bigint:"+c.Value.ExactString()), "Int")
	case constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			x.declSort("Float")
			if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
				n, _ := constant.Int64Val(i)
				return tb.Fn("i2f", "Float", tb.Int(n))
			}
			return tb.Const(sym("float:"+c.Value.ExactString()), "Float")
		}
	}
	panic(unsupported("constant " + c.String()))
}

func (x *Exec) globalRef(g *ssa.Global) *Term {
	if r, ok := x.globals[g]; ok {
		return r
	}
	// a stable negative object id per global
	n := int64(fnv(g.String()))%1000003 + 10
	for {
		clash := false
		for _, r := range x.globals {
			if r.args[0].n == -n {
				clash = true
			}
		}
		if !clash {
			break
		}
		n++
	}
	r := x.tb.Obj(x.tb.Int(-n))
	x.globals[g] = r
	return r
}

func (x *Exec) enter(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	x.stepN++
	if x.stepN%64 == 0 && time.Since(x.start) > x.limit {
		panic(stopVerify("time limit exceeded"))
	}
	// leaving active loops
	for len(fr.acts) > 0 {
		a := fr.acts[len(fr.acts)-1]
		if a.lp.blocks[to] {
			break
		}
		if a.silent {
			return
		}
		fr.acts = fr.acts[:len(fr.acts)-1]
	}
	lp := x.loopsOf(fr.fn)[to]
	if lp != nil {
		if n := len(fr.acts); n > 0 && fr.acts[n-1].lp == lp {
			fr.acts[n-1].onBack(st, fr, from)
			return
		}
		if !lp.blocks[from] {
			if fr.unroll != nil {
				delete(fr.unroll, to)
			}
		}
		if fr.unroll[to] < 40 && x.canUnroll(st, fr, from, lp) {
			if fr.unroll == nil {
				fr.unroll = map[*ssa.BasicBlock]int{}
			}
			fr.unroll[to]++
		} else {
			x.cut(st, fr, from, lp)
			return
		}
	}
	x.phis(st, fr, from, to)
	x.run(st, fr, to, nphi(to))
}

func nphi(b *ssa.BasicBlock) int {
	n := 0
	for _, i := range b.Instrs {
		if _, ok := i.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func predIdx(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	panic("predIdx")
}

func (x *Exec) phis(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	n := nphi(to)
	if n == 0 {
		return
	}
	k := predIdx(to, from)
	vs := make([]Val, n)
	for i := 0; i < n; i++ {
		vs[i] = x.val(fr, to.Instrs[i].(*ssa.Phi).Edges[k])
	}
	for i := 0; i < n; i++ {
		fr.env[to.Instrs[i].(*ssa.Phi)] = vs[i]
	}
}

func (x *Exec) run(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Jump:
			x.enter(st, fr, b, b.Succs[0])
			return
		case *ssa.If:
			c := x.simp(x.val(fr, in.Cond).(*Term))
			if isTrue(c) {
				x.enter(st, fr, b, b.Succs[0])
				return
			}
			if isFalse(c) {
				x.enter(st, fr, b, b.Succs[1])
				return
			}
			if x.ifConvert(st, fr, b, c) {
				return
			}
			x.branch(st, fr, b, in, c)
			return
		case *ssa.Return:
			rs := make([]Val, len(in.Results))
			for j, r := range in.Results {
				rs[j] = x.val(fr, r)
			}
			st.trace = append(st.trace, "return@"+x.posStr(in.Pos()))
			for _, a := range fr.acts {
				if a.silent {
					return
				}
			}
			fr.ret(st, rs)
			return
		case *ssa.Panic:
			x.safe(st, fr, "panic", x.tb.False(), in.Pos())
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			x.runDefers(st, fr, ds, func(st *State, fr *Frame) { x.run(st, fr, b, i+1) })
			return
		case *ssa.Call:
			x.doCall(st, fr, in, &in.Call, in.Pos(), func(st *State, fr *Frame, v Val) {
				fr.env[in] = v
				x.run(st, fr, b, i+1)
			})
			return
		default:
			if !x.instr(st, fr, in) {
				return
			}
		}
	}
}

func (x *Exec) runDefers(st *State, fr *Frame, ds []*deferred, k func(*State, *Frame)) {
	if len(ds) == 0 {
		k(st, fr)
		return
	}
	d := ds[len(ds)-1]
	x.callWith(st, fr, &d.call, d.fnv, d.args, d.pos, func(st *State, fr *Frame, v Val) {
		x.runDefers(st, fr, ds[:len(ds)-1], k)
	})
}

func (x *Exec) condPos(in *ssa.If) token.Pos {
	if v, ok := in.Cond.(ssa.Instruction); ok && v.Pos().IsValid() {
		return v.Pos()
	}
	for _, i := range in.Block().Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return token.NoPos
}

func (x *Exec) branch(st *State, fr *Frame, b *ssa.BasicBlock, in *ssa.If, c *Term) {
	pos := x.posStr(x.condPos(in))
	// true side
	for side := 0; side < 2; side++ {
		cond := c
		lab := "T"
		if side == 1 {
			cond = x.tb.Not(c)
			lab = "F"
		}
		x.push()
		x.assume(cond)
		x.pc = append(x.pc, cond)
		if x.sol.Feasible() {
			st2, fr2 := st, fr
			if side == 0 {
				st2, fr2 = st.clone(), fr.clone()
			}
			st2.trace = append(st2.trace, pos+lab)
			x.enter(st2, fr2, b, b.Succs[side])
		}
		x.pc = x.pc[:len(x.pc)-1]
		x.pop()
	}
}

// fork explores alternatives under conditions
func (x *Exec) fork(st *State, fr *Frame, conds []*Term, k func(i int, st *State, fr *Frame)) {
	for i, c := range conds {
		if isFalse(c) {
			continue
		}
		x.push()
		x.assume(c)
		x.pc = append(x.pc, c)
		if isTrue(c) || x.sol.Feasible() {
			k(i, st.clone(), fr.clone())
		}
		x.pc = x.pc[:len(x.pc)-1]
		x.pop()
	}
}

func (x *Exec) mkIte(c *Term, a, b Val) Val {
	if isTrue(c) {
		return a
	}
	if isFalse(c) {
		return b
	}
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok {
			return x.tb.Ite(c, p, q)
		}
	case *Comp:
		if q, ok := b.(*Comp); ok {
			r := &Comp{t: p.t}
			for i := range p.f {
				r.f = append(r.f, x.mkIte(c, p.f[i], q.f[i]))
			}
			return r
		}
	case Tuple:
		if q, ok := b.(Tuple); ok {
			var r Tuple
			for i := range p {
				r = append(r, x.mkIte(c, p[i], q[i]))
			}
			return r
		}
	case *Addr:
		if q, ok := b.(*Addr); ok && sameAddr(p, q) {
			return p
		}
	}
	panic(unsupported(fmt.Sprintf("conditional value of %T and %T", a, b)))
}

func (x *Exec) nonNil(st *State, fr *Frame, r *Term, what string, pos token.Pos) {
	x.safe(st, fr, what, x.tb.Not(x.tb.Eq(r, x.tb.Null())), pos)
}

func promotable(a *ssa.Alloc) bool {
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		rs := v.Referrers()
		if rs == nil {
			return false
		}
		for _, r := range *rs {
			switch u := r.(type) {
			case *ssa.Store:
				if u.Val == v {
					return false
				}
			case *ssa.UnOp:
				if u.Op != token.MUL {
					return false
				}
			case *ssa.FieldAddr:
				if !ok(u) {
					return false
				}
			case *ssa.IndexAddr:
				if _, isC := u.Index.(*ssa.Const); !isC || isByteArr(u.X.Type().Underlying().(*types.Pointer).Elem()) {
					return false
				}
				if !ok(u) {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return ok(a)
}

func (x *Exec) instr(st *State, fr *Frame, in ssa.Instruction) bool {
	tb := x.tb
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		if promotable(in) {
			k := localKey{in, fr.id}
			st.locals[k] = x.zeroOf(et)
			fr.env[in] = &Addr{local: &k, t: et}
			return true
		}
		if a, ok := et.Underlying().(*types.Array); ok && !isByteArr(et) {
			r := x.newArr(st, a.Elem(), a.Len())
			fr.env[in] = r
			return true
		}
		fr.env[in] = x.newObj(st, et)
	case *ssa.Phi:
		panic("phi")
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			fr.env[in] = x.load(st, fr, x.val(fr, in.X), in.Type(), in.Pos())
		case token.NOT:
			fr.env[in] = tb.Not(x.val(fr, in.X).(*Term))
		case token.SUB:
			t := x.val(fr, in.X).(*Term)
			if t.sort == "Float" {
				fr.env[in] = tb.Fn("fneg", "Float", t)
			} else {
				fr.env[in] = tb.Neg(t)
			}
		case token.XOR:
			fr.env[in] = tb.Fn("gonot", "Int", x.val(fr, in.X).(*Term))
		default:
			panic(unsupported("unary " + in.Op.String()))
		}
	case *ssa.BinOp:
		fr.env[in] = x.binop(st, fr, in)
	case *ssa.Store:
		x.store(st, fr, x.val(fr, in.Addr), in.Addr.Type().Underlying().(*types.Pointer).Elem(), x.val(fr, in.Val), in.Pos())
	case *ssa.FieldAddr:
		fr.env[in] = x.fieldAddr(st, fr, in)
	case *ssa.Field:
		v := x.val(fr, in.X)
		c, ok := v.(*Comp)
		if !ok {
			panic(unsupported("field of opaque struct"))
		}
		fr.env[in] = c.f[in.Field]
	case *ssa.IndexAddr:
		fr.env[in] = x.indexAddr(st, fr, in)
	case *ssa.Index:
		v := x.val(fr, in.X)
		i := x.val(fr, in.Index).(*Term)
		switch y := v.(type) {
		case *Term:
			if y.sort == "Str" {
				x.safe(st, fr, "index", tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, x.strlen(y))), in.Pos())
				fr.env[in] = x.charAt(y, i)
				return true
			}
		case *Comp:
			if i.op == "int" && i.n >= 0 && int(i.n) < len(y.f) {
				fr.env[in] = y.f[i.n]
				return true
			}
			x.safe(st, fr, "index", tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, tb.Int(int64(len(y.f))))), in.Pos())
			v := y.f[len(y.f)-1]
			for j := len(y.f) - 2; j >= 0; j-- {
				v = x.mkIte(tb.Eq(i, tb.Int(int64(j))), y.f[j], v)
			}
			fr.env[in] = v
			return true
		}
		panic(unsupported("index"))
	case *ssa.Lookup:
		fr.env[in] = x.lookup(st, fr, in)
	case *ssa.MapUpdate:
		m := x.val(fr, in.Map).(*Term)
		x.safe(st, fr, "write to nil map", tb.Not(tb.Eq(m, tb.Null())), in.Pos())
		x.mapPut(st, m, in.Map.Type(), x.leaf(x.val(fr, in.Key)), x.val(fr, in.Value))
	case *ssa.MakeMap:
		x.mapInfo(in.Type())
		fr.env[in] = x.newObj(st, in.Type())
	case *ssa.MakeSlice:
		l := x.val(fr, in.Len).(*Term)
		c := x.val(fr, in.Cap).(*Term)
		x.safe(st, fr, "makeslice size", tb.And(tb.Le(tb.Int(0), l), tb.Le(l, c)), in.Pos())
		fr.env[in] = x.makeSlice(st, in.Type().Underlying().(*types.Slice).Elem(), l, c)
	case *ssa.MakeInterface:
		v := x.val(fr, in.X)
		if _, ok := v.(*Addr); ok {
			panic(unsupported("interface holding address of scalar"))
		}
		fr.env[in] = x.mkIface(v, in.X.Type())
	case *ssa.MakeClosure:
		c := &Clo{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, x.val(fr, b))
		}
		fr.env[in] = c
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var src ssa.Value
		var dt types.Type
		switch y := in.(type) {
		case *ssa.ChangeInterface:
			src, dt = y.X, y.Type()
		case *ssa.ChangeType:
			src, dt = y.X, y.Type()
		}
		v := x.val(fr, src)
		if c, ok := v.(*Comp); ok {
			v = &Comp{t: dt, f: c.f}
		}
		fr.env[in.(ssa.Value)] = v
	case *ssa.Convert:
		fr.env[in] = x.convert(st, fr, in)
	case *ssa.TypeAssert:
		fr.env[in] = x.typeAssert(st, fr, in)
	case *ssa.Extract:
		t := x.val(fr, in.Tuple).(Tuple)
		fr.env[in] = t[in.Index]
	case *ssa.Slice:
		fr.env[in] = x.slice(st, fr, in)
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	case *ssa.Range:
		v := x.val(fr, in.X).(*Term)
		fr.env[in] = v
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			mi := x.mapInfo(mt)
			st.iters[iterKey{fr.id, in}] = tb.ConstArr(mi.ks, tb.False())
			st.iterDom(x, iterKey{fr.id, in}, x.rd(st, mi.md, v))
		}
	case *ssa.Next:
		x.next(st, fr, in)
	case *ssa.Defer:
		d := &deferred{call: in.Call, pos: in.Pos()}
		if !in.Call.IsInvoke() {
			d.fnv = x.val(fr, in.Call.Value)
		} else {
			d.fnv = x.val(fr, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(fr, a))
		}
		fr.defers = append(fr.defers, d)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	return true
}

func (st *State) iterDom(x *Exec, k iterKey, d *Term) {
	if st.doms == nil {
		st.doms = map[iterKey]*Term{}
	}
	n := map[iterKey]*Term{}
	for a, b := range st.doms {
		n[a] = b
	}
	n[k] = d
	st.doms = n
}

func (x *Exec) next(st *State, fr *Frame, in *ssa.Next) {
	tb := x.tb
	rg, ok := in.Iter.(*ssa.Range)
	tt := in.Type().(*types.Tuple)
	if in.IsString || !ok {
		fr.env[in] = Tuple{tb.Fresh("next.ok", "Bool"), x.freshVal(st, "next.i", tInt), x.freshVal(st, "next.r", types.Typ[types.Rune])}
		return
	}
	mt := rg.X.Type().Underlying().(*types.Map)
	mi := x.mapInfo(mt)
	m := x.val(fr, rg).(*Term)
	key := iterKey{fr.id, rg}
	vis := st.iters[key]
	dom0 := st.doms[key]
	dom := x.rd(st, mi.md, m)
	okv := tb.Fresh("next.ok", "Bool")
	k := tb.Fresh("next.k", mi.ks)
	x.assume(tb.Imp(okv, tb.And(tb.Select(dom, k), tb.Not(tb.Select(vis, k)))))
	kb := tb.BVar("k", mi.ks)
	all := tb.Imp(tb.And(tb.Select(dom, kb), tb.Select(dom0, kb)), tb.Select(vis, kb))
	if dom == dom0 {
		all = tb.Imp(tb.Select(dom, kb), tb.Select(vis, kb))
	}
	var pats []*Term
	if s := tb.Select(dom, kb); s.op == "select" {
		pats = append(pats, s)
	}
	if s := tb.Select(vis, kb); s.op == "select" {
		pats = append(pats, s)
	}
	x.assume(tb.Imp(tb.Not(okv), tb.Forall([]*Term{kb}, all, pats...)))
	st.iters[key] = tb.Ite(okv, tb.Store(vis, k, tb.True()), vis)
	var kv, vv Val = k, tb.Int(0)
	if _, invalid := tt.At(2).Type().(*types.Basic); !invalid || tt.At(2).Type() != types.Typ[types.Invalid] {
		var ts []*Term
		for _, c := range mi.mv {
			ts = append(ts, tb.Select(x.rd(st, c, m), k))
		}
		vv, _ = x.w.unflatten(ts, mt.Elem())
		x.deepFacts(st, vv, mt.Elem())
	}
	fr.env[in] = Tuple{okv, kv, vv}
}

func (x *Exec) deepFacts(st *State, v Val, t types.Type) {
	switch y := v.(type) {
	case *Term:
		x.valFacts(st, y, t)
		if y.sort == "Iface" && !y.hasB {
			x.ifaceFacts(y)
		}
	case *Comp:
		for i, ft := range x.w.fieldTypes(t) {
			x.deepFacts(st, y.f[i], ft)
		}
	}
}

func (x *Exec) ifaceFacts(v *Term) {
	if ctorTop(v) {
		return
	}
	k := factKey{v, nil}
	if x.facted[k] {
		return
	}
	x.facted[k] = true
	x.remember(func() { delete(x.facted, k) })
	tb := x.tb
	x.assume(tb.Le(tb.Int(0), tb.App("itid", "Int", v)))
	x.assume(tb.Imp(tb.Eq(tb.App("itid", "Int", v), tb.Int(0)), tb.Eq(v, tb.NilIf())))
}

func (x *Exec) charAt(s, i *Term) *Term {
	if s.op == "strlit" && i.op == "int" && i.n >= 0 && int(i.n) < len(s.name) {
		return x.tb.Int(int64(s.name[i.n]))
	}
	return x.bat(s, i)
}

func (x *Exec) load(st *State, fr *Frame, a Val, t types.Type, pos token.Pos) Val {
	switch p := a.(type) {
	case *Addr:
		return x.loadAddr(st, p)
	case *Term:
		if p.sort != "Ref" {
			panic(unsupported("load through " + p.sort))
		}
		x.nonNil(st, fr, p, "nil dereference", pos)
		v := x.loadAt(st, p, t)
		x.deepFacts(st, v, t)
		return v
	}
	panic(unsupported(fmt.Sprintf("load through %T", a)))
}

func (x *Exec) getPath(v Val, path []int) Val {
	for _, i := range path {
		v = v.(*Comp).f[i]
	}
	return v
}

func (x *Exec) setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	c := v.(*Comp)
	n := &Comp{t: c.t, f: append([]Val{}, c.f...)}
	n.f[path[0]] = x.setPath(c.f[path[0]], path[1:], nv)
	return n
}

func (x *Exec) loadAddr(st *State, a *Addr) Val {
	switch {
	case a.local != nil:
		v, ok := st.locals[*a.local]
		if !ok {
			panic(unsupported("local not available"))
		}
		return x.getPath(v, a.path)
	case a.byteOf != nil:
		return x.bat(x.rd(st, x.bcComp(), a.byteOf), a.idx)
	default:
		v := x.rd(st, x.fieldComp(a.st, a.fi), a.ref)
		x.deepFacts(st, v, a.t)
		return v
	}
}

func (x *Exec) store(st *State, fr *Frame, a Val, t types.Type, v Val, pos token.Pos) {
	switch p := a.(type) {
	case *Addr:
		switch {
		case p.local != nil:
			st.locals[*p.local] = x.setPath(st.locals[*p.local], p.path, v)
		case p.byteOf != nil:
			b := x.rd(st, x.bcComp(), p.byteOf)
			x.wr(st, x.bcComp(), p.byteOf, x.bset(b, p.idx, x.leaf(v)))
		default:
			if x.w.leafSort(p.t) == "Func" {
				return
			}
			x.wr(st, x.fieldComp(p.st, p.fi), p.ref, x.leaf(v))
			x.escIfHeap(st, p.ref, v)
		}
	case *Term:
		x.nonNil(st, fr, p, "nil dereference", pos)
		x.storeAt(st, p, t, v)
	default:
		panic(unsupported(fmt.Sprintf("store through %T", a)))
	}
}

func (x *Exec) fieldAddr(st *State, fr *Frame, in *ssa.FieldAddr) Val {
	base := x.val(fr, in.X)
	et := in.X.Type().Underlying().(*types.Pointer).Elem()
	ft := et.Underlying().(*types.Struct).Field(in.Field).Type()
	switch p := base.(type) {
	case *Addr:
		if p.local != nil {
			return &Addr{local: p.local, path: append(append([]int{}, p.path...), in.Field), t: ft}
		}
		panic(unsupported("field of field address"))
	case *Term:
		x.nonNil(st, fr, p, "nil dereference", in.Pos())
		if x.w.leafSort(ft) != "" {
			return &Addr{ref: p, st: et, fi: in.Field, t: ft}
		}
		return x.tb.SubR(p, int64(in.Field))
	}
	panic(unsupported("fieldaddr"))
}

func (x *Exec) indexAddr(st *State, fr *Frame, in *ssa.IndexAddr) Val {
	tb := x.tb
	base := x.val(fr, in.X)
	i := x.val(fr, in.Index).(*Term)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := base.(*Term)
		x.safe(st, fr, "index out of range", tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, tb.SLen(s))), in.Pos())
		if isByte(u.Elem()) {
			return &Addr{byteOf: tb.SArr(s), idx: tb.Add(tb.SOff(s), i), t: u.Elem()}
		}
		return tb.Elt(tb.SArr(s), tb.Add(tb.SOff(s), i))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		x.safe(st, fr, "index out of range", tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, tb.Int(at.Len()))), in.Pos())
		switch p := base.(type) {
		case *Addr:
			if p.local != nil && i.op == "int" {
				return &Addr{local: p.local, path: append(append([]int{}, p.path...), int(i.n)), t: at.Elem()}
			}
			panic(unsupported("index of scalar address"))
		case *Term:
			x.nonNil(st, fr, p, "nil dereference", in.Pos())
			if isByte(at.Elem()) {
				return &Addr{byteOf: p, idx: i, t: at.Elem()}
			}
			return tb.Elt(p, i)
		}
	}
	panic(unsupported("indexaddr"))
}

func (x *Exec) mapGet(st *State, m *Term, t types.Type, k *Term) (*Term, Val) {
	tb := x.tb
	mi := x.mapInfo(t)
	d := tb.Select(x.rd(st, mi.md, m), k)
	var ts []*Term
	for _, c := range mi.mv {
		ts = append(ts, tb.Select(x.rd(st, c, m), k))
	}
	v, _ := x.w.unflatten(ts, mi.vt)
	if !k.hasB {
		x.deepFacts(st, v, mi.vt)
	}
	return d, x.mkIte(d, v, x.zeroOf(mi.vt))
}

func (x *Exec) mapPut(st *State, m *Term, t types.Type, k *Term, v Val) {
	tb := x.tb
	mi := x.mapInfo(t)
	x.wr(st, mi.md, m, tb.Store(x.rd(st, mi.md, m), k, tb.True()))
	var ts []*Term
	if _, ok := v.(*Term); ok || len(mi.mv) > 1 || len(mi.lv) != 1 {
		if len(mi.mv) > 0 {
			ts = x.w.flatten(v, mi.vt)
		}
	} else {
		ts = []*Term{x.leaf(v)}
	}
	for i, c := range mi.mv {
		x.wr(st, c, m, tb.Store(x.rd(st, c, m), k, ts[i]))
	}
	x.escIfHeap(st, m, v)
	if _, virt := st.objs[m]; virt {
		// values held by a virtual map must not stay virtual: lookups may alias
		x.escapeVal(st, v)
	}
}

func (x *Exec) lookup(st *State, fr *Frame, in *ssa.Lookup) Val {
	tb := x.tb
	b := x.val(fr, in.X).(*Term)
	k := x.leaf(x.val(fr, in.Index))
	if b.sort == "Str" {
		x.safe(st, fr, "index out of range", tb.And(tb.Le(tb.Int(0), k), tb.Lt(k, x.strlen(b))), in.Pos())
		return x.charAt(b, k)
	}
	d, v := x.mapGet(st, b, in.X.Type(), k)
	if in.CommaOk {
		return Tuple{v, d}
	}
	return v
}

func (x *Exec) makeSlice(st *State, et types.Type, l, c *Term) *Term {
	tb := x.tb
	if isByte(et) {
		r := x.newRef(st)
		b := tb.Fn("zbytes", "Str", c)
		x.assume(tb.Eq(x.strlen(b), c))
		st.objs[r] = &VObj{root: r, cells: map[cellKey]*Term{{x.bcComp(), r}: b}}
		return tb.MkSl(r, tb.Int(0), l, c)
	}
	if c.op == "int" && c.n <= 16 {
		r := x.newArr(st, et, c.n)
		return tb.MkSl(r, tb.Int(0), l, c)
	}
	r := x.newRef(st)
	// zeroed elements
	for i, cmp := range x.elemComps(et) {
		v := tb.BVar("e", "Int")
		cell := tb.Select(x.comp(st, cmp.comp), cmp.at(tb, tb.Elt(r, v)))
		_ = i
		x.assume(tb.Forall([]*Term{v}, tb.Imp(tb.And(tb.Le(tb.Int(0), v), tb.Lt(v, c)), tb.Eq(cell, x.zeroOf(cmp.t).(*Term))), cell))
	}
	return tb.MkSl(r, tb.Int(0), l, c)
}

type elemComp struct {
	comp string
	subs []int64
	t    types.Type
}

func (e elemComp) at(tb *TB, r *Term) *Term {
	for _, s := range e.subs {
		r = tb.SubR(r, s)
	}
	return r
}

// elemComps lists the cells of a value of type t stored at a ref
func (x *Exec) elemComps(t types.Type) []elemComp {
	var out []elemComp
	var walk func(t types.Type, subs []int64)
	walk = func(t types.Type, subs []int64) {
		if s := x.w.leafSort(t); s != "" {
			if s != "Func" {
				out = append(out, elemComp{x.memComp(t), append([]int64{}, subs...), t})
			}
			return
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(unsupported("array of arrays"))
		}
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if s := x.w.leafSort(ft); s != "" {
				if s != "Func" {
					out = append(out, elemComp{x.fieldComp(t, i), append([]int64{}, subs...), ft})
				}
			} else {
				walk(ft, append(subs, int64(i)))
			}
		}
	}
	walk(t, nil)
	return out
}

func (x *Exec) binop(st *State, fr *Frame, in *ssa.BinOp) Val {
	tb := x.tb
	a, b := x.val(fr, in.X), x.val(fr, in.Y)
	if in.Op == token.EQL || in.Op == token.NEQ {
		e := x.eqGo(a, b, in.X.Type(), in.Y.Type())
		if in.Op == token.NEQ {
			return tb.Not(e)
		}
		return e
	}
	p, q := a.(*Term), b.(*Term)
	switch p.sort {
	case "Int":
		switch in.Op {
		case token.ADD:
			return tb.Add(p, q)
		case token.SUB:
			return tb.Sub(p, q)
		case token.MUL:
			return tb.Mul(p, q)
		case token.LSS:
			return tb.Lt(p, q)
		case token.LEQ:
			return tb.Le(p, q)
		case token.GTR:
			return tb.Gt(p, q)
		case token.GEQ:
			return tb.Ge(p, q)
		case token.QUO, token.REM:
			x.safe(st, fr, "division by zero", tb.Not(tb.Eq(q, tb.Int(0))), in.Pos())
			nm := "godiv"
			if in.Op == token.REM {
				nm = "gorem"
			}
			if p.op == "int" && q.op == "int" && q.n != 0 {
				if nm == "godiv" {
					return tb.Int(p.n / q.n)
				}
				return tb.Int(p.n % q.n)
			}
			r := tb.Fn(nm, "Int", p, q)
			if q.op == "int" && q.n > 0 && nm == "gorem" {
				// p = q*(p/q) + p%q, same sign as p
				d := tb.Fn("godiv", "Int", p, q)
				x.assume(tb.Eq(p, tb.Add(tb.Mul(q, d), r)))
				x.assume(tb.Imp(tb.Le(tb.Int(0), p), tb.And(tb.Le(tb.Int(0), r), tb.Lt(r, q))))
				x.assume(tb.Imp(tb.Le(p, tb.Int(0)), tb.And(tb.Le(r, tb.Int(0)), tb.Lt(tb.Neg(q), r))))
			}
			return r
		case token.SHL, token.SHR:
			if yb, ok := in.Y.Type().Underlying().(*types.Basic); ok && yb.Info()&types.IsUnsigned == 0 {
				x.safe(st, fr, "negative shift", tb.Le(tb.Int(0), q), in.Pos())
			}
			if in.Op == token.SHL {
				if p.op == "int" && p.n == 1 {
					return x.ufApp("g.pow2", "Int", []*Term{q})
				}
				return tb.Fn("goshl", "Int", p, q)
			}
			return x.ufApp("g.shr", "Int", []*Term{p, q})
		case token.AND:
			return tb.Fn("goand", "Int", p, q)
		case token.OR:
			return tb.Fn("goor", "Int", p, q)
		case token.XOR:
			return tb.Fn("goxor", "Int", p, q)
		case token.AND_NOT:
			return tb.Fn("goandnot", "Int", p, q)
		}
	case "Str":
		switch in.Op {
		case token.ADD:
			return tb.Cat(p, q)
		case token.LSS:
			return tb.Fn("strlt", "Bool", p, q)
		case token.GTR:
			return tb.Fn("strlt", "Bool", q, p)
		case token.LEQ:
			return tb.Not(tb.Fn("strlt", "Bool", q, p))
		case token.GEQ:
			return tb.Not(tb.Fn("strlt", "Bool", p, q))
		}
	case "Float":
		x.declSort("Float")
		switch in.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			// arithmetic on exactly represented integers stays exact (< 2^53)
			if p.op == "app" && q.op == "app" && p.name == "i2f" && q.name == "i2f" && in.Op != token.QUO {
				switch in.Op {
				case token.ADD:
					return tb.Fn("i2f", "Float", tb.Add(p.args[0], q.args[0]))
				case token.SUB:
					return tb.Fn("i2f", "Float", tb.Sub(p.args[0], q.args[0]))
				}
			}
			return tb.Fn("f"+map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[in.Op], "Float", p, q)
		case token.LSS:
			return tb.Fn("flt", "Bool", p, q)
		case token.GTR:
			return tb.Fn("flt", "Bool", q, p)
		case token.LEQ:
			return tb.Fn("fle", "Bool", p, q)
		case token.GEQ:
			return tb.Fn("fle", "Bool", q, p)
		}
	}
	panic(unsupported("binary " + in.Op.String() + " on " + p.sort))
}

// eqGo: Go's == with nil handling
func (x *Exec) eqGo(a, b Val, ta, tbT types.Type) *Term {
	tb := x.tb
	if p, ok := a.(*Addr); ok {
		if q, ok := b.(*Addr); ok {
			return tb.Bool(sameAddr(p, q))
		}
		return tb.False()
	}
	if _, ok := b.(*Addr); ok {
		return tb.False()
	}
	if _, ok := a.(*Clo); ok {
		return tb.False()
	}
	if _, ok := b.(*Clo); ok {
		return tb.False()
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if ok1 && ok2 {
		// mixed interface / concrete comparison does not occur in SSA
		if p.sort == "Iface" {
			if q == tb.NilIf() {
				return tb.Eq(tb.App("itid", "Int", p), tb.Int(0))
			}
			if p == tb.NilIf() {
				return tb.Eq(tb.App("itid", "Int", q), tb.Int(0))
			}
			// compare values of equal dynamic type by their unboxed contents
			return x.ifaceEq(p, q)
		}
		if p.sort == "Slice" {
			if q == tb.NilSl() {
				return tb.Eq(tb.SArr(p), tb.Null())
			}
			return tb.Eq(tb.SArr(q), tb.Null())
		}
	}
	return x.eqVal(a, b)
}

func (x *Exec) ifaceEq(p, q *Term) *Term {
	return x.tb.Eq(p, q)
}

func (x *Exec) convert(st *State, fr *Frame, in *ssa.Convert) Val {
	tb := x.tb
	v, ok := x.val(fr, in.X).(*Term)
	if !ok {
		panic(unsupported("convert"))
	}
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fs, ts := x.w.leafSort(in.X.Type()), x.w.leafSort(in.Type())
	switch {
	case fs == "Str" && ts == "Slice":
		if !isByteSlice(to) {
			panic(unsupported("string to " + tstr(to)))
		}
		return x.newBytes(st, v)
	case fs == "Slice" && ts == "Str":
		return x.content(st, v)
	case fs == "Int" && ts == "Int":
		fb, tbk := from.(*types.Basic), to.(*types.Basic)
		if narrowing(fb, tbk) {
			if v.op == "int" {
				return v
			}
			return x.narrow(v, fb, tbk)
		}
		return v
	case fs == "Int" && ts == "Float":
		x.declSort("Float")
		if b, ok := to.(*types.Basic); ok && b.Kind() == types.Float32 {
			return tb.Fn("f32", "Float", tb.Fn("i2f", "Float", v))
		}
		return tb.Fn("i2f", "Float", v)
	case fs == "Float" && ts == "Int":
		if v.op == "app" && v.name == "i2f" {
			return v.args[0]
		}
		return tb.Fn("f2i", "Int", v)
	case fs == "Int" && ts == "Str":
		return tb.Fn("runestr", "Str", v)
	case fs == "Float" && ts == "Float":
		if a, ok := from.(*types.Basic); ok && a.Kind() != types.Float32 {
			if b, ok := to.(*types.Basic); ok && b.Kind() == types.Float32 {
				return tb.Fn("f32", "Float", v)
			}
		}
		return v
	case fs == ts:
		return v
	}
	panic(unsupported("convert " + tstr(from) + " to " + tstr(to)))
}

func width(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int, types.Int64:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func narrowing(a, b *types.Basic) bool {
	wa, sa := width(a)
	wb, sb := width(b)
	if wb < wa {
		return true
	}
	if wb == wa && sa != sb && !(wa == 64) {
		return true
	}
	return sa && !sb && wb < 64
}

// narrow: value-preserving when in range, otherwise an uninterpreted wrap
func (x *Exec) narrow(v *Term, a, b *types.Basic) *Term {
	wb, sb := width(b)
	tb := x.tb
	w := tb.Fn(sym("wrap."+b.Name()), "Int", v)
	if wb >= 62 {
		return w
	}
	lo, hi := int64(0), int64(1)<<uint(wb)-1
	if sb {
		lo, hi = -(int64(1) << uint(wb-1)), int64(1)<<uint(wb-1)-1
	}
	x.assume(tb.And(tb.Le(tb.Int(lo), w), tb.Le(w, tb.Int(hi))))
	return tb.Ite(tb.And(tb.Le(tb.Int(lo), v), tb.Le(v, tb.Int(hi))), v, w)
}

func (x *Exec) newBytes(st *State, s *Term) *Term {
	tb := x.tb
	r := x.newRef(st)
	st.objs[r] = &VObj{root: r, cells: map[cellKey]*Term{{x.bcComp(), r}: s}}
	l := x.strlen(s)
	return tb.MkSl(r, tb.Int(0), l, l)
}

func (x *Exec) implements(tid *Term, it types.Type) *Term {
	tb := x.tb
	i := it.Underlying().(*types.Interface)
	if i.NumMethods() == 0 {
		return tb.Not(tb.Eq(tid, tb.Int(0)))
	}
	if tid.op == "int" {
		if tid.n == 0 {
			return tb.False()
		}
		return tb.Bool(types.Implements(x.tidT[tid.n], i))
	}
	if tid.op == "ite" {
		return tb.Ite(tid.args[0], x.implements(tid.args[1], it), x.implements(tid.args[2], it))
	}
	return tb.And(tb.Not(tb.Eq(tid, tb.Int(0))), tb.Fn(sym("impl."+tstr(it)), "Bool", tid))
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) Val {
	tb := x.tb
	v := x.val(fr, in.X).(*Term)
	tid := tb.App("itid", "Int", v)
	var ok *Term
	var res Val
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		ok = x.implements(tid, in.AssertedType)
		res = x.mkIte(ok, v, tb.NilIf())
		if !in.CommaOk {
			res = v
		}
	} else {
		ok = tb.Eq(tid, x.tid(in.AssertedType))
		if isFalse(ok) {
			res = x.zeroOf(in.AssertedType)
		} else {
			u := x.unboxVal(v, in.AssertedType)
			x.deepFactsGuard(st, u, in.AssertedType, ok)
			if ls := x.w.flatten(u, in.AssertedType); x.reboxed(ls, in.AssertedType) != nil {
				bn := x.boxName(in.AssertedType)
				b := tb.Fn(bn, "Box", ls...)
				e := tb.mk("=", "", 0, "Bool", b, tb.App("ibox", "Box", v))
				e.hasB = v.hasB
				x.assume(tb.Imp(ok, e))
			}
			if in.CommaOk {
				res = x.mkIte(ok, u, x.zeroOf(in.AssertedType))
			} else {
				res = u
			}
		}
	}
	if in.CommaOk {
		return Tuple{res, ok}
	}
	x.safe(st, fr, "type assertion to "+tstr(in.AssertedType), ok, in.Pos())
	return res
}

// boxed values of allocated interfaces are themselves allocated
func (x *Exec) deepFactsGuard(st *State, v Val, t types.Type, g *Term) {
	tb := x.tb
	switch y := v.(type) {
	case *Term:
		switch y.sort {
		case "Ref":
			if !ctorTop(y) && y.op == "app" && y.name != "null" {
				x.assume(tb.Imp(g, tb.Lt(tb.Rid(y), st.alloc)))
			}
		case "Slice":
			if !ctorTop(y) {
				x.assume(tb.Imp(g, tb.And(tb.Lt(tb.Rid(tb.SArr(y)), st.alloc), x.wfSlice(y))))
			}
		}
	case *Comp:
		for i, ft := range x.w.fieldTypes(t) {
			x.deepFactsGuard(st, y.f[i], ft, g)
		}
	}
}

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) Val {
	tb := x.tb
	base := x.val(fr, in.X)
	lo := tb.Int(0)
	if in.Low != nil {
		lo = x.val(fr, in.Low).(*Term)
	}
	b, ok := base.(*Term)
	if !ok {
		panic(unsupported("slice of local array"))
	}
	var hi *Term
	if in.High != nil {
		hi = x.val(fr, in.High).(*Term)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		if hi == nil {
			hi = x.strlen(b)
		}
		x.safe(st, fr, "slice bounds", tb.And(tb.Le(tb.Int(0), lo), tb.Le(lo, hi), tb.Le(hi, x.strlen(b))), in.Pos())
		return x.bsub(b, lo, tb.Sub(hi, lo))
	case *types.Slice:
		if hi == nil {
			hi = tb.SLen(b)
		}
		mx := tb.SCap(b)
		if in.Max != nil {
			mx = x.val(fr, in.Max).(*Term)
		}
		x.safe(st, fr, "slice bounds", tb.And(tb.Le(tb.Int(0), lo), tb.Le(lo, hi), tb.Le(hi, mx), tb.Le(mx, tb.SCap(b))), in.Pos())
		return tb.MkSl(tb.SArr(b), tb.Add(tb.SOff(b), lo), tb.Sub(hi, lo), tb.Sub(mx, lo))
	case *types.Pointer:
		n := tb.Int(u.Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		x.nonNil(st, fr, b, "nil dereference", in.Pos())
		x.safe(st, fr, "slice bounds", tb.And(tb.Le(tb.Int(0), lo), tb.Le(lo, hi), tb.Le(hi, n)), in.Pos())
		return tb.MkSl(b, lo, tb.Sub(hi, lo), tb.Sub(n, lo))
	}
	panic(unsupported("slice"))
}

// ---- pure evaluation of small repo functions (merging all paths) ----

func (x *Exec) pureEval(st *State, fn *ssa.Function, args []Val) Val {
	if x.silent > 1000 {
		panic(unsupported("pure evaluation depth"))
	}
	base := len(x.pc)
	type pr struct {
		c *Term
		v Val
	}
	var rs []pr
	x.silent++
	ok := true
	fr := &Frame{id: &FrameID{fn}, fn: fn, env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	fr.ret = func(st *State, vs []Val) {
		c := x.tb.And(x.pc[base:]...)
		var v Val
		if len(vs) == 1 {
			v = vs[0]
		} else {
			v = Tuple(vs)
		}
		rs = append(rs, pr{c, v})
	}
	x.enterFn(st.clone(), fr)
	x.silent--
	if !ok || len(rs) == 0 {
		panic(unsupported("pure evaluation of " + fn.String()))
	}
	v := rs[len(rs)-1].v
	for i := len(rs) - 2; i >= 0; i-- {
		v = x.mkIte(rs[i].c, rs[i].v, v)
	}
	return v
}

func (x *Exec) enterFn(st *State, fr *Frame) {
	if len(fr.fn.Blocks) == 0 {
		panic(unsupported("no body: " + fr.fn.String()))
	}
	b := fr.fn.Blocks[0]
	if x.loopsOf(fr.fn)[b] != nil {
		panic(unsupported("loop at function entry"))
	}
	x.run(st, fr, b, 0)
}

// repo error types: named types of the metadata package implementing error
func (x *Exec) repoErrors() []types.Type {
	p := x.w.tpkgs[modPath+"/metadata"]
	var out []types.Type
	ei := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	names := p.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		if tn, ok := p.Scope().Lookup(n).(*types.TypeName); ok {
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams() == nil {
				if _, isS := nt.Underlying().(*types.Struct); isS && types.Implements(nt, ei) {
					out = append(out, nt)
				}
			}
		}
	}
	return out
}

func (x *Exec) methodOf(t types.Type, name string) *ssa.Function {
	ms := x.w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return x.w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// errIs models errors.Is: exact for the repository's own error types (by
// executing their Is methods), uninterpreted for foreign errors.
func (x *Exec) errIs(st *State, e, target *Term) *Term {
	tb := x.tb
	tid := tb.App("itid", "Int", e)
	foreign := tb.Fn("errIsForeign", "Bool", e, target)
	res := foreign
	one := func(T types.Type) *Term {
		eq := tb.Eq(e, target)
		if m := x.methodOf(T, "Is"); m != nil && inRepo(m.Object().Pkg()) {
			u := x.unboxVal(e, T)
			v := x.pureEval(st, m, []Val{u, target})
			if t, ok := v.(*Term); ok {
				eq = tb.Or(eq, t)
			}
		}
		return eq
	}
	if tid.op == "int" {
		if tid.n == 0 {
			return tb.Eq(target, tb.NilIf())
		}
		T := x.tidT[tid.n]
		if n, ok := T.(*types.Named); ok && inRepo(n.Obj().Pkg()) {
			return one(T)
		}
		return foreign
	}
	if e.op == "ite" {
		return tb.Ite(e.args[0], x.errIs(st, e.args[1], target), x.errIs(st, e.args[2], target))
	}
	for _, T := range x.repoErrors() {
		res = tb.Ite(tb.Eq(tid, x.tid(T)), one(T), res)
	}
	return tb.Ite(tb.Eq(tid, tb.Int(0)), tb.Eq(target, tb.NilIf()), res)
}

func sameAddr(p, q *Addr) bool {
	if len(p.path) != len(q.path) || (p.local == nil) != (q.local == nil) || p.ref != q.ref || p.fi != q.fi || p.byteOf != q.byteOf || p.idx != q.idx {
		return false
	}
	if p.local != nil && *p.local != *q.local {
		return false
	}
	for i := range p.path {
		if p.path[i] != q.path[i] {
			return false
		}
	}
	return true
}
