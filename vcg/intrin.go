package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont)

var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{
		"encoding/json.Unmarshal": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			x.jsonUnmarshal(st, fr, args[0].(*Term), args[1].(*Term), pos, k)
		},
		"encoding/json.Marshal": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			x.jsonMarshal(st, fr, "json", args[0].(*Term), nil, pos, k)
		},
		"encoding/json.MarshalIndent": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			x.jsonMarshal(st, fr, "jsonIndent", args[0].(*Term), args[1:], pos, k)
		},
		"github.com/secure-systems-lab/go-securesystemslib/cjson.EncodeCanonical": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			v := args[0].(*Term)
			t := types.Universe.Lookup("any").Type()
			x.usedX["cjson.EncodeCanonical"] = true
			c := x.deepUF(st, "canon", "Str", SV{v: v, t: t})
			ok := x.deepUF(st, "canonok", "Bool", SV{v: v, t: t})
			e := x.someErr("canon")
			b := x.newBytes(st, c)
			k(st, fr, Tuple{x.tb.Ite(ok, b, x.tb.NilSl()), x.tb.Ite(ok, x.tb.NilIf(), e)})
		},
		"errors.Is": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, fr, x.errIs(st, args[0].(*Term), args[1].(*Term)))
		},
		"errors.As": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			x.errorsAs(st, fr, args[0].(*Term), args[1].(*Term), pos, k)
		},
		"errors.New": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, fr, x.foreignErr("errorString", "new"))
		},
		"fmt.Errorf": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			if f := args[0].(*Term); f.op == "strlit" && strings.Contains(f.name, "%w") {
				k(st, fr, x.foreignErr("wrapError", "wrap"))
				return
			}
			k(st, fr, x.foreignErr("errorString", "errorf"))
		},
		"fmt.Sprintf": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, fr, x.sprintf(st, args[0].(*Term), args[1].(*Term)))
		},
		"slices.Contains": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			x.contains(st, fr, fn, args, k)
		},
		"strconv.FormatInt": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			n, b := args[0].(*Term), args[1].(*Term)
			if b.op == "int" && b.n == 10 {
				k(st, fr, x.itoa(n))
				return
			}
			k(st, fr, x.ufApp("p.strconv.FormatInt#0", "Str", []*Term{n, b}))
		},
		"strconv.Itoa": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, fr, x.itoa(args[0].(*Term)))
		},
		"crypto/hmac.Equal": bytesEqual,
		"bytes.Equal":       bytesEqual,
		"crypto/subtle.ConstantTimeCompare": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			e := x.tb.Eq(x.content(st, args[0].(*Term)), x.content(st, args[1].(*Term)))
			k(st, fr, x.tb.Ite(e, x.tb.Int(1), x.tb.Int(0)))
		},
		"encoding/hex.Decode": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			x.hexCopy(st, fr, "hex.DecodeString", true, args, k)
		},
		"encoding/hex.Encode": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			x.hexCopy(st, fr, "hex.EncodeToString", false, args, k)
		},
		"encoding/hex.EncodedLen": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, fr, x.tb.Mul(x.tb.Int(2), args[0].(*Term)))
		},
		"encoding/hex.DecodedLen": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			tb := x.tb
			n := args[0].(*Term)
			d := tb.Fn("godiv", "Int", n, tb.Int(2))
			r := tb.Fn("gorem", "Int", n, tb.Int(2))
			x.assumeOnce(tb.Eq(n, tb.Add(tb.Mul(tb.Int(2), d), r)))
			x.assumeOnce(tb.Imp(tb.Le(tb.Int(0), n), tb.And(tb.Le(tb.Int(0), r), tb.Lt(r, tb.Int(2)))))
			k(st, fr, d)
		},
		"encoding/hex.DecodeString": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			tb := x.tb
			s := args[0].(*Term)
			c, e := x.hexDec(s)
			b := x.newBytes(st, c)
			_ = tb
			k(st, fr, Tuple{b, e})
		},
		"math.Pow": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			x.declSort("Float")
			a, b := args[0].(*Term), args[1].(*Term)
			if isI2F(a) && isI2F(b) && a.args[0].op == "int" && a.args[0].n == 2 {
				k(st, fr, x.tb.Fn("i2f", "Float", x.ufApp("g.pow2", "Int", b.args)))
				return
			}
			k(st, fr, x.tb.Fn("fpow", "Float", a, b))
		},
		"math.Exp2": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			x.declSort("Float")
			if b := args[0].(*Term); isI2F(b) {
				k(st, fr, x.tb.Fn("i2f", "Float", x.ufApp("g.pow2", "Int", b.args)))
				return
			}
			k(st, fr, x.tb.Fn("fexp2", "Float", args[0].(*Term)))
		},
		"strings.HasPrefix": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, fr, x.hasPrefix(args[0].(*Term), args[1].(*Term)))
		},
		"strings.TrimPrefix": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			s, p := args[0].(*Term), args[1].(*Term)
			k(st, fr, x.tb.Ite(x.hasPrefix(s, p), x.bsub(s, x.strlen(p), x.tb.Sub(x.strlen(s), x.strlen(p))), s))
		},
		"strings.CutPrefix": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			s, p := args[0].(*Term), args[1].(*Term)
			c := x.hasPrefix(s, p)
			k(st, fr, Tuple{x.tb.Ite(c, x.bsub(s, x.strlen(p), x.tb.Sub(x.strlen(s), x.strlen(p))), s), c})
		},
	}
}

func bytesEqual(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
	k(st, fr, x.tb.Eq(x.content(st, args[0].(*Term)), x.content(st, args[1].(*Term))))
}

func (x *Exec) itoa(n *Term) *Term { return x.ufApp("itoa", "Str", []*Term{n}) }

func (x *Exec) someErr(hint string) *Term {
	return x.tb.App("mkif", "Iface", x.tb.FreshPos("etid."+hint), x.tb.Fresh("ebox", "Box"))
}

// foreignErr: a non-nil error of a standard library type
func (x *Exec) foreignErr(typ, hint string) *Term {
	pk := "errors"
	if typ == "wrapError" {
		pk = "fmt"
	}
	p := x.w.tpkgs[pk]
	if p != nil {
		if tn, ok := p.Scope().Lookup(typ).(*types.TypeName); ok {
			return x.tb.App("mkif", "Iface", x.tid(types.NewPointer(tn.Type())), x.tb.Fresh("ebox", "Box"))
		}
	}
	return x.someErr(hint)
}

func (x *Exec) hexDec(s *Term) (*Term, *Term) {
	c := x.ufApp("p.hex.DecodeString#0", "Str", []*Term{s})
	e := x.ufApp("p.hex.DecodeString#1", "Iface", []*Term{s})
	x.ifaceFacts(e)
	tb := x.tb
	ok := tb.Eq(tb.App("itid", "Int", e), tb.Int(0))
	x.assumeOnce(tb.Imp(ok, tb.Eq(tb.Mul(tb.Int(2), tb.App("strlen", "Int", c)), x.strlen(s))))
	// lower-case encoding is a right inverse of decoding
	if !x.ghostAx["hex"] {
		x.ghostAx["hex"] = true
		b := tb.BVar("b", "Str")
		enc := tb.Fn(sym("p.hex.EncodeToString#0"), "Str", b)
		x.sol.Axiom(tb.Forall([]*Term{b}, tb.And(
			tb.Eq(tb.Fn(sym("p.hex.DecodeString#0"), "Str", enc), b),
			tb.Eq(tb.Fn(sym("p.hex.DecodeString#1"), "Iface", enc), tb.NilIf()),
			tb.Eq(tb.App("strlen", "Int", enc), tb.Mul(tb.Int(2), tb.App("strlen", "Int", b)))), enc))
	}
	return c, e
}

func (x *Exec) hexCopy(st *State, fr *Frame, fn string, dec bool, args []Val, k kont) {
	tb := x.tb
	dst, src := args[0].(*Term), args[1].(*Term)
	s := x.content(st, src)
	bc := x.bcComp()
	if dec {
		c, e := x.hexDec(s)
		ok := tb.Eq(tb.App("itid", "Int", e), tb.Int(0))
		old := x.rd(st, bc, tb.SArr(dst))
		n := tb.Fresh("hexn", "Int")
		x.assume(tb.Imp(ok, tb.Eq(n, x.strlen(c))))
		x.assume(tb.Le(tb.Int(0), n))
		var nb *Term
		if tb.SOff(dst).op == "int" && tb.SOff(dst).n == 0 {
			nb = tb.Ite(ok, tb.Cat(c, x.bsub(old, x.strlen(c), tb.Sub(x.strlen(old), x.strlen(c)))), tb.Fresh("hexjunk", "Str"))
		} else {
			nb = tb.Fresh("hexdst", "Str")
		}
		// exact fit
		if ok2, _, _ := x.valid(tb.Imp(ok, tb.Eq(x.strlen(c), x.strlen(old))), 1500, false); ok2 && tb.SOff(dst).op == "int" && tb.SOff(dst).n == 0 {
			nb = tb.Ite(ok, c, tb.Fresh("hexjunk", "Str"))
		}
		x.wr(st, bc, tb.SArr(dst), nb)
		k(st, fr, Tuple{n, e})
		return
	}
	x.hexDec(tb.Str(""))
	c := x.ufApp("p.hex.EncodeToString#0", "Str", []*Term{s})
	old := x.rd(st, bc, tb.SArr(dst))
	off, l := tb.SOff(dst), x.strlen(c)
	x.assumeOnce(tb.Eq(tb.App("strlen", "Int", c), tb.Mul(tb.Int(2), x.strlen(s))))
	el := tb.Mul(tb.Int(2), x.strlen(s))
	_ = l
	// old[:off] + c + old[off+len(c):]
	end := tb.Add(off, el)
	nb := tb.Cat(x.bsub(old, tb.Int(0), off), tb.Cat(c, x.bsub(old, end, tb.Sub(x.strlen(old), end))))
	x.wr(st, bc, tb.SArr(dst), nb)
	k(st, fr, el)
}

func (x *Exec) contains(st *State, fr *Frame, fn *ssa.Function, args []Val, k kont) {
	tb := x.tb
	et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
	s := args[0].(*Term)
	c := &Ctx{x: x, st: st}
	n := tb.SLen(s)
	if n.op == "int" && n.n <= 16 {
		r := tb.False()
		for i := int64(0); i < n.n; i++ {
			r = tb.Or(r, x.eqVal(c.force(c.elem(st, s, tb.Int(i), et)).v, args[1]))
		}
		k(st, fr, r)
		return
	}
	x.escapeTerm(st, s)
	v := tb.BVar("x", "Int")
	e := c.force(c.elem(st, s, tb.Sub(v, tb.SOff(s)), et))
	body := tb.And(tb.Le(tb.SOff(s), v), tb.Lt(v, tb.Add(tb.SOff(s), n)), x.eqVal(e.v, args[1]))
	k(st, fr, tb.Exists([]*Term{v}, body, tb.Elt(tb.SArr(s), v)))
}

func (x *Exec) sprintf(st *State, f, va *Term) *Term {
	tb := x.tb
	n := tb.SLen(va)
	var boxes []*Term
	anyT := types.Universe.Lookup("any").Type()
	if n.op != "int" {
		return tb.Fresh("sprintf", "Str")
	}
	for i := int64(0); i < n.n; i++ {
		boxes = append(boxes, x.rd(st, x.memComp(anyT), tb.Elt(tb.SArr(va), tb.Add(tb.SOff(va), tb.Int(i)))))
	}
	generic := func() *Term {
		return x.tb.Fn(sym(fmt.Sprintf("sprintf%d", len(boxes))), "Str", append([]*Term{f}, boxes...)...)
	}
	if f.op != "strlit" {
		return generic()
	}
	out := tb.Str("")
	s := f.name
	ai := 0
	one := func(verb byte, b *Term) *Term {
		tid := tb.App("itid", "Int", b)
		if tid.op == "int" && tid.n > 0 {
			T := x.tidT[tid.n]
			if bt, ok := T.(*types.Basic); ok {
				u, ok := x.unboxVal(b, T).(*Term)
				if ok && bt.Info()&types.IsString != 0 && (verb == 's' || verb == 'v') {
					return u
				}
				if ok && bt.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v') {
					return x.itoa(u)
				}
			}
			if _, isN := T.(*types.Named); !isN && (verb == 's') && isByteSlice(T) {
				return x.content(st, x.unboxVal(b, T).(*Term))
			}
		}
		return tb.Fn(sym("fmt.%"+string(verb)), "Str", b)
	}
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			out = tb.Cat(out, tb.Str(s[i:j]))
			i = j - 1
			continue
		}
		if i+1 < len(s) && s[i+1] == '%' {
			out = tb.Cat(out, tb.Str("%"))
			i++
			continue
		}
		if strings.HasPrefix(s[i:], "%0*x") && ai+1 < len(boxes) {
			w, v := boxes[ai], boxes[ai+1]
			ai += 2
			i += 3
			out = tb.Cat(out, x.hexpad(x.intOf(w), x.intOf(v)))
			continue
		}
		if i+1 < len(s) && strings.IndexByte("sdvqxwt", s[i+1]) >= 0 && ai < len(boxes) {
			out = tb.Cat(out, one(s[i+1], boxes[ai]))
			ai++
			i++
			continue
		}
		return generic()
	}
	if ai != len(boxes) {
		return generic()
	}
	return out
}

func (x *Exec) intOf(b *Term) *Term {
	tid := x.tb.App("itid", "Int", b)
	if tid.op == "int" && tid.n > 0 {
		if bt, ok := x.tidT[tid.n].Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			return x.unboxVal(b, x.tidT[tid.n]).(*Term)
		}
	}
	return x.tb.Fn("intof", "Int", b)
}

func (x *Exec) hexpad(w, v *Term) *Term { return x.ufApp("g.hexpad", "Str", []*Term{w, v}) }

func (x *Exec) errorsAs(st *State, fr *Frame, err, target *Term, pos token.Pos, k kont) {
	tb := x.tb
	tt := tb.App("itid", "Int", target)
	if tt.op != "int" || tt.n == 0 {
		panic(unsupported("errors.As with unknown target type"))
	}
	PT, ok := x.tidT[tt.n].Underlying().(*types.Pointer)
	if !ok {
		panic(unsupported("errors.As target"))
	}
	E := PT.Elem()
	ref := x.unboxVal(target, x.tidT[tt.n]).(*Term)
	hit, other, val, wrapped := x.asError(err, E)
	x.fork(st, fr, []*Term{hit, other, tb.And(tb.Not(hit), tb.Not(other))}, func(i int, st *State, fr *Frame) {
		switch i {
		case 0:
			x.storeAt(st, ref, E, val)
			k(st, fr, tb.True())
		case 1:
			x.storeAt(st, ref, E, wrapped)
			k(st, fr, tb.True())
		default:
			k(st, fr, tb.False())
		}
	})
}

// asError models the search of errors.As for an error of type E: the error
// itself, or (for errors of other packages, which may wrap others) an unknown
// but fixed one in its chain.
func (x *Exec) asError(err *Term, E types.Type) (hit, other *Term, val, wrapped Val) {
	tb := x.tb
	et := tb.App("itid", "Int", err)
	if _, isI := E.Underlying().(*types.Interface); isI {
		hit = x.implements(et, E)
		val = err
	} else {
		hit = tb.Eq(et, x.tid(E))
		if isFalse(hit) {
			val = x.zeroOf(E)
		} else {
			val = x.unboxVal(err, E)
		}
	}
	// foreign wrappers may hold an E somewhere in their chain
	foreign := tb.Fn(sym("asForeign."+tstr(E)), "Bool", err)
	isRepo := tb.False()
	if et.op == "int" {
		if et.n == 0 {
			isRepo = tb.True()
		} else if n, ok := x.tidT[et.n].(*types.Named); ok && inRepo(n.Obj().Pkg()) {
			isRepo = tb.True()
		}
	} else {
		isRepo = tb.Eq(et, tb.Int(0))
		for _, T := range x.repoErrors() {
			isRepo = tb.Or(isRepo, tb.Eq(et, x.tid(T)))
		}
	}
	other = tb.And(tb.Not(hit), tb.Not(isRepo), foreign)
	in := tb.Fn(sym("wrapped."+tstr(E)), err.sort, err)
	if _, isI := E.Underlying().(*types.Interface); isI {
		wrapped = in
	} else {
		wrapped = x.unboxVal(in, E)
	}
	return hit, other, val, wrapped
}

// ---- JSON ----

func (x *Exec) jsonUnmarshal(st *State, fr *Frame, data, v *Term, pos token.Pos, k kont) {
	tb := x.tb
	x.usedX["json.Unmarshal"] = true
	tid := tb.App("itid", "Int", v)
	if tid.op != "int" || tid.n == 0 {
		panic(unsupported("json.Unmarshal into unknown type"))
	}
	PT := x.tidT[tid.n]
	p, ok := PT.Underlying().(*types.Pointer)
	if !ok {
		panic(unsupported("json.Unmarshal into non-pointer"))
	}
	T := p.Elem()
	ref := x.unboxVal(v, PT).(*Term)
	c := x.content(st, data)
	syn := x.ufApp("json.syntaxErr", "Iface", []*Term{c})
	x.ifaceFacts(syn)
	x.errNotRepo(syn)
	if m := x.methodOf(PT, "UnmarshalJSON"); m != nil && m.Object() != nil && inRepo(m.Object().Pkg()) {
		bad := tb.Not(tb.Eq(tb.App("itid", "Int", syn), tb.Int(0)))
		x.fork(st, fr, []*Term{bad, tb.Not(bad)}, func(i int, st *State, fr *Frame) {
			if i == 0 {
				k(st, fr, syn)
				return
			}
			x.callFn(st, fr, &Clo{fn: m}, []Val{ref, x.newBytes(st, c)}, pos, k)
		})
		return
	}
	// plain decoding
	oldAlloc := st.alloc
	na := tb.Fresh("alloc", "Int")
	x.assume(tb.Le(st.alloc, na))
	st.alloc = na
	err := x.ufApp("json.decodeErr."+typeKey(x.w, T), "Iface", []*Term{c})
	x.ifaceFacts(err)
	x.errNotRepo(err)
	okd := tb.Eq(tb.App("itid", "Int", err), tb.Int(0))
	x.assumeOnce(tb.Imp(okd, tb.Eq(tb.App("itid", "Int", syn), tb.Int(0))))
	x.decodeInto(st, ref, T, oldAlloc, c, okd, true)
	k(st, fr, err)
}

// decode errors come from encoding/json or from the repository's own
// UnmarshalJSON methods; they are treated as foreign.
func (x *Exec) errNotRepo(e *Term) {
	tb := x.tb
	for _, T := range x.repoErrors() {
		x.assumeOnce(tb.Not(tb.Eq(tb.App("itid", "Int", e), x.tid(T))))
	}
}

func (x *Exec) decodeInto(st *State, ref *Term, T types.Type, oldAlloc, c, ok *Term, top bool) {
	tb := x.tb
	cells := x.elemComps(T)
	oldv := map[string]*Term{}
	for _, ec := range cells {
		at := ec.at(tb, ref)
		oldv[ec.comp+fmt.Sprint(ec.subs)] = x.rd(st, ec.comp, at)
	}
	oldVal := x.loadAt(st, ref, T)
	for _, ec := range cells {
		at := ec.at(tb, ref)
		old := oldv[ec.comp+fmt.Sprint(ec.subs)]
		so := x.w.leafSort(ec.t)
		n := tb.Fresh("js", so)
		switch so {
		case "Ref":
			x.assume(tb.Or(tb.Eq(n, tb.Null()), tb.Eq(n, old), tb.And(tb.Le(oldAlloc, tb.Rid(n)), tb.Lt(tb.Rid(n), st.alloc))))
		case "Slice":
			x.assume(tb.Or(tb.Eq(n, old), tb.Eq(tb.SArr(n), tb.Null()), tb.And(tb.Le(oldAlloc, tb.Rid(tb.SArr(n))), tb.Lt(tb.Rid(tb.SArr(n)), st.alloc))))
			x.assume(x.wfSlice(n))
			x.assume(tb.Imp(tb.Not(tb.Eq(n, old)), tb.Eq(tb.SOff(n), tb.Int(0))))
		case "Iface":
			x.assume(tb.Or(tb.Eq(n, old), x.jsonAny(n, oldAlloc, st.alloc)))
		}
		x.wr(st, ec.comp, at, n)
		if _, isM := ec.t.Underlying().(*types.Map); isM {
			mi := x.mapInfo(ec.t)
			// generic maps: contents are a function of the document
			if top && len(ec.subs) == 0 && x.w.leafSort(T) != "" && ec.comp == x.memComp(T) && isAny(mi.vt) {
				dom := tb.Fn("jdom", arrSort("Str", "Bool"), c)
				vals := tb.Fn("jval", arrSort("Str", "Iface"), c)
				oe := tb.Or(tb.Eq(old, tb.Null()), tb.Eq(x.rd(st, mi.md, old), tb.ConstArr("Str", tb.False())))
				x.assume(tb.Imp(tb.And(ok, oe, tb.Not(tb.Eq(n, tb.Null()))), tb.And(tb.Eq(tb.Select(x.comp(st, mi.md), n), dom), tb.Eq(tb.Select(x.comp(st, mi.mv[0]), n), vals))))
				x.assume(tb.Imp(tb.And(ok, oe), tb.Iff(tb.Eq(n, tb.Null()), tb.Fn("jisnull", "Bool", c))))
				if !x.ghostAx["jnull"] {
					x.ghostAx["jnull"] = true
				}
			}
			if _, isP := mi.vt.Underlying().(*types.Pointer); isP {
				// entries are always decoded into newly allocated values
				kb := tb.BVar("k", mi.ks)
				vv := tb.Select(tb.Select(x.comp(st, mi.mv[0]), n), kb)
				x.assume(tb.Imp(tb.Not(tb.Eq(n, old)), tb.Forall([]*Term{kb}, tb.Imp(tb.Select(tb.Select(x.comp(st, mi.md), n), kb), tb.Or(tb.Eq(vv, tb.Null()), tb.And(tb.Le(oldAlloc, tb.Rid(vv)), tb.Lt(tb.Rid(vv), st.alloc)))), vv)))
			}
			if isAny(mi.vt) {
				// values inside freshly decoded maps are JSON values
				kb := tb.BVar("k", mi.ks)
				vv := tb.Select(tb.Select(x.comp(st, mi.mv[0]), n), kb)
				x.assume(tb.Imp(tb.Le(oldAlloc, tb.Rid(n)), tb.Forall([]*Term{kb}, tb.Imp(tb.Select(tb.Select(x.comp(st, mi.md), n), kb), x.jsonAny(vv, oldAlloc, st.alloc)), vv)))
			}
		}
	}
	if top {
		x.decodedFields(T, oldVal, x.loadAt(st, ref, T), c, ok)
	}
	x.escapeVal(st, x.loadAt(st, ref, T))
	if x.hasInv(T, map[string]bool{}) {
		nv := SV{t: T, v: x.loadAt(st, ref, T)}
		x.assume(tb.Imp(ok, x.typeInvTop(st, nv, oldVal)))
	}
}

// decodedFields: a struct that was zero holds what decoding its members gives
func (x *Exec) decodedFields(T types.Type, old, now Val, c, ok *Term) {
	tb := x.tb
	u, isS := T.Underlying().(*types.Struct)
	if !isS || x.prop != "C20" {
		return
	}
	zero := x.eqVal(old, x.zeroOf(T))
	for i := 0; i < u.NumFields(); i++ {
		if jsonSkip(u, i) {
			continue
		}
		name, _ := strings.CutSuffix(reflect.StructTag(u.Tag(i)).Get("json"), ",omitempty")
		if name == "" {
			name = u.Field(i).Name()
		}
		x.assume(tb.Imp(tb.And(ok, zero), x.decodedFrom(c, tb.Str(name), SV{t: u.Field(i).Type(), v: now.(*Comp).f[i]})))
	}
}

// decodedFrom: v is what encoding/json makes of the member with this name
func (x *Exec) decodedFrom(c, name *Term, v SV) *Term {
	args := []*Term{c, name}
	args = append(args, x.w.flatten(v.v, v.t)...)
	return x.tb.Fn(sym("jfrom!"+typeKey(x.w, v.t)), "Bool", args...)
}

func isAny(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// jsonAny: the dynamic types encoding/json produces for interface values
func (x *Exec) jsonAny(v, lo, hi *Term) *Term {
	tb := x.tb
	tid := tb.App("itid", "Int", v)
	anyT := types.Universe.Lookup("any").Type()
	ts := []types.Type{types.Typ[types.Bool], types.Typ[types.Float64], tString, types.NewSlice(anyT), types.NewMap(tString, anyT)}
	cs := []*Term{tb.Eq(v, tb.NilIf())}
	for _, t := range ts {
		cs = append(cs, tb.Eq(tid, x.tid(t)))
	}
	return tb.Or(cs...)
}

func (x *Exec) jsonInvOf(t types.Type) *JsonInv {
	n, ok := t.(*types.Named)
	if !ok || !inRepo(n.Obj().Pkg()) {
		return nil
	}
	j := x.ss.JsonInvs[n.Obj().Name()]
	if j == nil || !x.tagOK(j.Tags) {
		return nil
	}
	return j
}

func (x *Exec) hasInv(t types.Type, seen map[string]bool) bool {
	k := tstr(t)
	if seen[k] {
		return false
	}
	seen[k] = true
	if x.jsonInvOf(t) != nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return x.hasInv(u.Elem(), seen)
	case *types.Slice:
		return x.hasInv(u.Elem(), seen)
	case *types.Map:
		return x.hasInv(u.Elem(), seen)
	case *types.Struct:
		if isOpaqueStruct(t) {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if jsonSkip(u, i) {
				continue
			}
			if x.hasInv(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

func jsonSkip(u *types.Struct, i int) bool {
	return strings.Contains(u.Tag(i), `json:"-"`) || !u.Field(i).Exported()
}

// typeInvTop: invariants of the parts of a freshly decoded value whose
// previous contents were old.
func (x *Exec) typeInvTop(st *State, v SV, old Val) *Term {
	tb := x.tb
	switch u := v.t.Underlying().(type) {
	case *types.Struct:
		if isOpaqueStruct(v.t) {
			return tb.True()
		}
		c := v.v.(*Comp)
		oc, _ := old.(*Comp)
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if jsonSkip(u, i) || !x.hasInv(ft, map[string]bool{}) {
				continue
			}
			inv := x.typeInv(st, SV{t: ft, v: c.f[i]})
			if oc != nil {
				inv = tb.Or(inv, x.eqVal(c.f[i], oc.f[i]))
			}
			cs = append(cs, inv)
		}
		return tb.And(cs...)
	}
	return tb.Or(x.typeInv(st, v), x.eqVal(v.v, old))
}

// typeInv: the invariant of a value decoded by encoding/json
func (x *Exec) typeInv(st *State, v SV) *Term {
	tb := x.tb
	if !x.hasInv(v.t, map[string]bool{}) {
		return tb.True()
	}
	if j := x.jsonInvOf(v.t); j != nil {
		x.usedInv[j.Pkg+".(*"+j.Type+").UnmarshalJSON"] = true
		c := &Ctx{x: x, st: st, old: st, vars: map[string]SV{j.Var: v}, pkg: x.pkgOf(j.Pkg)}
		return c.boolT(j.Body)
	}
	c := &Ctx{x: x, st: st}
	switch u := v.t.Underlying().(type) {
	case *types.Pointer:
		r := c.force(v).v.(*Term)
		if _, ok := u.Elem().Underlying().(*types.Struct); !ok {
			return tb.True()
		}
		return tb.Or(tb.Eq(r, tb.Null()), x.typeInv(st, SV{t: u.Elem(), ref: r, st: st}))
	case *types.Slice:
		s := c.force(v).v.(*Term)
		q := tb.BVar("i", "Int")
		e := c.elem(st, s, tb.Sub(q, tb.SOff(s)), u.Elem())
		return tb.Forall([]*Term{q}, tb.Imp(tb.And(tb.Le(tb.SOff(s), q), tb.Lt(q, tb.Add(tb.SOff(s), tb.SLen(s)))), x.typeInv(st, e)), tb.Elt(tb.SArr(s), q))
	case *types.Map:
		m := c.force(v).v.(*Term)
		mi := x.mapInfo(v.t)
		q := tb.BVar("k", mi.ks)
		d := tb.Select(x.rd(st, mi.md, m), q)
		val := c.mapVal(m, q, u)
		return tb.Forall([]*Term{q}, tb.Imp(d, x.typeInv(st, val)), pat(d))
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			if jsonSkip(u, i) {
				continue
			}
			f := c.field(v, u.Field(i).Name())
			if x.hasInv(f.t, map[string]bool{}) {
				zero := x.zeroOf(f.t)
				cs = append(cs, tb.Or(x.typeInv(st, f), x.eqVal(c.force(f).v, zero)))
			}
		}
		return tb.And(cs...)
	}
	return tb.True()
}

func (x *Exec) jsonMarshal(st *State, fr *Frame, name string, v *Term, extra []Val, pos token.Pos, k kont) {
	tb := x.tb
	x.usedX["json.Marshal"] = true
	anyT := types.Universe.Lookup("any").Type()
	tid := tb.App("itid", "Int", v)
	if tid.op == "int" && tid.n > 0 {
		T := x.tidT[tid.n]
		if m := x.methodOf(T, "MarshalJSON"); m != nil && m.Object() != nil && inRepo(m.Object().Pkg()) && (name == "json" || x.prop == "C20") {
			// json.Marshal of a Marshaler: its output, compacted
			x.callFn(st, fr, &Clo{fn: m}, []Val{x.unboxVal(v, T)}, pos, func(st *State, fr *Frame, r Val) {
				tu := r.(Tuple)
				e := tu[1].(*Term)
				c := x.content(st, tu[0].(*Term))
				bad := tb.Not(tb.Eq(tb.App("itid", "Int", e), tb.Int(0)))
				comp := tb.Fn("jsonCompact", "Str", c)
				if name != "json" {
					as := []*Term{comp}
					for _, e := range extra {
						as = append(as, e.(*Term))
					}
					comp = tb.Fn("jsonIndent", "Str", as...)
				}
				if x.prop == "C20" {
					x.assume(tb.Eq(tb.Fn("jmean", "Str", comp), tb.Fn("jmean", "Str", c)))
				}
				cok := tb.Fn("jsonValid", "Bool", c)
				we := x.someErr("marshaler")
				okc := tb.And(tb.Not(bad), cok)
				k(st, fr, Tuple{tb.Ite(okc, x.newBytes(st, comp), tb.NilSl()), tb.Ite(okc, tb.NilIf(), we)})
			})
			return
		}
		if mt, ok := T.Underlying().(*types.Map); ok && name == "json" {
			m := x.unboxVal(v, T).(*Term)
			x.escapeTerm(st, m)
			mi := x.mapInfo(T)
			args := []*Term{x.rd(st, mi.md, m)}
			for _, c := range mi.mv {
				args = append(args, x.rd(st, c, m))
			}
			// the encoding is a function of the entries and of what they reach
			set := map[string]bool{}
			var ord []string
			x.reach(mi.vt, set, &ord, map[string]bool{})
			for _, c := range ord {
				args = append(args, x.comp(st, c))
			}
			c := tb.Fn(sym("jenc!"+typeKey(x.w, T)), "Str", args...)
			ok := tb.Fn(sym("jencok!"+typeKey(x.w, T)), "Bool", args...)
			if x.prop == "C20" && x.ss.GVars["encKeys"] != nil && isAny(mt.Elem()) {
				// what was encoded last
				for g, v := range map[string]*Term{"encKeys": args[0], "encVals": args[1], "encText": c, "encFails": tb.Not(ok)} {
					x.gread(st, g, v.sort)
					st.comps["G!"+g] = v
				}
			}
			k(st, fr, Tuple{tb.Ite(ok, x.newBytes(st, c), tb.NilSl()), tb.Ite(ok, tb.NilIf(), x.someErr("json"))})
			return
		}
	}
	c := x.deepUF(st, name, "Str", SV{v: v, t: anyT})
	ok := x.deepUF(st, name+"ok", "Bool", SV{v: v, t: anyT})
	k(st, fr, Tuple{tb.Ite(ok, x.newBytes(st, c), tb.NilSl()), tb.Ite(ok, tb.NilIf(), x.someErr("json"))})
}

// specRepoFn: a repository function used in a specification (evaluated by
// executing its body symbolically).
func (c *Ctx) specRepoFn(name string, args []*Node) (SV, bool) {
	x := c.x
	parts := strings.Split(name, ".")
	if len(parts) != 2 {
		return SV{}, false
	}
	p, ok := x.w.byName[parts[0]]
	if !ok || !inRepo(p) {
		return SV{}, false
	}
	fn := x.w.pkgs[p.Path()].Func(parts[1])
	if fn == nil {
		return SV{}, false
	}
	var vs []Val
	for _, a := range args {
		vs = append(vs, c.force(c.eval(a)).v)
	}
	v := x.pureEval(c.st, fn, vs)
	res := fn.Signature.Results()
	if res.Len() != 1 {
		sfail("multi-result function in spec")
	}
	return SV{v: v, t: res.At(0).Type()}, true
}

var _ = constant.Bool

func isI2F(t *Term) bool { return t.op == "app" && t.name == "i2f" }

func flatCat(t *Term) []*Term {
	if t.op == "app" && t.name == "cat" {
		return append(flatCat(t.args[0]), flatCat(t.args[1])...)
	}
	return []*Term{t}
}

// hasPrefix: strings.HasPrefix(s, p), decided structurally when p is a
// leading part of the concatenation s.
func (x *Exec) hasPrefix(s, p *Term) *Term {
	return x.ufApp("p.strings.HasPrefix#0", "Bool", []*Term{s, p})
}

func (x *Exec) knownPrefix(s, p *Term) bool {
	a, b := flatCat(s), flatCat(p)
	for len(b) > 0 && len(a) > 0 {
		if a[0] == b[0] {
			a, b = a[1:], b[1:]
			continue
		}
		if a[0].op == "strlit" && b[0].op == "strlit" && len(b) == 1 && strings.HasPrefix(a[0].name, b[0].name) {
			return true
		}
		break
	}
	return len(b) == 0 || len(b) == 1 && b[0].op == "strlit" && b[0].name == ""
}

// prefixAxioms: s has prefix p iff s is p followed by the rest of s
func (x *Exec) prefixAxioms() {
	if x.prefAx {
		return
	}
	x.prefAx = true
	tb := x.tb
	a, b, c := tb.BVar("a", "Str"), tb.BVar("b", "Str"), tb.BVar("c", "Str")
	o, l := tb.BVar("o", "Int"), tb.BVar("l", "Int")
	raw := func(p, q *Term) *Term { return tb.mk("app", "cat", 0, "Str", p, q) }
	ln := func(s *Term) *Term { return tb.App("strlen", "Int", s) }
	hp := func(s, p *Term) *Term { return tb.Fn(sym("p.strings.HasPrefix#0"), "Bool", s, p) }
	x.bsub(tb.Fresh("s", "Str"), tb.Int(1), tb.Int(1)) // its axioms
	eq := func(s, t *Term) *Term { return tb.mk("=", "", 0, "Bool", s, t) }
	x.sol.Axiom(tb.Forall([]*Term{a, b}, tb.Imp(hp(a, b), tb.And(tb.Le(ln(b), ln(a)), eq(a, raw(b, tb.Fn("bsub", "Str", a, ln(b), tb.Sub(ln(a), ln(b))))))), hp(a, b)))
	x.sol.Axiom(tb.Forall([]*Term{a, b}, hp(raw(a, b), a), hp(raw(a, b), a)))
	x.sol.Axiom(tb.Forall([]*Term{a, b, c}, hp(raw(a, raw(b, c)), raw(a, b)), hp(raw(a, raw(b, c)), raw(a, b))))
	x.sol.Axiom(tb.Forall([]*Term{a, b, c}, eq(raw(raw(a, b), c), raw(a, raw(b, c))), raw(raw(a, b), c)))
	t := tb.Fn("bsub", "Str", raw(a, b), o, l)
	x.sol.Axiom(tb.Forall([]*Term{a, b, o, l}, tb.Imp(tb.And(tb.Eq(o, ln(a)), tb.Eq(l, ln(b))), eq(t, b)), t))
	t2 := tb.Fn("bsub", "Str", raw(a, raw(b, c)), o, l)
	x.sol.Axiom(tb.Forall([]*Term{a, b, c, o, l}, tb.Imp(tb.And(tb.Eq(o, tb.Add(ln(a), ln(b))), tb.Eq(l, ln(c))), eq(t2, c)), t2))
}

func (x *Exec) iteVal(c *Term, a, b Val, t types.Type) Val {
	fa, fb := x.w.flatten(a, t), x.w.flatten(b, t)
	r := make([]*Term, len(fa))
	for i := range fa {
		r[i] = x.tb.Ite(c, fa[i], fb[i])
	}
	v, _ := x.w.unflatten(r, t)
	return v
}
