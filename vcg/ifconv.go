package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// ifConvert merges the two sides of a conditional whose branches only compute
// values and write promoted locals, so that they are not explored separately.
// It reports whether it took over.
func (x *Exec) ifConvert(st *State, fr *Frame, b *ssa.BasicBlock, c *Term) bool {
	join := x.ifJoin(fr, b)
	if join == nil {
		return false
	}
	type side struct {
		st   *State
		fr   *Frame
		from *ssa.BasicBlock
	}
	var s [2]side
	for i := 0; i < 2; i++ {
		st2, fr2 := st.clone(), fr.clone()
		from := b
		if t := b.Succs[i]; t != join {
			from = t
			for _, in := range t.Instrs[:len(t.Instrs)-1] {
				if !x.instr(st2, fr2, in) {
					return false
				}
			}
		}
		if st2.alloc != st.alloc {
			return false
		}
		s[i] = side{st2, fr2, from}
	}
	n := nphi(join)
	vs := make([]Val, n)
	merged := st.clone()
	ok := x.safeEval(func() *Term {
		for i := 0; i < n; i++ {
			p := join.Instrs[i].(*ssa.Phi)
			a := x.val(s[0].fr, p.Edges[predIdx(join, s[0].from)])
			d := x.val(s[1].fr, p.Edges[predIdx(join, s[1].from)])
			vs[i] = x.mkIte(c, a, d)
		}
		for k, v := range s[0].st.locals {
			w, has := s[1].st.locals[k]
			if !has {
				delete(merged.locals, k)
				continue
			}
			merged.locals[k] = x.mkIte(c, v, w)
		}
		for k, v := range s[0].st.comps {
			w, has := s[1].st.comps[k]
			if has && w != v || !has && st.comps[k] != nil {
				panic(unsupported("heap change"))
			}
			merged.comps[k] = v
		}
		for k, v := range s[1].st.comps {
			if w, has := s[0].st.comps[k]; has && w != v {
				panic(unsupported("heap change"))
			}
			merged.comps[k] = v
		}
		return x.tb.True()
	})
	if ok == nil {
		return false
	}
	fr2 := fr.clone()
	for i := 0; i < n; i++ {
		fr2.env[join.Instrs[i].(*ssa.Phi)] = vs[i]
	}
	x.run(merged, fr2, join, n)
	return true
}

func (x *Exec) ifJoin(fr *Frame, b *ssa.BasicBlock) *ssa.BasicBlock {
	a, d := b.Succs[0], b.Succs[1]
	if a == d {
		return nil
	}
	var join *ssa.BasicBlock
	switch {
	case x.simpleBlock(a) && a.Succs[0] == d:
		join = d
	case x.simpleBlock(d) && d.Succs[0] == a:
		join = a
	case x.simpleBlock(a) && x.simpleBlock(d) && a.Succs[0] == d.Succs[0]:
		join = a.Succs[0]
	default:
		return nil
	}
	ls := x.loopsOf(fr.fn)
	if ls[join] != nil || ls[a] != nil || ls[d] != nil {
		return nil
	}
	for _, l := range ls {
		if l.blocks[b] != l.blocks[join] {
			return nil
		}
	}
	return join
}

func (x *Exec) simpleBlock(b *ssa.BasicBlock) bool {
	if len(b.Preds) != 1 || len(b.Succs) != 1 || len(b.Instrs) > 12 {
		return false
	}
	if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Jump); !ok {
		return false
	}
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		switch i := in.(type) {
		case *ssa.DebugRef, *ssa.Field:
		case *ssa.BinOp:
			switch i.Op {
			case token.QUO, token.REM, token.SHL, token.SHR:
				return false
			}
			if !isIntT(i.X.Type()) {
				return false
			}
		case *ssa.UnOp:
			if i.Op == token.MUL {
				if a := rootAlloc(i.X); a == nil || !promotable(a) || hasIndex(i.X) {
					return false
				}
			} else if i.Op == token.ARROW {
				return false
			}
		case *ssa.FieldAddr:
			if a := rootAlloc(i); a == nil || !promotable(a) || hasIndex(i) {
				return false
			}
		case *ssa.Store:
			if a := rootAlloc(i.Addr); a == nil || !promotable(a) || hasIndex(i.Addr) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func hasIndex(v ssa.Value) bool {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			return true
		default:
			return false
		}
	}
}
