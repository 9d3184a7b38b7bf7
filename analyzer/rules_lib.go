package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// splitAll makes the analysis path-sensitive: for small functions
func splitAll(c *Term) bool { return true }

// headTerm identifies a loop
func (f *Flow) headTerm(ctx *Ctx, b *ssa.BasicBlock) *Term {
	return f.intern("loophead", fmt.Sprintf("%d.%d", ctx.ID, b.Index), nil)
}

// trace records what happened on all paths: stores, copies, map updates, opaque calls and loops passed
func trace(p *Point) {
	f, st := p.F, p.St
	b := p.Instr.Block()
	if f.isLoopHead(b) && firstNonPhi(b) == p.Instr {
		st.AddEvent("loop", f.headTerm(p.Ctx, b))
	}
	switch in := p.Instr.(type) {
	case *ssa.Store:
		a, v := p.T(in.Addr), p.T(in.Val)
		switch {
		case a.Op == "ia":
			st.AddEvent("slot", a.Args[0], a.Args[1], v)
		default:
			st.AddEvent("store", a, v)
		}
	case *ssa.MapUpdate:
		st.AddEvent("mapset", p.T(in.Map), p.T(in.Key), p.T(in.Value))
	case *ssa.Call:
		c := in.Common()
		if bi, ok := c.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "copy":
				st.AddEvent("copy", p.T(c.Args[0]), p.T(c.Args[1]))
			case "delete":
				st.AddEvent("mapdel", p.T(c.Args[0]), p.T(c.Args[1]))
			}
			return
		}
		if f.child(p.Ctx, in, c) == nil {
			// the term of the call is redefined by the instruction: its arguments are those of now
			t := f.term(p.Ctx, in)
			st.AddEvent("call", t)
			f.concatLen(st, t)
		}
	}
}

// concatLen: the length of a concatenation is the sum of the lengths of the parts
func (f *Flow) concatLen(st *State, t *Term) {
	if t.CallName() != "trie.Concat" {
		return
	}
	ps := f.concatParts(st, t)
	if len(ps) == 0 {
		return
	}
	l := f.constInt(0, nil)
	for _, x := range ps {
		switch {
		case x.T == nil:
			return
		case isByteT(x.T):
			l = f.plus(l, 1)
		default:
			if _, ok := x.T.Underlying().(*types.Slice); !ok {
				return
			}
			l = f.sum(l, f.mkLen(x))
		}
	}
	st.Assume(f.eq0(linAdd(f.toLin(f.mkLen(t)), f.toLin(l), -1)), true)
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func firstNonPhi(b *ssa.BasicBlock) ssa.Instruction {
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return in
		}
	}
	return nil
}

func (s *State) loopDone(f *Flow, l *Loop) bool {
	h := f.headTerm(l.Ctx, l.Head)
	for _, e := range s.Events("loop") {
		if e.Args[0] == h {
			return true
		}
	}
	return false
}

// Content of a local array or a slice of it
func (s *State) Content(t *Term) *Term {
	f := s.f
	t = s.Resolve(t)
	for i := 0; i < 6; i++ {
		u := t
		switch u.Op {
		case "arr":
			u = u.Args[0]
		case "slice":
			if lo, ok := u.Args[1].Int(); ok && lo == 0 && u.Args[2] == f.mkLen(u.Args[0]) {
				u = u.Args[0]
			}
		case "conv", "as", "iface", "str":
			u = u.Args[0]
		}
		if u.Op == "alloc" {
			if v, ok := s.corr[f.intern("ld", "", nil, u)]; ok && v.Op != "const" {
				u = v
			}
		}
		if u == t {
			break
		}
		t = s.Resolve(u)
	}
	return t
}

// calls to the function in the flow, with the state before each
func (f *Flow) VisitCalls(match func(name string, c *ssa.CallCommon) bool, fn func(p *Point, in ssa.CallInstruction, call *Term)) {
	f.Visit(func(p *Point) {
		in, ok := p.Instr.(ssa.CallInstruction)
		if !ok {
			return
		}
		c := in.Common()
		if v, isV := in.(*ssa.Call); isV {
			if _, b := c.Value.(*ssa.Builtin); b {
				return
			}
			if f.child(p.Ctx, in, c) != nil {
				return
			}
			t := f.term(p.Ctx, v)
			if match(t.CallName(), c) {
				fn(p, in, t)
			}
		}
	}, nil)
}

// mentions: x occurs in t
func mentions(t, x *Term) bool { return t != nil && t.Any(func(y *Term) bool { return y == x }) }

// sliced: t contains a proper slice of something in which x occurs
func (f *Flow) cuts(t, x *Term) bool {
	return t.Any(func(y *Term) bool {
		if y.Op != "slice" || !mentions(y.Args[0], x) {
			return false
		}
		lo, ok := y.Args[1].Int()
		return !(ok && lo == 0 && y.Args[2] == f.mkLen(y.Args[0]))
	})
}

var _ = types.Typ
