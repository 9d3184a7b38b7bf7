package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// writesSelf: a method which writes its receiver to a stream
func writesSelf(g *ssa.Function) bool {
	if g.Signature.Recv() == nil || wireMethod(g.Name()) == "" || errIndex(g.Signature) < 0 {
		return false
	}
	for i := 0; i < g.Signature.Params().Len(); i++ {
		if g.Signature.Params().At(i).Type().String() == "io.Writer" {
			return true
		}
	}
	return false
}

// bytesForm: the byte form of an object is what its writer writes, whatever the object is.
// It returns the number of functions found.
func (r *Report) bytesForm(rule string, want func(fn *ssa.Function) bool) int {
	w := r.W
	n := 0
	for _, fn := range w.Funcs {
		if !inLib(fn.Pkg) || fn.Parent() != nil || fn.Synthetic != "" || len(fn.Blocks) == 0 || !want(fn) {
			continue
		}
		s := fn.Signature
		if s.Results().Len() != 1 || !isByteSlice(s.Results().At(0).Type()) || len(fn.Params) == 0 {
			continue
		}
		if s.Recv() == nil && !callsWriter(fn) || s.Recv() != nil && fn.Name() != "Bytes" {
			continue
		}
		n++
		f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: func(g *ssa.Function) bool { return g != fn && writesSelf(g) }})
		self := f.Param(0)
		m := 0
		f.Visit(nil, func(e *Exit) {
			if e.Kind != "return" {
				return
			}
			m++
			st, at := e.P.St, e.P.Where()
			R := st.Resolve(e.Results[0])
			ok := f.isCopyOf(st, R, self)
			for _, x := range bufferParts(f, st, R) {
				for _, c := range st.Events("call") {
					t := c.Args[0]
					if len(t.Args) >= 2 && wireMethod(methodOf(t)) != "" && f.isSelf(st, t.Args[0], self) && unIface(st, t.Args[1]) == x {
						ok = true
					}
				}
			}
			r.Check(ok, rule, "byte form of "+fname(fn), at, "the result is %s, which is not what the object writes", R)
		})
		r.Check(m > 0, rule, "byte form of "+fname(fn)+" is returned", w.FuncPos(fn), "it never returns")
	}
	return n
}

// isSelf: the object itself or its data
func (f *Flow) isSelf(st *State, t, self *Term) bool {
	t = unIface(st, t)
	return t == self || t.Op == "fa" && t.Args[0] == self || t == st.Resolve(f.mkLoad(self, nil))
}

// bufferParts: the buffers all content of which is R
func bufferParts(f *Flow, st *State, R *Term) []*Term {
	R = st.Resolve(R)
	for R.Op == "append" && len(R.Args) == 2 && R.Args[0].IsNil() {
		R = st.Resolve(R.Args[1])
	}
	buffer := func(t *Term) *Term {
		if strings.HasSuffix(t.CallName(), "bytes.Buffer).Bytes") {
			return unIface(st, t.Args[0])
		}
		return nil
	}
	if b := buffer(R); b != nil {
		return []*Term{b}
	}
	for _, e := range st.Events("copy") {
		src := st.Resolve(e.Args[1])
		b := buffer(src)
		if e.Args[0] != R || b == nil || R.Op != "makeslice" {
			continue
		}
		all := st.EQ(f.mkLen(R), f.mkLen(src))
		f.mkLen(R).Any(func(x *Term) bool {
			all = all || strings.HasSuffix(x.CallName(), "bytes.Buffer).Len") && unIface(st, x.Args[0]) == b && st.EQ(f.mkLen(R), x)
			return false
		})
		if all {
			return []*Term{b}
		}
	}
	return nil
}

// callsWriter: the function writes an object to a local buffer
func callsWriter(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g := c.Common().StaticCallee(); g != nil && writesSelf(g) {
				return true
			}
			if m := c.Common().Method; c.Common().IsInvoke() && wireMethod(m.Name()) == "self" && m.Type().String() == "func(w io.Writer) error" {
				return true
			}
		}
	}
	return false
}
