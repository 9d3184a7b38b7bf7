package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// isErr: type error
func isErrT(T types.Type) bool { return T != nil && T.String() == "error" }

func errIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrT(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// namedIs tells whether T (or its pointee) is the named type of the package
func namedIs(T types.Type, pkg, name string) bool {
	if T == nil {
		return false
	}
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	n, ok := T.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkgShort[pkg]
}

func fnIs(fn *ssa.Function, pkg, name string) bool {
	return fn != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == pkgShort[pkg] && fn.Name() == name && fn.Signature.Recv() == nil
}

// noInline makes the NoInline option for named functions
func noInline(fns ...*ssa.Function) func(*ssa.Function) bool {
	m := map[*ssa.Function]bool{}
	for _, f := range fns {
		if f != nil {
			m[f] = true
		}
	}
	return func(fn *ssa.Function) bool { return m[fn] }
}

// succeeded: the exit returns a nil error in this disjunct (or has no error result)
func succeeded(e *Exit) bool {
	if e.Kind != "return" {
		return false
	}
	i := errIndex(e.P.F.Entry.Signature)
	if i < 0 {
		return true
	}
	return !e.P.St.nonNilIn(e.Results[i])
}

func (s *State) True(c *Term) bool  { return s.Eval(c) == 1 }
func (s *State) False(c *Term) bool { return s.Eval(c) == -1 }

// EntailsLETerm: a <= b + k
func (s *State) LE(a, b *Term, k int64) bool {
	f := s.f
	l := linAdd(f.toLin(s.Resolve(a)), f.toLin(s.Resolve(b)), -1)
	return s.EntailsLE(linAdd(l, &Lin{C: -k}, 1))
}

func (s *State) EQ(a, b *Term) bool {
	a, b = s.Resolve(a), s.Resolve(b)
	return a == b || s.LE(a, b, 0) && s.LE(b, a, 0)
}

// NE: known to be different
func (s *State) NE(a, b *Term) bool {
	f := s.f
	a, b = s.Resolve(a), s.Resolve(b)
	return s.LE(a, b, -1) || s.LE(b, a, -1) || s.False(f.eq0(linAdd(f.toLin(a), f.toLin(b), -1)))
}

func (f *Flow) plus(t *Term, k int64) *Term {
	return f.fromLin(linAdd(f.toLin(t), &Lin{C: k}, 1), t.T)
}

// hasPrefix finds terms of prefix checks on a byte string: bytes.HasPrefix(x, pf), or the equality with the slice
func (f *Flow) hasPrefix(x, pf *Term) *Term {
	return f.intern("call", "bytes.HasPrefix", types.Typ[types.Bool], x, pf)
}

// reachable functions of the module by static calls (incl. closures)
func (w *World) reachable(entry ...*ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || !w.inMod[f] || r[f] {
			return
		}
		r[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					walk(c.Common().StaticCallee())
				}
				for _, op := range in.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok {
						walk(fn)
					}
				}
			}
		}
	}
	for _, e := range entry {
		walk(e)
	}
	return r
}

// recursive functions among those reachable
func (w *World) recursive(entry *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range w.Funcs {
		if !w.reachable(entry)[f] {
			continue
		}
		for _, b := range f.Blocks {
			done := false
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && w.inMod[g] && w.reachable(g)[f] {
						r = append(r, f)
						done = true
						break
					}
				}
			}
			if done {
				break
			}
		}
	}
	return r
}
