package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C10"] = checkDef{run: runC10,
		explanation: "Path-sensitive data-flow analysis of every function of the library and the setup program: each error returned by a call is an obligation which is discharged only on paths where the error is known to be nil, where the function panics or where it returns a non-nil error or the error itself; overwriting or dropping an unexamined error, ignoring the error of a writer, closing a written file without looking at the error and treating an error as a regular case, other than the sentinels for an absent key and the end of a stream, are violations."}
}

// errorCalls which cannot fail: their error is documented to be always nil
func neverFails(name string, c *ssa.CallCommon) bool {
	if i := strings.IndexByte(name, ':'); i >= 0 {
		name = name[i+1:]
	}
	if strings.HasPrefix(name, "fmt.Print") {
		return true
	}
	var rT types.Type
	if c.IsInvoke() {
		rT = c.Value.Type()
	} else if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(c.Args) > 0 {
		rT = c.Args[0].Type()
	} else if f != nil && strings.HasPrefix(extName(f), "fmt.Fprint") && len(c.Args) > 0 {
		v := c.Args[0]
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		rT = v.Type()
	}
	if f := c.StaticCallee(); f != nil && extName(f) == "blake2b.New" && len(c.Args) == 2 {
		// fails only for a wrong size or a too long key
		sz, ok1 := c.Args[0].(*ssa.Const)
		key, ok2 := c.Args[1].(*ssa.Const)
		return ok1 && ok2 && key.IsNil() && sz.Int64() >= 1 && sz.Int64() <= 64
	}
	if rT == nil {
		return false
	}
	m := ""
	if c.IsInvoke() {
		m = c.Method.Name()
	} else if f := c.StaticCallee(); f != nil {
		m = f.Name()
	}
	switch rT.String() {
	case "*bytes.Buffer", "*strings.Builder":
		return strings.HasPrefix(m, "Write") || strings.HasPrefix(m, "Fprint")
	case "hash.Hash":
		return m == "Write"
	case "*math/rand.Rand":
		return m == "Read"
	}
	return false
}

// readOnlyFile: the file was opened for reading only
func readOnlyFile(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := c.Common().StaticCallee(); f != nil {
				return extName(f) == "os.Open"
			}
		}
	case *ssa.Call:
		if f := x.Common().StaticCallee(); f != nil {
			return extName(f) == "os.Open"
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !readOnlyFile(e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		return readOnlyFile(x.X, seen)
	case *ssa.MakeInterface:
		return readOnlyFile(x.X, seen)
	case *ssa.FreeVar:
		fn := x.Parent()
		idx := -1
		for i, fv := range fn.FreeVars {
			if fv == x {
				idx = i
			}
		}
		n := 0
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					n++
					if !readOnlyFile(mc.Bindings[idx], seen) {
						return false
					}
				}
			}
		}
		return n > 0
	case *ssa.Alloc:
		n := 0
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				n++
				if !readOnlyFile(st.Val, seen) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.Parameter:
		// helper: all its callers
		return false
	}
	return false
}

// topFunc is the declared function in which a closure is
func topFunc(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func hasErrParam(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if isErrT(p.Type()) {
			return true
		}
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && fn.Signature.Results().Len() == 0 {
			return true
		}
		if p, ok := p.Type().Underlying().(*types.Pointer); ok && isErrT(p.Elem()) {
			return true
		}
	}
	return false
}

// errTerm of the call, nil if it returns no error
func (f *Flow) errTerm(ctx *Ctx, v *ssa.Call) *Term {
	t := f.term(ctx, v)
	if t.Op != "call" {
		return nil
	}
	switch T := v.Type().(type) {
	case *types.Tuple:
		if i := T.Len() - 1; i >= 0 && isErrT(T.At(i).Type()) {
			return f.intern("res", itoa(i), T.At(i).Type(), t)
		}
	default:
		if isErrT(T) {
			return t
		}
	}
	return nil
}

func itoa(i int) string { return string(rune('0' + i)) }

// sentinels: the error is known to be one which is a regular case
func sentinelCase(st *State, e *Term, stream bool) bool {
	for _, a := range st.Conds() {
		if !a.Pos {
			continue
		}
		var g *Term
		if a.Cond.CallName() == "errors.Is" && st.Resolve(a.Cond.Args[0]) == e {
			g = a.Cond.Args[1]
		} else if a.Cond.Op == "eq" {
			x, y := a.Cond.Args[0], a.Cond.Args[1]
			if x == e {
				g = y
			} else if y == e {
				g = x
			}
		}
		if g == nil {
			continue
		}
		s := g.String()
		if strings.Contains(s, "ErrKeyNotFound") || stream && (strings.HasSuffix(s, "io.EOF") || strings.HasSuffix(s, "io.EOF)") || strings.Contains(s, "io.EOF") && !strings.Contains(s, "Unexpected")) {
			return true
		}
	}
	return false
}

func runC10(r *Report) {
	w := r.W
	calls := 0
	type bad struct{ rule, construct, at, msg string }
	found := map[string]bad{}
	for _, fn := range w.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Blocks == nil {
			continue
		}
		// functions which return no error themselves may use the end of a stream as a regular case; so do the readers
		// of records and iterators, but no method which reads an object
		stream := fn.Pkg == w.Pkgs["trie"] && fn.Name() != "Read" && !strings.HasPrefix(fn.Name(), "read") || errIndex(fn.Signature) < 0
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			// the end is reported by a flag
			if b, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				stream = true
			}
		}
		own := func(ctx *Ctx) bool { return topFunc(ctx.Fn) == fn }
		opt := FlowOpt{
			NonNilStores: true,
			NoInline: func(g *ssa.Function) bool {
				return topFunc(g) != fn && !hasErrParam(g)
			},
		}
		isNil := func(st *State, pd *Pend) bool {
			for _, e := range pd.Args {
				if st.True(st.f.mkEq(e, st.f.constNil())) || sentinelCase(st, e, stream) {
					return true
				}
			}
			return false
		}
		discharge := func(st *State) {
			for k, pd := range st.pend {
				if isNil(st, pd) {
					delete(st.pend, k)
				}
			}
		}
		opt.Discharge = discharge
		// merged errors
		opt.PhiEdge = func(st *State, phi, val *Term) {
			if !isErrT(phi.T) {
				return
			}
			for k, pd := range st.pend {
				for _, a := range pd.Args {
					if a == phi {
						return
					}
				}
				for _, a := range pd.Args {
					if a == val || a == st.Resolve(val) {
						delete(st.pend, k)
						st.AddPend(pd.Name, pd.At, append(append([]*Term{}, pd.Args...), phi)...)
						break
					}
				}
			}
		}
		lost := func(p *Point, o *Pend) {
			if isNil(p.St, o) {
				return
			}
			if main := fn.Name() == "main" && strings.Contains(o.Name, "ReadPassword"); main {
				return // asked again
			}
			found[o.At+"/lost"] = bad{"error-examined", "error of " + o.Name + " in " + fname(fn), o.At, "the error is forgotten when the call is repeated"}
		}
		opt.AtLost = lost
		opt.Transfer = func(p *Point) {
			discharge(p.St)
			if sto, ok := p.Instr.(*ssa.Store); ok && isErrT(sto.Val.Type()) {
				// the variable now holds the error
				v := p.F.term(p.Ctx, sto.Val)
				ld := p.F.mkLoadNoFwd(p.St.Resolve(p.F.term(p.Ctx, sto.Addr)), sto.Val.Type())
				for k, pd := range p.St.pend {
					holds, held := false, false
					var rest []*Term
					for _, a := range pd.Args {
						holds = holds || a == v || a == p.St.Resolve(v)
						if a == ld {
							held = true
						} else {
							rest = append(rest, a)
						}
					}
					if !holds && held && len(rest) > 0 || holds && !held {
						if holds {
							rest = append(rest, ld)
						}
						delete(p.St.pend, k)
						p.St.AddPend(pd.Name, pd.At, rest...)
					}
				}
			}
			in, ok := p.Instr.(*ssa.Call)
			if !ok || !own(p.Ctx) {
				return
			}
			if inMain(fn) && strings.HasPrefix(p.F.callName(p.Ctx, in.Common()), "fmt.Print") {
				// the setup program reports to the console
				for k, pd := range p.St.pend {
					if p.St.nonNilIn(pd.Args[0]) {
						delete(p.St.pend, k)
					}
				}
			}
			e := p.F.errTerm(p.Ctx, in)
			if e == nil || neverFails(p.F.callName(p.Ctx, in.Common()), in.Common()) {
				return
			}
			name := p.F.callName(p.Ctx, in.Common())
			if strings.HasPrefix(name, "errors.") || strings.HasPrefix(name, "xerrors.") || name == "fmt.Errorf" {
				return
			}
			if strings.HasSuffix(name, "Close") && len(in.Call.Args) > 0 && readOnlyFile(in.Call.Args[0], map[ssa.Value]bool{}) {
				return
			}
			p.St.AddPend(name, w.InstrPos(in), e)
		}
		f := r.Flow(fn, opt)
		f.Visit(func(p *Point) {
			switch in := p.Instr.(type) {
			case *ssa.Call:
				if own(p.Ctx) && f.errTerm(p.Ctx, in) != nil {
					calls++
				}
			case *ssa.Defer:
				// deferred call whose error is dropped
				c := in.Common()
				sig := c.Signature()
				if errIndex(sig) < 0 || !own(p.Ctx) {
					return
				}
				if g := c.StaticCallee(); g != nil && w.inMod[g] && topFunc(g) == fn {
					return
				}
				v := c.Value
				if !c.IsInvoke() && len(c.Args) > 0 {
					v = c.Args[0]
				}
				m := f.callName(p.Ctx, c)
				if strings.HasSuffix(m, "Close") && (readOnlyFile(v, map[ssa.Value]bool{}) || closedBefore(fn, v, in)) {
					return
				}
				found[w.InstrPos(in)+"/defer"] = bad{"error-examined", "error of the deferred " + m + " in " + fname(fn), w.InstrPos(in), "the error of the deferred call is dropped"}
			}
		}, func(e *Exit) {
			if e.Kind != "return" {
				return
			}
			st := e.P.St
			for _, pd := range st.pend {
				if isNil(st, pd) {
					continue
				}
				ok := false
				for i, x := range e.Results {
					if i < fn.Signature.Results().Len() && isErrT(fn.Signature.Results().At(i).Type()) {
						raw := f.term(e.P.Ctx, e.P.Instr.(*ssa.Return).Results[i])
						if st.nonNilIn(x) || st.nonNilIn(raw) {
							ok = true
						}
						for _, er := range pd.Args {
							if mentions(x, er) || mentions(raw, er) {
								ok = true
							}
						}
					}
				}
				if !ok {
					found[pd.At+"/exit"] = bad{"error-examined", "error of " + pd.Name + " in " + fname(fn), pd.At, "there is a path from the call to the return at " + w.InstrPos(e.P.Instr) + " on which the error may be non-nil and is neither returned nor raised"}
				}
			}
		})
	}
	ks := make([]string, 0, len(found))
	for k := range found {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b := found[k]
		r.Bad(b.rule, b.construct, b.at, "%s", b.msg)
	}
	for i := 0; i < calls; i++ {
		r.OK("error-examined", "call "+itoa2(i), "-")
	}
	r.Check(calls >= 80, "error-calls", "calls which return errors", "-", "only %d calls were found", calls)
}

func itoa2(i int) string {
	s := ""
	for {
		s = string(rune('0'+i%10)) + s
		i /= 10
		if i == 0 {
			return s
		}
	}
}

func inMain(fn *ssa.Function) bool { return fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" }

// closedBefore: the file is also closed by a call whose error is examined (a second Close in defer is harmless)
func closedBefore(fn *ssa.Function, v ssa.Value, d *ssa.Defer) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Name() == "Close" && len(c.Call.Args) > 0 && c.Call.Args[0] == v && len(*c.Referrers()) > 0 {
					return true
				}
			}
		}
	}
	return false
}
