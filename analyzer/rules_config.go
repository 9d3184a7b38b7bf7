package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C23"] = checkDef{run: runC23,
		explanation: "Arity and hash size: (1) the positions derived from the arity are checked by the bodies of the methods, for each of the three arities; (2) the functions which encode, decode, unpack and hash are analysed under the assumption that the arity (hash size) is none of the constants: no successful return is feasible, and under each of the constants one is; (3) in the whole library no value of type PathArity or HashSize which is passed, stored or returned is a constant, computed, or converted from something else, except what the decoder of proofs checks to be one of the constants; none of them is ignored; (4) verification uses the fields of its proof and the model its own fields at every call; (5) node vectors have the length of the arity.",
		assumptions: []string{
			"models are made by New; the zero value of a model is not used",
		}}
}

func isHashSizeT(T types.Type) bool {
	n, ok := T.(*types.Named)
	return ok && n.Obj().Name() == "HashSize" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkgShort["b2"]
}

func isConfigT(T types.Type) bool {
	n, ok := T.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return isHashSizeT(T) || n.Obj().Name() == "PathArity" && n.Obj().Pkg().Path() == pkgShort["trie"]
}

func runC23(r *Report) {
	w := r.W
	r.arityPositions()
	for name, v := range map[string]int64{"HashSize160": 20, "HashSize256": 32} {
		got, ok := w.constOf("b2", name)
		r.Check(ok && got == v, "hash-size-constants", name, "models/trie_blake2b", "constant %s is %d, expected %d", name, got, v)
	}
	// (2)
	arities, sizes := []int64{255, 15, 1}, []int64{20, 32}
	for _, e := range []struct {
		pkg, fn string
		vals    []int64
	}{
		{"trie", "PathArity.TerminalCommitmentIndex", arities}, {"trie", "UnpackBytes", arities}, {"trie", "EncodeUnpackedBytes", arities},
		{"trie", "PackUnpackedBytes", arities}, {"trie", "DecodeToUnpackedBytes", arities}, {"b2", "HashTheVector", sizes},
	} {
		r.dispatch(w.Must(e.pkg, e.fn), e.vals)
	}
	r.Min("refused", 6)
	r.Min("supported", 17)
	// (3)
	r.configured()
	r.modelMade()
	r.decodedProofs()
	// (4)
	for _, n := range []string{"Validate", "ValidateWithValue", "CommitmentToTheTerminalNode", "MustKeyWithTerminal", "IsProofOfAbsence"} {
		r.ownConfig(w.Must("verify", n))
	}
	for _, fn := range w.recursive(w.Must("verify", "Validate")) {
		if fn.Pkg == w.Pkgs["verify"] {
			r.ownConfig(fn)
		}
	}
	for _, n := range []string{"CalcNodeCommitment", "UpdateNodeCommitment", "CommitToData", "NewVectorCommitment", "NewTerminalCommitment", "ForceStoreTerminalWithNode"} {
		if fn := w.Func("b2", "CommitmentModel."+n); fn != nil {
			r.ownConfig(fn)
		}
	}
	r.Min("own-configuration", 12)
	r.Min("vector-length", 2)
}

// dispatch: the function refuses what is none of the values, and supports each of them
func (r *Report) dispatch(fn *ssa.Function, vals []int64) {
	w := r.W
	idx := -1
	for i, p := range fn.Params {
		if isConfigT(p.Type()) && (len(vals) == 3) != isHashSizeT(p.Type()) {
			idx = i
		}
	}
	if !r.Check(idx >= 0, "refused", fname(fn)+": parameter", w.FuncPos(fn), "%s does not take the configuration", fname(fn)) {
		return
	}
	self := fname(fn)
	noSum := aritySummaries[self] != 0
	bad := ""
	f := r.Flow(fn, FlowOpt{NoSummary: noSum, Split: splitAll, Transfer: trace, Init: func(st *State) {
		a := st.f.Root.Params[idx]
		for _, v := range vals {
			st.Assume(st.f.eq0(linAdd(st.f.toLin(a), &Lin{C: -v}, 1)), false)
		}
	}})
	f.Visit(nil, func(e *Exit) {
		if !succeeded(e) || e.P.St.contradictory() {
			return
		}
		for _, x := range e.Results {
			if x = e.P.St.Resolve(x); !x.IsNil() && !isErrT(x.T) {
				bad = e.P.Where()
			}
		}
	})
	r.Check(bad == "", "refused", self+": a value which is not supported", bad, "%s returns a result for a value which is none of %v", self, vals)
	for _, v := range vals {
		ok := false
		f := r.Flow(fn, FlowOpt{NoSummary: noSum, Split: splitAll, Transfer: trace, Init: func(st *State) {
			st.Assume(st.f.eq0(linAdd(st.f.toLin(st.f.Root.Params[idx]), &Lin{C: -v}, 1)), true)
		}})
		f.Visit(nil, func(e *Exit) {
			if !succeeded(e) {
				return
			}
			for _, x := range e.Results {
				if x = e.P.St.Resolve(x); !x.IsNil() && !isErrT(x.T) {
					ok = true
				}
			}
		})
		r.Check(ok, "supported", fmt.Sprintf("%s: %d", self, v), w.FuncPos(fn), "%s never returns a result for %d", self, v)
	}
}

// configured: arities and hash sizes are passed on, never made up
func (r *Report) configured() {
	w := r.W
	decoder := w.reachable(w.Must("b2", "ProofFromBytes"))
	n := 0
	for _, fn := range w.Funcs {
		if !inLib(fn.Pkg) || fn.Synthetic != "" && fn.Name() == "init" {
			continue
		}
		r.Analysed(fn)
		what := func(v ssa.Value) string {
			seen := map[ssa.Value]bool{}
			var walk func(v ssa.Value) string
			walk = func(v ssa.Value) string {
				if seen[v] {
					return ""
				}
				seen[v] = true
				switch v := v.(type) {
				case *ssa.Const:
					if fn.Pkg == w.Pkgs["kzg"] && v.Value != nil && v.Value.ExactString() == "255" {
						return "" // the model for the arity of 256
					}
					return "the constant " + v.String()
				case *ssa.BinOp, *ssa.UnOp:
					if u, ok := v.(*ssa.UnOp); ok && u.Op.String() == "*" {
						a := u.X
						for {
							if x, ok := a.(*ssa.IndexAddr); ok {
								a = x.X
								continue
							}
							if x, ok := a.(*ssa.FieldAddr); ok {
								a = x.X
								continue
							}
							if x, ok := a.(*ssa.UnOp); ok {
								a = x.X
								continue
							}
							break
						}
						if g, ok := a.(*ssa.Global); ok && fn.Pkg != w.Pkgs["kzg"] {
							return "a value of the global " + g.Name()
						}
						return ""
					}
					return "a computed value"
				case *ssa.Convert:
					return walk(v.X)
				case *ssa.ChangeType:
					return walk(v.X)
				case *ssa.Phi:
					for _, e := range v.Edges {
						if x := walk(e); x != "" {
							return x
						}
					}
				}
				return ""
			}
			x := walk(v)
			if x == "" && !decoder[fn] {
				// converted
				for {
					p, ok := v.(*ssa.Convert)
					if !ok {
						if c, isC := v.(*ssa.ChangeType); isC {
							if !isConfigT(c.X.Type()) {
								return "a converted value"
							}
							v = c.X
							continue
						}
						break
					}
					if !isConfigT(p.X.Type()) {
						return "a converted value"
					}
					v = p.X
				}
			}
			return x
		}
		for i, p := range fn.Params {
			if !isConfigT(p.Type()) {
				continue
			}
			n++
			used := false
			if p.Referrers() != nil {
				for _, u := range *p.Referrers() {
					if _, dbg := u.(*ssa.DebugRef); !dbg {
						used = true
					}
				}
			}
			r.Check(used, "ignored", fmt.Sprintf("%s: parameter %d", fname(fn), i), w.FuncPos(fn), "%s does not use its parameter %s", fname(fn), p.Name())
		}
		isString := fn.Name() == "String"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []ssa.Value
				switch in := in.(type) {
				case ssa.CallInstruction:
					ops = append(ops, in.Common().Args...)
				case *ssa.Store:
					ops = append(ops, in.Val)
				case *ssa.Return:
					ops = append(ops, in.Results...)
				}
				for _, v := range ops {
					if !isConfigT(v.Type()) || isString {
						continue
					}
					n++
					x := what(v)
					r.Check(x == "", "configured", fmt.Sprintf("%s: %s", fname(fn), v.Type().String()[strings.LastIndex(v.Type().String(), ".")+1:]), w.InstrPos(in), "%s is used instead of the configured one", x)
				}
			}
		}
	}
	r.Min("configured", 20)
	r.Min("ignored", 10)
}

// ownConfig: at each call from the entry the arity and the hash size are those of its proof, or of its model
func (r *Report) ownConfig(fn *ssa.Function) {
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll})
	var own []*Term
	for _, p := range f.Root.Params {
		if p.T == nil {
			continue
		}
		if isPtrTo(p.T, "b2", "Proof") || isPtrTo(p.T, "b2", "CommitmentModel") {
			own = append(own, p)
		}
	}
	if !r.Check(len(own) > 0, "own-configuration", fname(fn), r.W.FuncPos(fn), "no proof or model") {
		return
	}
	bad, at := "", ""
	f.Visit(func(p *Point) {
		switch in := p.Instr.(type) {
		case ssa.CallInstruction:
			for _, a := range in.Common().Args {
				if !isConfigT(a.Type()) {
					continue
				}
				t := p.St.Resolve(p.T(a))
				ok := false
				for _, o := range own {
					ok = ok || t.Op == "sel" && t.Args[0] == o
				}
				if !ok {
					bad, at = t.String(), p.Where()
				}
			}
		case *ssa.Alloc:
			if a, ok := in.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok && in.Comment == "makeslice" && isByteSlice(a.Elem()) {
				r.Bad("vector-length", fname(fn), p.Where(), "the length of the vector is %d", a.Len())
			}
		case *ssa.MakeSlice:
			// node vectors
			T, ok := in.Type().Underlying().(*types.Slice)
			if !ok || !isByteSlice(T.Elem()) {
				return
			}
			l := f.toLin(p.St.Resolve(p.T(in.Len)))
			good := l.C == 3 && len(l.M) == 1 && l.M[0].K == 1 && l.M[0].T.T != nil && isArityT(l.M[0].T.T)
			r.Check(good, "vector-length", fname(fn), p.Where(), "the length of the vector is %s", f.fromLin(l, nil))
		}
	}, nil)
	r.Check(bad == "", "own-configuration", fname(fn), at, "%s is used instead of the one of the proof or model", bad)
}
