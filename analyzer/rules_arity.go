package main

import "fmt"

// arityPositions backs the summaries of the methods of PathArity by their bodies
func (r *Report) arityPositions() {
	for _, name := range []string{"TerminalCommitmentIndex", "PathFragmentCommitmentIndex", "VectorLength", "NumChildren"} {
		fn := r.W.Must("trie", "PathArity."+name)
		f := r.Flow(fn, FlowOpt{NoSummary: true})
		a := f.Param(0)
		k := aritySummaries[fname(fn)]
		seen := map[int64]bool{}
		f.Visit(nil, func(e *Exit) {
			if e.Kind != "return" {
				return
			}
			for _, v := range []int64{255, 15, 1} {
				st := e.P.St.clone()
				if !st.Assume(f.eq0(linAdd(f.toLin(a), &Lin{C: -v}, 1)), true) {
					continue
				}
				seen[v] = true
				want := f.constInt(v+k, nil)
				got := st.Resolve(e.Results[0])
				// substitute the arity
				got = f.Subst(got, map[*Term]*Term{a: f.constInt(v, nil)})
				r.Check(got == want || st.EQ(got, want), "arity-positions", fmt.Sprintf("%s of arity %d is %d", name, v+1, v+k), e.P.Pos(),
					"%s returns %s for PathArity(%d), expected %d", name, got, v, v+k)
			}
		})
		for _, v := range []int64{255, 15, 1} {
			r.Check(seen[v], "arity-supported", fmt.Sprintf("%s of arity %d", name, v+1), r.W.FuncPos(fn), "%s has no result for PathArity(%d)", name, v)
		}
	}
	fn := r.W.Must("trie", "PathArity.IsChildIndex")
	f := r.Flow(fn, FlowOpt{NoSummary: true})
	a, i := f.Param(0), f.Param(1)
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st := e.P.St
		in := f.le0(linAdd(f.toLin(i), f.toLin(a), -1)) // i <= a
		res := st.Resolve(e.Results[0])
		// each of: result true => 0 <= i <= a; result false => i > a or i < 0
		pos := f.le0(linScale(f.toLin(i), -1))
		s1 := st.clone()
		okT := !s1.Assume(res, true) || s1.True(in) && s1.True(pos)
		s2 := st.clone()
		okF := !s2.Assume(res, false) || s2.False(in) || s2.False(pos) || resOnlyAddsNonNeg(f, s2, i, in)
		r.Check(okT && okF, "arity-positions", "IsChildIndex(i) is 0 <= i <= arity", e.P.Pos(), "IsChildIndex returns %s", res)
	})
	// the constants themselves
	for name, v := range map[string]string{"PathArity256": "255", "PathArity16": "15", "PathArity2": "1"} {
		got := "missing"
		if c := r.W.Pkgs["trie"].Const(name); c != nil {
			got = c.Value.Value.ExactString()
		}
		r.Check(got == v, "arity-constants", name, "trie", "constant %s is %s, expected %s", name, got, v)
	}
}

// i >= 0 && i <= a in the negative: not decidable as a single inequality; accept if under i >= 0 it decides
func resOnlyAddsNonNeg(f *Flow, s *State, i, in *Term) bool {
	s = s.clone()
	if !s.Assume(f.le0(linScale(f.toLin(i), -1)), true) {
		return true
	}
	return s.False(in)
}
