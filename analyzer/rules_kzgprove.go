package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C31"] = checkDef{run: runC31,
		explanation: "Data-flow analysis of the generation of KZG proofs (the walk along the key, sums and openings kept abstract; the walk is analysed on its own): at every return without a proof the key is known to be absent (no path, another ending, or no terminal in the last node); at every return with a proof the path is known to end at the terminal of its last node, which is known to exist and is the terminal of the proof, the key is the one asked for, and for each of the fields of an element there is a complete loop over the path which sets it for each index: the commitment to the vector of the node at this index, the position by which the path continues (the element of the next key, the position of the terminal for the last one), and the opening of the same vector at the same position.",
		assumptions: []string{"the vectors of nodes are decided under C03, sums and openings under C28"}}
}

func runC31(r *Report) {
	w := r.W
	r.arityPositions()
	r.walkRules()
	fn := w.Must("kzg", "CommitmentModel.ProofOfInclusion")
	commit, prove := w.Must("kzg", "TrustedSetup.commit"), w.Must("kzg", "TrustedSetup.prove")
	gen := w.Must("trie", "GetProofGeneric")
	f := r.Flow(fn, FlowOpt{NoInline: noInline(commit, prove, gen), Transfer: func(p *Point) { growTrace(p); curveTrace(p) }, Split: func(c *Term) bool {
		return c.Op == "eq0" || c.Op == "le0" || c.Op == "eq" || c.Op == "isa" || c.Op == "res"
	}})
	tr := f.Param(2)
	var G *Term
	f.Visit(func(p *Point) {
		if c, ok := p.Instr.(*ssa.Call); ok {
			if t := f.term(p.Ctx, c); t.CallName() == "trie.GetProofGeneric" {
				G = t
			}
		}
	}, nil)
	if !r.Check(G != nil, "prover-path", "the path is taken from GetProofGeneric", w.FuncPos(fn), "no call of GetProofGeneric") {
		return
	}
	isKey := func(k *Term) bool {
		return k == f.Param(1) || k.CallName() == "trie.UnpackBytes" && k.Args[0] == f.Param(1)
	}
	r.Check(isKey(G.Args[1]) && G.Args[0] == tr, "prover-path", "the path is looked up for the key asked for", w.FuncPos(fn), "the path is looked up for %s", G.Args[1])
	gpath, gkey, gend := f.mkSel(G, "Path", nil), f.mkSel(G, "Key", nil), f.mkSel(G, "Ending", nil)
	lenP := f.mkLen(gpath)
	arity := f.intern("call", "trie.NodeStore.PathArity", nil, tr)
	termIdx := int64(256)
	// the nodes whose vectors are summed or opened
	xs := map[*Term]*Term{}
	f.VisitCalls(func(_ string, c *ssa.CallCommon) bool {
		g := c.StaticCallee()
		return g == commit || g == prove
	}, func(p *Point, in ssa.CallInstruction, h *Term) {
		st := p.St
		vec := f.baseOf(st, h.Args[1])
		var X *Term
		for _, e := range st.Events("slot") {
			if e.Args[0] != vec {
				continue
			}
			d := f.scalarOf(st, e.Args[2], f.mkIdx(vec, e.Args[1], nil))
			if d == nil {
				continue
			}
			if d.Op == "sel" && d.Name == "PathFragment" || d.CallName() == "trie.Node.PathFragment" {
				X = d.Args[0]
			}
		}
		if old, ok := xs[h]; ok && old != X {
			X = nil
		}
		xs[h] = X
	})
	// node at the index of the path
	nodeAt := func(x, i *Term) bool {
		return x.Op == "res" && x.Name == "0" && x.Args[0].CallName() == "trie.NodeStore.GetNode" && x.Args[0].Args[0] == tr && f.plus(x.Args[0].Args[1], 0) == f.mkIdx(gpath, i, nil)
	}
	var complete func(st *State, l *Loop) bool
	// a list which grows by one element in each iteration of a loop over the path
	asLong := func(st *State, list *Term) bool {
		ph, ok := list.V.(*ssa.Phi)
		if !ok || list.Op != "phi" {
			return false
		}
		for _, l := range f.Loops() {
			if l.Head != ph.Block() || l.Ctx != list.Ctx || !complete(st, l) || !f.startsEmpty(st, l, list) {
				continue
			}
			all, k := true, 0
			f.AtBackEdges(l, func(q *Point) {
				k++
				b, es := f.appended(q.St, f.nextOf(l, list, q))
				all = all && b == list && len(es) == 1
			})
			return all && k > 0
		}
		return false
	}
	complete = func(st *State, l *Loop) bool {
		if l.Kind != "index" || !f.loopEnded(st, l) {
			return false
		}
		if b := st.Resolve(l.Bound); b.Op == "len" && b.Args[0].Op == "phi" && asLong(st, b.Args[0]) && l.Covers(f, b) {
			return true
		}
		return f.rangeAll(st, l, lenP)
	}
	var isNode func(st *State, x, i *Term) bool
	isNode = func(st *State, x, i *Term) bool {
		x = unIface(st, x)
		if nodeAt(x, i) {
			return true
		}
		switch x.Op {
		case "alloc":
			for _, p := range []string{"PathFragment", "ChildCommitments", "Terminal"} {
				v := st.Resolve(f.mkSel(x, p, nil))
				if v.CallName() != "trie.Node."+p || !nodeAt(v.Args[0], i) {
					return false
				}
			}
			return true
		case "idx":
			for _, l := range f.Loops() {
				if !complete(st, l) {
					continue
				}
				ok, k := true, 0
				f.AtBackEdges(l, func(q *Point) {
					k++
					done := false
					for _, e := range q.St.Events("slot") {
						if e.Args[0] == x.Args[0] {
							done = e.Args[1] == l.Idx && isNode(q.St, e.Args[2], l.Idx)
						}
					}
					if x.Args[0].Op == "phi" {
						b, es := f.appended(q.St, f.nextOf(l, x.Args[0], q))
						done = b == x.Args[0] && len(es) == 1 && l.Step == 1 && f.startsEmpty(q.St, l, b) && isNode(q.St, es[0], l.Idx)
					}
					ok = ok && done
				})
				if ok && k > 0 {
					at := x.Args[1]
					if x.Args[0].Op == "phi" && at == f.plus(f.mkLen(x.Args[0]), -1) {
						at = f.plus(lenP, -1)
					}
					return at == i || st.EQ(at, i)
				}
			}
		}
		return false
	}
	// terminal of the node at the end of the path
	isLastTerm := func(st *State, t *Term) bool {
		t = unIface(st, t)
		last := f.plus(lenP, -1)
		if t.CallName() == "trie.Node.Terminal" {
			return nodeAt(t.Args[0], last)
		}
		return t.Op == "sel" && t.Name == "Terminal" && isNode(st, t.Args[0], last)
	}
	nilTerm := func(st *State) int {
		for _, c := range st.Conds() {
			t := c.Cond
			switch {
			case t.Op == "eq" && len(t.Args) == 2:
				a, b := t.Args[0], t.Args[1]
				if b.IsNil() {
					a, b = b, a
				}
				if a.IsNil() && isLastTerm(st, b) {
					if c.Pos {
						return 1
					}
					return -1
				}
			case t.Op == "isa" && isLastTerm(st, t.Args[0]):
				if c.Pos {
					return -1
				}
				return 1
			}
		}
		return 0
	}
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		R, okR := st.Resolve(e.Results[0]), st.Eval(e.Results[1])
		empty := st.True(f.mkEq(G, f.constNil())) || st.EQ(lenP, f.constInt(0, nil))
		if okR == -1 || R.IsNil() {
			r.Check(okR == -1 && R.IsNil(), "prover-result", "no proof is returned if the key is absent", at, "the result is %s, %s", R, e.Results[1])
			absent := empty || st.NE(gend, f.constInt(0, nil)) || nilTerm(st) == 1
			r.Check(absent, "prover-absent", "a proof is refused only for absent keys", at, "the key is not known to be absent")
			return
		}
		if !r.Check(okR == 1, "prover-result", "a proof is returned", at, "it is not known whether the key is present") {
			return
		}
		n++
		g := func(name string) *Term { return st.Resolve(f.mkSel(R, name, nil)) }
		r.Check(st.EQ(arity, f.constInt(255, nil)), "prover-arity", "proofs are generated for the arity of the vectors only", at, "the arity of the trie is not known to be 256")
		r.Check(st.EQ(gend, f.constInt(0, nil)) && st.LE(f.constInt(1, nil), lenP, 0), "prover-present", "a proof is returned only for a path which ends at a terminal", at, "the ending of the path is not known")
		r.Check(nilTerm(st) == -1, "prover-terminal-exists", "a proof is returned only for a key with a value", at, "the last node of the path is not known to have a terminal")
		T := f.kval(st, g("Terminal"))
		okT := false
		if s := T; s.Op == "sel" && s.Name == "Scalar" {
			b := s.Args[0]
			if b.Op == "as" {
				b = b.Args[0]
			}
			okT = isLastTerm(st, b)
		}
		r.Check(okT, "prover-terminal", "the proof carries the terminal of the last node", at, "the terminal is %s", T)
		k := g("Key")
		okK := false
		for _, x := range []*Term{gkey, f.Param(1), G.Args[1]} {
			okK = okK || f.isCopyOf(st, k, x)
		}
		r.Check(okK, "prover-key", "the proof carries the key", at, "the key of the proof is %s", k)
		P := g("Path")
		okLen := st.EQ(f.mkLen(P), lenP)
		// fields of the element at the index of the loop
		field := func(q *Point, l *Loop, name string) *Term {
			var v *Term
			var E *Term
			for _, e := range q.St.Events("slot") {
				if e.Args[0] == P && e.Args[1] == l.Idx {
					E = q.St.Resolve(e.Args[2])
				}
			}
			for _, e := range q.St.Events("grow") {
				if e.Args[0] == P && P.Op != "makeslice" {
					E = q.St.Resolve(e.Args[1])
					okLen = true
				}
			}
			if P.Op == "phi" {
				if b, es := f.appended(q.St, f.nextOf(l, P, q)); b != nil && (b == P || b == q.St.Resolve(P)) && len(es) == 1 {
					E = es[0]
					okLen = true
				}
			}
			for _, e := range q.St.Events("store") {
				a := e.Args[0]
				if a.Op != "fa" || a.Name != name {
					continue
				}
				if b := q.St.Resolve(a.Args[0]); b == E || b.Op == "idx" && b.Args[0] == P && b.Args[1] == l.Idx {
					v = q.St.Resolve(e.Args[1])
				}
			}
			return v
		}
		isIndex := func(q *State, v, i *Term) (bool, string) {
			v = stripPos(q.Resolve(v))
			lastC := f.eq0(linAdd(linAdd(f.toLin(i), f.toLin(lenP), -1), &Lin{C: 1}, 1))
			last := q.Eval(lastC)
			if last == 0 && q.LE(lenP, i, 1) {
				last = 1
			}
			switch last {
			case 1:
				return q.EQ(v, f.constInt(termIdx, nil)), fmt.Sprintf("the index of the last element is %s", v)
			case -1:
				if v.Op != "idx" {
					return false, fmt.Sprintf("the index of an inner element is %s", v)
				}
				next := f.mkIdx(gpath, f.plus(i, 1), nil)
				ok := v.Args[0] == next && q.EQ(v.Args[1], f.plus(f.mkLen(next), -1))
				if isKey(v.Args[0]) || v.Args[0] == gkey {
					ok = q.EQ(v.Args[1], f.plus(f.mkLen(next), -1))
					for _, c := range q.Events("call") {
						if t := c.Args[0]; t.CallName() == "trie.Node.PathFragment" && nodeAt(t.Args[0], i) {
							ok = ok || q.EQ(v.Args[1], f.sum(f.mkLen(f.mkIdx(gpath, i, nil)), f.mkLen(t)))
						}
					}
				}
				return ok, fmt.Sprintf("the index of an inner element is %s", v)
			}
			return false, "the index does not depend on whether the element is the last one"
		}
		loopOf := func(st *State, name string, cond func(q *Point, l *Loop, v *Term) (bool, string)) (bool, string) {
			why := "no complete loop over the path sets it"
			for _, l := range f.Loops() {
				if !complete(st, l) {
					continue
				}
				ok, k := true, 0
				f.AtBackEdges(l, func(q *Point) {
					if contradicts(q.St, st) {
						return
					}
					k++
					v := field(q, l, name)
					if v == nil {
						ok = false
						return
					}
					if ok {
						var y string
						if ok, y = cond(q, l, v); !ok {
							why = y + " in " + q.Where()
						}
					}
				})
				if ok && k > 0 {
					return true, ""
				}
			}
			return false, why
		}
		indexIs := func(q *Point, l *Loop, v *Term) (bool, string) { return isIndex(q.St, v, l.Idx) }
		ok, why := loopOf(st, "VectorIndex", indexIs)
		r.Check(ok, "prover-index", "each element names the position by which the path continues", at, "VectorIndex: %s", why)
		ok, why = loopOf(st, "C", func(q *Point, l *Loop, v *Term) (bool, string) {
			v = f.slotVal(q.St, v)
			X := xs[v]
			return X != nil && v.CallName() == fname(commit) && isNode(q.St, X, l.Idx), fmt.Sprintf("the commitment is %s", v)
		})
		r.Check(ok, "prover-commitment", "each element carries the commitment to its node", at, "C: %s", why)
		ok, why = loopOf(st, "Proof", func(q *Point, l *Loop, v *Term) (bool, string) {
			v = f.slotVal(q.St, v)
			X := xs[v]
			if X == nil || v.CallName() != fname(prove) || !isNode(q.St, X, l.Idx) {
				return false, fmt.Sprintf("the opening is %s", v)
			}
			ix := stripPos(q.St.Resolve(v.Args[2]))
			if ok, _ := isIndex(q.St, ix, l.Idx); ok {
				return true, ""
			}
			if ix.Op == "sel" && ix.Name == "VectorIndex" {
				b := q.St.Resolve(ix.Args[0])
				if b.Op == "idx" && b.Args[0] == P && b.Args[1] == l.Idx {
					if ok, _ := loopOf(q.St, "VectorIndex", indexIs); ok {
						return true, ""
					}
				}
			}
			return false, fmt.Sprintf("the position opened is %s", ix)
		})
		r.Check(ok, "prover-opening", "each element opens its node at the position it names", at, "Proof: %s", why)
		r.Check(okLen, "prover-length", "one element for each node of the path", at, "the path has %s elements", f.mkLen(P))
	})
	r.Check(n > 0, "prover-result", "a proof is returned", w.FuncPos(fn), "no return with a proof")
	// nothing else is written into nodes and elements
	f.Visit(func(p *Point) {
		in, ok := p.Instr.(*ssa.Store)
		if !ok {
			return
		}
		a := p.T(in.Addr)
		if a.Op != "fa" || !strings.Contains(a.Args[0].String(), "makeslice") {
			return
		}
		switch a.Name {
		case "PathFragment", "ChildCommitments", "Terminal":
			r.Bad("prover-nodes", "the nodes of the path are not modified", p.Where(), "the field %s of a node is overwritten", a.Name)
		}
	}, nil)
}

// rangeAll: the loop runs over all indices below n
func (f *Flow) rangeAll(st *State, l *Loop, n *Term) bool {
	if l.Covers(f, n) {
		return true
	}
	lo, hi := st.Resolve(l.Start), st.Resolve(l.Bound)
	if l.Step < 0 {
		lo, hi = hi, f.plus(lo, 1)
	} else if l.Step != 1 {
		return false
	}
	z, ok := lo.Int()
	return ok && z == 0 && st.EQ(hi, n)
}

// stripPos removes conversions to types which hold each position of a vector
func stripPos(t *Term) *Term {
	for t.Op == "conv" && t.T != nil && basicKind(t.T) != types.Uint8 && basicKind(t.T) != types.Int8 {
		t = t.Args[0]
	}
	return t
}

// startsEmpty: the list of the loop is empty before the loop
func (f *Flow) startsEmpty(st *State, l *Loop, list *Term) bool {
	s := f.startOf(l, list)
	if s == nil {
		return false
	}
	s = st.Resolve(s)
	n, ok := st.Resolve(f.mkLen(s)).Int()
	return s.IsNil() || ok && n == 0
}

// slotVal: the value of an element of a list of arguments
func (f *Flow) slotVal(st *State, v *Term) *Term {
	if v.Op != "idx" || v.Args[0].Op != "alloc" {
		return v
	}
	for _, e := range st.Events("slot") {
		if e.Args[0] == v.Args[0] && e.Args[1] == v.Args[1] {
			return st.Resolve(e.Args[2])
		}
	}
	return v
}
