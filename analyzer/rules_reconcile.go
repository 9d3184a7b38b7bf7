package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C29"] = checkDef{run: runC29,
		explanation: "Path-sensitive data-flow analysis of Reconcile with the walk, the access to nodes and the model kept abstract: the callback given to the iteration of the store asks on every path to continue; it leaves a key out of the result only on paths on which the walk along the unpacked key ended at a terminal, the last node of the walk was found and its terminal equals the commitment to the value (to the unpacked key if key commitments are optimized and the value equals the key); it adds the key, exactly once, only on paths on which one of these is known not to hold; the last node of the walk is taken only if there is one; the result is the list as collected by the one iteration of the whole store. The commitments of Update to its values are decided in the same way.",
		assumptions: []string{"the walk proofPath is decided under C04 and C26, the iteration of stores under C18 and C30, the equality of commitments under C15"}}
}

// valueCommitmentIs: in the state t is the terminal commitment to the value under the key
func (f *Flow) valueCommitmentIs(st *State, t, key, value *Term) (bool, string) {
	t = st.Resolve(t)
	if t.CallName() != "trie.CommitmentModel.CommitToData" {
		return false, "it is " + t.String()
	}
	x := st.Resolve(t.Args[len(t.Args)-1])
	var opt, eq int
	for _, c := range st.Conds() {
		v := -1
		if c.Pos {
			v = 1
		}
		switch {
		case selOf(c.Cond, "optimizeKeyCommitments"):
			opt = v
		case c.Cond.CallName() == "bytes.Equal":
			a, b := bytesOf(st, c.Cond.Args[0]), bytesOf(st, c.Cond.Args[1])
			if a == key && b == value || a == value && b == key {
				eq = v
			}
		}
	}
	if x == value {
		if opt < 0 || eq < 0 {
			return true, ""
		}
		return false, "the value is committed to although it may be the key of an optimized key commitment"
	}
	if x.CallName() == fnUnpack && (st.Resolve(x.Args[0]) == value || st.Resolve(x.Args[0]) == key) && f.isArity(st, x.Args[1]) {
		if opt > 0 && eq > 0 {
			return true, ""
		}
		return false, "the unpacked key is committed to although key commitments may not be optimized or the value may not be the key"
	}
	return false, "data committed to is " + x.String()
}

// isArity: the arity of the trie
func (f *Flow) isArity(st *State, t *Term) bool {
	t = st.Resolve(t)
	return selOf(t, "arity") || strings.HasSuffix(t.CallName(), ".PathArity")
}

func runC29(r *Report) {
	w := r.W
	fn := w.Must("trie", "Trie.Reconcile")
	const fnGet = "(*trie.Trie).GetNode"
	opaque := byName(fnProofPath, fnUnpack, fnGet, "(*trie.nodeStoreBuffered).getNode")
	transfer := func(p *Point) {
		trace(p)
		in, ok := p.Instr.(*ssa.Store)
		if !ok {
			return
		}
		v := p.T(in.Val)
		base, els := p.F.appended(p.St, v)
		a := p.T(in.Addr)
		if len(els) == 0 || a.Op != "alloc" {
			return
		}
		if holdsCell(p.St, base, a) {
			for _, e := range p.St.Events("reported") {
				p.St.AddEvent("twice", e.Args[0])
			}
			p.St.AddEvent("reported", append([]*Term{a}, els...)...)
		}
	}
	f := r.Flow(fn, FlowOpt{Transfer: transfer, Split: splitAll, NoInline: opaque})
	store := f.Param(1)
	endT, _ := w.constOf("trie", "EndingTerminal")
	nRet := 0
	cells := map[*Term]bool{}
	f.Visit(func(p *Point) {
		for _, e := range p.St.Events("reported") {
			cells[e.Args[0]] = true
		}
	}, nil)
	f.Visit(func(p *Point) {
		st, at := p.St, p.Where()
		if c, ok := p.Instr.(*ssa.Call); ok && !c.Call.IsInvoke() {
			if g := c.Common().StaticCallee(); g != nil && (fname(g) == fnGet || fname(g) == "(*trie.nodeStoreBuffered).getNode") && inCallback(p.Ctx) {
				if wk := walkOf(f, st); wk != nil {
					r.Check(st.LE(f.constInt(1, nil), f.mkLen(wk.P), 0), "walk-empty", "the last node of the walk", at, "the last element of the walk is taken although the walk may be empty")
				}
			}
		}
		ret, ok := p.Instr.(*ssa.Return)
		if !ok || !p.Ctx.IsCB {
			return
		}
		cb := p.Ctx
		call, ok := cb.Call.(ssa.CallInstruction)
		if !ok || !call.Common().IsInvoke() || call.Common().Method.Name() != "Iterate" || cb.Parent == nil || cb.Parent.Parent != nil {
			return
		}
		nRet++
		k, v := cb.Params[0], cb.Params[1]
		r.Check(len(ret.Results) == 1 && p.St.Eval(p.T(ret.Results[0])) == 1, "visits-all", "the callback asks for more", at, "the callback may stop the iteration")
		// the reasons
		wk := walkOf(f, st)
		okWalk, okNode, okEq := 0, 0, 0
		why := "the walk along the key was not made"
		if wk != nil {
			uk := wk.UK
			if uk.CallName() == fnUnpack && st.Resolve(uk.Args[0]) == k && f.isArity(st, uk.Args[1]) {
				e := f.constInt(endT, nil)
				switch {
				case st.EQ(wk.ending, e) && st.LE(f.constInt(1, nil), f.mkLen(wk.P), 0):
					okWalk = 1
				case st.NE(wk.ending, e) || st.EQ(f.mkLen(wk.P), f.constInt(0, nil)):
					okWalk = -1
				}
				why = "the walk along the key may not end at a terminal"
			} else {
				why = "the walk is made along " + uk.String()
			}
			for _, ev := range st.Events("call") {
				t := ev.Args[0]
				if !(t.CallName() == fnGet || strings.HasSuffix(t.CallName(), ".getNode")) || st.Resolve(t.Args[1]) != st.Resolve(wk.lastKey) {
					continue
				}
				n, found := f.intern("res", "0", nil, t), f.intern("res", "1", nil, t)
				okNode = st.Eval(found)
				if okWalk > 0 {
					why = "the last node of the walk may be missing"
				}
				for _, c := range st.Conds() {
					if c.Cond.CallName() != "trie.CommitmentModel.EqualCommitments" {
						continue
					}
					a, b := st.Resolve(c.Cond.Args[1]), st.Resolve(c.Cond.Args[2])
					for i := 0; i < 2; i++ {
						if isTerminalOf(st, b, n) {
							ok, w := f.valueCommitmentIs(st, a, k, v)
							if ok && c.Pos {
								okEq = 1
							} else if ok {
								okEq = -1
							} else if why == "the last node of the walk may be missing" {
								why = "the terminal is not compared with the commitment to the value: " + w
							}
						}
						a, b = b, a
					}
				}
			}
		}
		reported := st.Events("reported")
		if len(reported) == 0 {
			r.Check(okWalk > 0 && okNode > 0 && okEq > 0, "left-out", "keys left out are committed to", at, "a key is left out of the result although %s", why)
			return
		}
		r.Check(len(reported) == 1 && len(st.Events("twice")) == 0, "reported-once", "keys are reported once", at, "a key may be reported several times")
		for _, e := range reported {
			r.Check(len(e.Args) == 2 && (e.Args[1] == k || f.isCopyOf(st, e.Args[1], k)), "reported-key", "keys are reported as they are", at, "what is added to the result is %v and not the key", e.Args[1:])
		}
		r.Check(okWalk < 0 || okNode < 0 || okEq < 0, "reported", "reported keys are not committed to", at, "a key is reported although nothing is known to be wrong")
	}, func(e *Exit) {
		if e.Kind != "return" {
			r.Bad("never-fails", "Reconcile returns", e.P.Where(), "Reconcile may fail")
			return
		}
		st := e.P.St
		res := st.Resolve(e.Results[0])
		ok := false
		for c := range cells {
			ok = ok || holdsCell(st, res, c)
		}
		r.Check(ok, "result", "result of Reconcile", e.P.Where(), "the result is %s and not the list of the keys collected", res)
		n := 0
		for _, ev := range st.Events("call") {
			if t := ev.Args[0]; t.CallName() == "trie.KVIterator.Iterate" && st.Resolve(t.Args[0]) == store {
				n++
			}
		}
		r.Check(n == 1, "visits-all", "the store is iterated once", e.P.Where(), "the store is iterated %d times", n)
	})
	r.Check(nRet > 0, "visits-all", "the callback of the iteration", w.FuncPos(fn), "the callback given to Iterate was not found")
	// nothing but the collection changes the list
	f.Visit(func(p *Point) {
		in, ok := p.Instr.(*ssa.Store)
		if !ok {
			return
		}
		a := p.T(in.Addr)
		if !cells[a] {
			return
		}
		v := p.T(in.Val)
		base, els := f.appended(p.St, v)
		ok = len(els) > 0 && holdsCell(p.St, base, a) && inCallback(p.Ctx) || !inCallback(p.Ctx) && p.St.EQ(f.mkLen(v), f.constInt(0, nil)) && len(p.St.Events("call")) == 0
		r.Check(ok, "result", "keys collected are kept", p.Where(), "the list of keys is replaced by %s", v)
	}, nil)
	r.Min("left-out", 1)
	r.Min("reported", 1)
	// commitToValue of updates
	r.valueCommitmentRule()
}

// holdsCell: the value is what the cell holds
func holdsCell(st *State, v, cell *Term) bool {
	return v.Op == "ld" && v.Args[0] == cell || v == st.Resolve(st.f.mkLoad(cell, nil))
}

// isTerminalOf: the terminal of the node
func isTerminalOf(st *State, t, n *Term) bool {
	if strings.HasSuffix(t.CallName(), ".Terminal") && st.Resolve(t.Args[0]) == n {
		return true
	}
	return selOf(t, "Terminal") && t.Contains(n)
}

// valueCommitmentRule: Update commits to the value it is given
func (r *Report) valueCommitmentRule() {
	fn := r.W.Must("trie", "Trie.Update")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: func(g *ssa.Function) bool {
		return byName(fnProofPath, fnUnpack, fnReorg, fnGetNodeB, "(*trie.Trie).Delete")(g) || g.Signature.Recv() != nil && g.Name() != "commitToValue" && !commits(r.W, g)
	}})
	key, value := f.Param(1), f.Param(2)
	n := 0
	f.Visit(func(p *Point) {
		c, ok := p.Instr.(*ssa.Call)
		if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "CommitToData" {
			return
		}
		n++
		ok, why := f.valueCommitmentIs(p.St, f.term(p.Ctx, c), key, value)
		r.Check(ok, "value-commitment", "Update commits to the value", p.Where(), "%s", why)
	}, nil)
	r.Min("value-commitment", 1)
}
