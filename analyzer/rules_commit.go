package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C03"] = checkDef{run: runC03,
		explanation: "Data-flow analysis of every place which builds the vector a node is committed by (trie, verifier of proofs, KZG commitment and KZG opening): the path fragment is written on all paths, the terminal unless it is known to be missing, each child in a loop over all children without exits; every store into the vector is one of these, at its own position; the vector covers all positions. HashTheVector copies each part whole into its own stretch of the buffer and hashes the whole buffer; data is committed raw only if it fits, otherwise the whole of it is hashed with the configured size; the KZG sum covers all elements, each with the basis element of its index.",
		assumptions: []string{"collision resistance of blake2b and hardness assumptions of KZG"}}
}

// hashOf: the term is the hash of the data with n bytes
func (f *Flow) hashOf(st *State, t *Term) (n int64, data *Term, ok bool) {
	c := st.Content(t)
	if c.Op == "ld" && c.Args[0].Op == "alloc" {
		c = c.Args[0]
	}
	if c.Op == "arr" || c.Op == "slice" {
		c = c.Args[0]
	}
	if c.CallName() == "golang.org/x/crypto/blake2b.Sum256" {
		return 32, st.Resolve(c.Args[0]), true
	}
	sum := c
	if c.Op == "alloc" || c.Op == "makeslice" {
		sum = nil
		for _, e := range st.Events("copy") {
			d := e.Args[0]
			for d.Op == "arr" || d.Op == "slice" {
				d = d.Args[0]
			}
			if d == c {
				if sum != nil {
					return 0, nil, false
				}
				sum = e.Args[1]
			}
		}
	}
	if sum == nil || sum.CallName() != "hash.Hash.Sum" {
		return 0, nil, false
	}
	h := sum.Args[0]
	if h.Op != "res" || h.Args[0].CallName() != "golang.org/x/crypto/blake2b.New" {
		return 0, nil, false
	}
	n, okn := h.Args[0].Args[0].Int()
	if !okn || !h.Args[0].Args[1].IsNil() || !sum.Args[1].IsNil() {
		return 0, nil, false
	}
	for _, e := range st.Events("call") {
		c := e.Args[0]
		if strings.HasSuffix(c.CallName(), ".Write") && len(c.Args) == 2 && c.Args[0] == h {
			if data != nil {
				return 0, nil, false
			}
			data = c.Args[1]
		}
	}
	return n, data, data != nil
}

// vecSpec describes the vector of a node
type vecSpec struct {
	name     string
	vec      *Term // makeslice or alloc of an array
	arity    *Term
	children *Term
	terminal *Term
	// tells whether the value represents the part
	isPF, isTerm func(st *State, idx, v *Term) bool
	isChild      func(st *State, idx, v, child *Term) bool
	// additional slot, may be nil
	ci *Term
}

// nodeVector checks the stores into the vector at the point of its use
func (r *Report) nodeVector(f *Flow, p *Point, s *vecSpec) {
	st, at := p.St, p.Where()
	tIdx, pIdx := f.plus(s.arity, 1), f.plus(s.arity, 2)
	c := func(what string) string { return what + " in the vector of " + s.name }
	if s.vec.Op == "makeslice" {
		r.Check(st.LE(f.plus(s.arity, 3), f.mkLen(s.vec), 0), "vector-length", c("all positions"), at, "the vector has length %s, expected at least %s", f.mkLen(s.vec), f.plus(s.arity, 3))
	}
	pf, term := false, st.True(f.mkEq(s.terminal, f.constNil())) || st.EQ(f.mkLen(s.terminal), f.constInt(0, nil))
	for _, e := range st.Events("slot") {
		if e.Args[0] != s.vec {
			continue
		}
		idx, v := e.Args[1], e.Args[2]
		if (idx == pIdx || st.EQ(idx, pIdx)) && s.isPF(st, idx, v) {
			pf = true
		}
		if (idx == tIdx || st.EQ(idx, tIdx)) && s.isTerm(st, idx, v) {
			term = true
		}
	}
	r.Check(pf, "slot-fragment", c("path fragment"), at, "the path fragment is not put at its position on all paths")
	r.Check(term, "slot-terminal", c("terminal"), at, "the terminal is not put at its position on all paths on which there is one")
	// children
	ok, why := false, "no loop over the child commitments"
	for _, l := range f.Loops() {
		var idx, child, present *Term
		switch {
		case l.Kind == "map" && l.Coll == s.children:
			idx, child = l.Key, l.Val
		case l.Kind == "index" && (l.Covers(f, f.plus(s.arity, 1)) || l.Covers(f, f.plus(s.arity, 3))):
			idx = l.Idx
			child = f.intern("lookup", "", nil, s.children, f.intern("conv", "byte", nil, idx))
			present = f.intern("lookupok", "", nil, s.children, f.intern("conv", "byte", nil, idx))
		default:
			continue
		}
		if !st.loopDone(f, l) {
			why = "the loop over the child commitments is not on all paths"
			continue
		}
		okL := true
		n := 0
		f.AtBackEdges(l, func(q *Point) {
			n++
			qs := q.St
			if qs.True(f.mkEq(child, f.constNil())) || present != nil && qs.False(present) || qs.EQ(f.mkLen(child), f.constInt(0, nil)) {
				return
			}
			for _, e := range qs.Events("slot") {
				if e.Args[0] == s.vec && stripConv(e.Args[1]) == stripConv(idx) && s.isChild(qs, e.Args[1], e.Args[2], child) {
					return
				}
			}
			okL = false
			why = fmt.Sprintf("a child commitment is not put at its position (end of the loop body at %s)", q.Where())
		})
		// other ways out of the loop
		for _, x := range l.Exits {
			if !f.endsInPanic(x[1]) {
				okL = false
				why = "the loop over the child commitments may be left before its end"
			}
		}
		if okL && n > 0 {
			ok = true
		}
	}
	r.Check(ok, "slot-children", c("child commitments"), at, "%s", why)
	// every store
	f.Visit(func(q *Point) {
		in, isStore := q.Instr.(*ssa.Store)
		if !isStore {
			return
		}
		a := q.T(in.Addr)
		if a.Op != "ia" || a.Args[0] != s.vec {
			return
		}
		idx, v := a.Args[1], q.T(in.Val)
		okS := q.St.EQ(idx, pIdx) || q.St.EQ(idx, tIdx) && !v.IsNil()
		if s.ci != nil && idx == s.ci {
			// must not overwrite another part
			okS = q.St.LE(idx, s.arity, 0)
		}
		for _, l := range f.Loops() {
			if l.Kind == "map" && l.Coll == s.children && stripConv(idx) == stripConv(l.Key) || l.Kind == "index" && l.InBody(q) && stripConv(idx) == stripConv(l.Idx) {
				okS = true
			}
		}
		r.Check(okS, "slot-own", c(fmt.Sprintf("store at position %s", descIdx(idx))), q.Where(), "store into the vector at %s, which is not the position of one part of the node", idx)
	}, nil)
}

func descIdx(t *Term) string {
	t = stripConv(t)
	switch t.Op {
	case "rkey":
		return "of a child"
	case "phi":
		return "of the loop"
	}
	return t.String()
}

func stripConv(t *Term) *Term {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

// endsInPanic: all paths from the block end in a panic
func (f *Flow) endsInPanic(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if len(b.Succs) == 0 {
			_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
			return ok
		}
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(b)
}

// baseOf strips slicing of a vector as a whole
func (f *Flow) baseOf(st *State, t *Term) *Term {
	t = st.Resolve(t)
	for t.Op == "arr" || t.Op == "slice" || t.Op == "ld" {
		if t.Op == "slice" {
			if lo, ok := t.Args[1].Int(); !ok || lo != 0 || t.Args[2] != f.mkLen(t.Args[0]) {
				return t
			}
		}
		t = st.Resolve(t.Args[0])
	}
	return t
}

// represents: v is made of the part and of nothing else, and not of a piece of it
func (f *Flow) represents(v, part *Term) bool {
	return mentions(v, part) && !f.cuts(v, part)
}

func (r *Report) b2VecSpec(f *Flow, st *State, name string, h *Term) (*vecSpec, string) {
	s := &vecSpec{name: name, vec: f.baseOf(st, h.Args[0]), arity: st.Resolve(h.Args[1])}
	var X *Term
	for _, e := range st.Events("slot") {
		if v := e.Args[2]; e.Args[0] == s.vec && v.CallName() == "trie_blake2b.CommitToDataRaw" && v.Args[0].Op == "sel" && v.Args[0].Name == "PathFragment" {
			X = v.Args[0].Args[0]
		}
	}
	if X == nil {
		return nil, "no commitment to the path fragment of a node in the vector on all paths"
	}
	pf := f.mkSel(X, "PathFragment", nil)
	s.terminal = f.mkSel(X, "Terminal", nil)
	s.children = f.mkSel(X, "ChildCommitments", nil)
	for _, l := range f.Loops() {
		if l.Coll != nil && l.Coll == f.mkSel(X, "Children", nil) {
			s.children = l.Coll
			s.ci = f.mkSel(X, "ChildIndex", nil)
		}
	}
	if s.ci == nil {
		// verification without a map loop
		for _, e := range st.Events("slot") {
			if mentions(e.Args[1], f.mkSel(X, "ChildIndex", nil)) {
				s.ci, s.children = f.mkSel(X, "ChildIndex", nil), f.mkSel(X, "Children", nil)
			}
		}
	}
	hs := st.Resolve(h.Args[2])
	s.isPF = func(st *State, idx, v *Term) bool {
		return v.CallName() == "trie_blake2b.CommitToDataRaw" && v.Args[0] == pf && v.Args[1] == hs
	}
	s.isTerm = func(st *State, idx, v *Term) bool { return f.represents(v, s.terminal) }
	s.isChild = func(st *State, idx, v, child *Term) bool { return f.represents(v, child) }
	return s, ""
}

// the vector of b2 built in the function
func (r *Report) b2Vector(name string, fn *ssa.Function, min int) {
	w := r.W
	opaque := noInline(append(r.b2Opaque(), w.Must("trie", "MustBytes"))...)
	f := r.Flow(fn, FlowOpt{NoInline: func(g *ssa.Function) bool { return g != fn && opaque(g) }, Transfer: trace, Split: splitAll})
	n := 0
	f.VisitCalls(func(name string, c *ssa.CallCommon) bool { return name == "trie_blake2b.HashTheVector" }, func(p *Point, in ssa.CallInstruction, h *Term) {
		n++
		s, why := r.b2VecSpec(f, p.St, name, h)
		if r.Check(s != nil, "slot-fragment", "path fragment in the vector of "+name, p.Where(), "%s", why) {
			r.nodeVector(f, p, s)
		}
	})
	r.Check(n >= min, "vectors", name, w.FuncPos(fn), "no node vector is hashed here")
}

func runC03(r *Report) {
	r.arityPositions()
	w := r.W
	r.b2Vector("the trie (calculation)", w.Must("b2", "CommitmentModel.CalcNodeCommitment"), 1)
	r.b2Vector("the trie (update)", w.Must("b2", "CommitmentModel.UpdateNodeCommitment"), 1)
	r.b2Vector("the last element of a proof", w.Must("verify", "CommitmentToTheTerminalNode"), 1)
	for _, v := range w.recursive(w.Must("verify", "Validate")) {
		r.b2Vector("the verifier", v, 1)
	}
	r.b2Layout()
	r.b2Data()
	r.kzgVector("the KZG commitment", w.Must("kzg", "CommitmentModel.CalcNodeCommitment"), "commit", 1)
	r.kzgVector("the KZG proof (commitment)", w.Must("kzg", "CommitmentModel.ProofOfInclusion"), "commit", 1)
	r.kzgVector("the KZG proof (opening)", w.Must("kzg", "CommitmentModel.ProofOfInclusion"), "prove", 1)
	r.kzgCommit()
	r.kzgData()
}

// scalarOf: the scalar v (also known as the element idx of vec) is set to the hash of something: returns what is hashed
func (f *Flow) scalarOf(st *State, v *Term, aliases ...*Term) *Term {
	same := func(x *Term) bool {
		if x == v {
			return true
		}
		for _, a := range aliases {
			if a != nil && x == a {
				return true
			}
		}
		return false
	}
	for _, e := range st.Events("call") {
		c := e.Args[0]
		if c.CallName() == "kyber.Scalar.SetBytes" && len(c.Args) == 2 && (same(c.Args[0]) || c == v) {
			if n, d, ok := f.hashOf(st, c.Args[1]); ok && n == 32 {
				// once more hashed
				if n2, d2, ok2 := f.hashOf(st, d); ok2 && n2 == 32 {
					return d2
				}
				return d
			}
		}
	}
	return nil
}

func (r *Report) kzgVector(name string, fn *ssa.Function, use string, min int) {
	w := r.W
	commit, prove := w.Must("kzg", "TrustedSetup.commit"), w.Must("kzg", "TrustedSetup.prove")
	f := r.Flow(fn, FlowOpt{NoInline: noInline(commit, prove, w.Must("trie", "GetProofGeneric")), Transfer: trace, Split: splitAll})
	n := 0
	f.VisitCalls(func(_ string, c *ssa.CallCommon) bool {
		g := c.StaticCallee()
		return g == commit && use == "commit" || g == prove && use == "prove"
	}, func(p *Point, in ssa.CallInstruction, h *Term) {
		n++
		st := p.St
		s := &vecSpec{name: name, vec: f.baseOf(st, h.Args[1]), arity: f.constInt(255, nil)}
		var X *Term
		isPF := func(st *State, idx, v *Term) *Term {
			d := f.scalarOf(st, v, f.mkIdx(s.vec, idx, nil))
			if d == nil {
				return nil
			}
			if d.Op == "sel" && d.Name == "PathFragment" {
				return d.Args[0]
			}
			if d.CallName() == "trie.Node.PathFragment" {
				return d
			}
			return nil
		}
		for _, e := range st.Events("slot") {
			if e.Args[0] == s.vec {
				if x := isPF(st, e.Args[1], e.Args[2]); x != nil {
					X = x
				}
			}
		}
		if !r.Check(X != nil, "slot-fragment", "path fragment in the vector of "+name, p.Where(), "no hash of the path fragment of a node in the vector on all paths") {
			return
		}
		if X.CallName() == "trie.Node.PathFragment" {
			s.terminal = f.intern("call", "trie.Node.Terminal", nil, X.Args...)
			s.children = f.intern("call", "trie.Node.ChildCommitments", nil, X.Args...)
		} else {
			s.terminal = st.Resolve(f.mkSel(X, "Terminal", nil))
			s.children = st.Resolve(f.mkSel(X, "ChildCommitments", nil))
		}
		s.isPF = func(st *State, idx, v *Term) bool { return isPF(st, idx, v) != nil }
		s.isTerm = func(st *State, idx, v *Term) bool { return f.represents(v, s.terminal) }
		s.isChild = func(st *State, idx, v, child *Term) bool {
			if d := f.scalarOf(st, v, f.mkIdx(s.vec, idx, nil)); d != nil {
				return f.represents(d, child)
			}
			// the hash of a missing point is no hash
			for _, a := range st.Conds() {
				if c := a.Cond; a.Pos && c.Op == "eq" && (c.Args[0].IsNil() && mentions(c.Args[1], child) || c.Args[1].IsNil() && mentions(c.Args[0], child)) {
					return true
				}
			}
			return false
		}
		r.nodeVector(f, p, s)
	})
	r.Check(n >= min, "vectors", name, w.FuncPos(fn), "no node vector is used here")
}

// kzgCommit: the commitment is the sum over all elements of the vector, each with the basis element of its index
func (r *Report) kzgCommit() {
	fn := r.W.Must("kzg", "TrustedSetup.commit")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll})
	sd, vect := f.Param(0), f.Param(1)
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		n++
		res := e.Results[0]
		ok, why := false, "no loop over all elements of the vector"
		for _, l := range f.Loops() {
			if l.Kind != "index" || !l.Covers(f, f.mkLen(vect)) && !l.Covers(f, f.mkLen(f.mkSel(sd, "LagrangeBasis", nil))) || len(l.Exits) > 0 || !e.P.St.loopDone(f, l) {
				continue
			}
			ok = true
			v := f.mkIdx(vect, l.Idx, nil)
			b := f.mkIdx(f.mkSel(sd, "LagrangeBasis", nil), l.Idx, nil)
			f.AtBackEdges(l, func(q *Point) {
				if q.St.True(f.mkEq(v, f.constNil())) {
					return
				}
				added := false
				for _, m := range q.St.Events("call") {
					mc := m.Args[0]
					if mc.CallName() != "kyber.Point.Mul" || mc.Args[1] != v || mc.Args[2] != b {
						continue
					}
					for _, a := range q.St.Events("call") {
						ac := a.Args[0]
						if ac.CallName() == "kyber.Point.Add" && sumInto(f, ac, res) && (ac.Args[1] == mc.Args[0] || ac.Args[2] == mc.Args[0] || ac.Args[1] == mc || ac.Args[2] == mc) {
							added = true
						}
					}
				}
				if !added {
					ok, why = false, "an element is not added with the basis element of its index ("+q.Where()+")"
				}
			})
			if ok {
				break
			}
		}
		r.Check(ok, "kzg-sum", "commit covers all elements of the vector", e.P.Where(), "%s", why)
	})
	r.Check(n > 0, "kzg-sum", "commit", r.W.FuncPos(fn), "no return")
}

// sumInto: the sum is accumulated in the result
func sumInto(f *Flow, add, res *Term) bool {
	if add.Args[0] == res || add == res {
		return true
	}
	if res.Op == "phi" {
		for _, e := range f.PhiEdges(res) {
			if e == add || e == add.Args[0] {
				return true
			}
		}
	}
	return false
}

// kzgData: the whole of the data is hashed into the terminal
func (r *Report) kzgData() {
	fn := r.W.Must("kzg", "CommitmentModel.CommitToData")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll})
	data := f.Param(1)
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" || e.Results[0].IsNil() {
			return
		}
		n++
		st := e.P.St
		res := e.Results[0]
		for res.Op == "iface" || res.Op == "conv" {
			res = res.Args[0]
		}
		s := st.Resolve(f.mkSel(res, "Scalar", nil))
		d := f.scalarOf(st, s, f.mkSel(res, "Scalar", nil))
		r.Check(d == data, "data-whole", "KZG commits to a hash of the whole data", e.P.Where(), "the terminal commitment is not set to a hash of the data")
	})
	r.Check(n > 0, "data-kinds", "CommitToData of KZG", r.W.FuncPos(fn), "no commitment")
}

// b2Layout: each part of the vector is copied whole into its own stretch of the buffer which is hashed as a whole
func (r *Report) b2Layout() {
	fn := r.W.Must("b2", "HashTheVector")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll})
	hashes, sz := f.Param(0), f.Param(2)
	n := 0
	var buf *Term
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		n++
		st, at := e.P.St, e.P.Where()
		hn, data, ok := f.hashOf(st, e.Results[0])
		if !r.Check(ok, "hash-whole", "HashTheVector hashes the buffer", at, "the result %s is not the hash of one buffer", e.Results[0]) {
			return
		}
		r.Check(st.EQ(sz, f.constInt(hn, nil)), "hash-size", "HashTheVector hashes with the configured size", at, "a hash of %d bytes is used without knowing that it is the configured size", hn)
		b := f.baseOf(st, data)
		r.Check(b.Op == "makeslice" || b.Op == "alloc", "hash-whole", "HashTheVector hashes the whole buffer", at, "hashes %s", data)
		buf = b
		okL, why := false, "no loop over all elements of the vector"
		for _, l := range f.Loops() {
			if l.Kind != "index" || !l.Covers(f, f.mkLen(hashes)) && !l.Covers(f, f.plus(f.Param(1), 3)) {
				continue
			}
			if !st.loopDone(f, l) || len(l.Exits) > 0 {
				why = "the loop over the vector is not complete"
				continue
			}
			h := f.mkIdx(hashes, l.Idx, nil)
			okL = true
			f.AtBackEdges(l, func(q *Point) {
				qs := q.St
				if qs.True(f.mkEq(h, f.constNil())) || qs.EQ(f.mkLen(h), f.constInt(0, nil)) {
					return
				}
				done := false
				for _, c := range qs.Events("copy") {
					if c.Args[1] != h {
						continue
					}
					why = fmt.Sprintf("an element is copied to %s", c.Args[0])
					d := c.Args[0]
					var lo, hi *Term
					if d.Op == "slice" {
						lo, hi = d.Args[1], d.Args[2]
						if d.Args[0] != buf {
							continue
						}
					} else {
						continue
					}
					stride, okS := f.strideOf(lo, l)
					if !okS {
						why = fmt.Sprintf("the position %s of an element in the buffer is not a multiple of its index", lo)
						continue
					}
					if !qs.LE(f.plus(sz, 0), stride, 0) {
						why = fmt.Sprintf("the stride %s is smaller than a commitment", stride)
						continue
					}
					room := f.subT(f.distribute(hi), f.distribute(lo))
					if hi != f.mkLen(buf) && !qs.LE(sz, room, 0) {
						why = fmt.Sprintf("only %s bytes of an element are copied", room)
						continue
					}
					if hi != f.mkLen(buf) && !qs.LE(room, stride, 0) {
						why = "stretches of elements overlap"
						continue
					}
					done = true
				}
				if !done {
					okL = false
				}
			})
			if okL {
				break
			}
		}
		r.Check(okL, "layout", "each element of the vector has its own stretch of the hashed buffer", at, "%s", why)
		if ms, isMS := b.V.(*ssa.MakeSlice); isMS {
			l := f.term(b.Ctx, ms.Len)
			r.Check(mentions(l, f.Param(1)) || mentions(l, hashes), "layout-length", "the buffer covers the vector of the arity", at, "the length of the buffer is %s", l)
		}
	})
	r.Check(n > 0, "hash-whole", "HashTheVector", r.W.FuncPos(fn), "no return")
	// variable length of elements is not recorded
	recorded := false
	f.Visit(func(p *Point) {
		if in, ok := p.Instr.(*ssa.Store); ok {
			a := p.T(in.Addr)
			if a.Op == "ia" && a.Args[0] == buf && p.T(in.Val).Any(func(x *Term) bool { return x.Op == "len" }) {
				recorded = true
			}
		}
	}, nil)
	r.Check(recorded, "layout-injective", "elements of different length do not collide in the hashed buffer", r.W.FuncPos(fn), "elements shorter than their stretch are padded with zeros without recording their length")
}

// strideOf: t is idx*stride for the index of the loop
func (f *Flow) strideOf(t *Term, l *Loop) (*Term, bool) {
	t, idx := stripConv(t), stripConv(l.Idx)
	// a variable which starts from 0 and grows by the stride in each iteration
	for _, in := range l.Head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if f.term(l.Ctx, ph) != t || l.Step != 1 {
			continue
		}
		var stride *Term
		for i, e := range ph.Edges {
			et := f.term(l.Ctx, e)
			if !l.Blocks[l.Head.Preds[i]] {
				if z, isC := et.Int(); !isC || z != 0 {
					return nil, false
				}
				continue
			}
			d := f.subT(et, t)
			if stride != nil && stride != d || d.Any(func(x *Term) bool { return x == t || x.Op == "phi" }) {
				return nil, false
			}
			stride = d
		}
		return stride, stride != nil
	}
	if t.Op == "bin" && t.Name == "*" {
		for i := 0; i < 2; i++ {
			if stripConv(t.Args[i]) == idx {
				return t.Args[1-i], true
			}
		}
	}
	if k := coefOf(f.toLin(t), idx); k > 1 && len(f.toLin(t).M) == 1 && f.toLin(t).C == 0 {
		return f.constInt(k, nil), true
	}
	return nil, false
}

// b2Data: data is committed as a whole
func (r *Report) b2Data() {
	fn := r.W.Must("b2", "CommitToDataRaw")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll})
	data, sz := f.Param(0), f.Param(1)
	raw, hashed := 0, 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		res := e.Results[0]
		if n, d, ok := f.hashOf(st, res); ok {
			hashed++
			r.Check(d == data, "data-whole", "the whole of long data is hashed", at, "hashes %s", d)
			r.Check(st.EQ(sz, f.constInt(n, nil)), "data-size", "data is hashed with the configured size", at, "a hash of %d bytes is used without knowing that it is the configured size", n)
			return
		}
		raw++
		ok := f.isCopyOf(st, res, data)
		r.Check(ok, "data-whole", "short data is committed as a whole", at, "the commitment %s is neither a copy of the data nor its hash", res)
		r.Check(st.LE(f.mkLen(data), sz, 0), "data-fits", "data is committed raw only if it fits into its slot", at, "nothing bounds the length of the data by the hash size")
		r.Check(st.LE(f.mkLen(data), sz, -1), "data-separated", "raw data and hashes of data do not collide", at, "raw data of the length of the hash is not distinguished from the hash of other data")
	})
	r.Check(raw > 0 && hashed > 0, "data-kinds", "CommitToDataRaw", r.W.FuncPos(fn), "found %d returns of raw data and %d of hashes", raw, hashed)
}

// isCopyOf: x has the same content as y
func (f *Flow) isCopyOf(st *State, x, y *Term) bool {
	x, y = st.Resolve(x), st.Resolve(y)
	if x == y {
		return true
	}
	if st.EQ(f.mkLen(y), f.constInt(0, nil)) && (x.IsNil() || st.EQ(f.mkLen(x), f.constInt(0, nil))) {
		return true
	}
	if x.Op == "append" && len(x.Args) == 2 && x.Args[1] == y {
		b := x.Args[0]
		return b.IsNil() || st.EQ(f.mkLen(b), f.constInt(0, nil))
	}
	if x.Op == "makeslice" || x.Op == "alloc" || x.Op == "slice" || x.Op == "arr" {
		for _, e := range st.Events("copy") {
			if e.Args[0] == x && e.Args[1] == y && st.EQ(f.mkLen(x), f.mkLen(y)) {
				return true
			}
		}
	}
	switch x.CallName() {
	case "bytes.Clone", "slices.Clone":
		return x.Args[0] == y
	}
	return false
}

// distribute expands products of sums
func (f *Flow) distribute(t *Term) *Term {
	r := &Lin{}
	l := f.toLin(t)
	r.C = l.C
	for _, it := range l.M {
		x := it.T
		e := &Lin{}
		if x.Op == "bin" && x.Name == "*" && len(x.Args) == 2 {
			a, b := f.toLin(x.Args[0]), f.toLin(x.Args[1])
			if len(a.M) <= 3 && len(b.M) <= 3 {
				e.C = a.C * b.C
				for _, m := range a.M {
					e = linAdd(e, linScale(f.toLin(m.T), m.K*b.C), 1)
					for _, n := range b.M {
						e = linAdd(e, linScale(f.toLin(f.mkBin(token.MUL, m.T, n.T, x.T, x.T)), m.K*n.K), 1)
					}
				}
				for _, n := range b.M {
					e = linAdd(e, linScale(f.toLin(n.T), n.K*a.C), 1)
				}
				r = linAdd(r, e, it.K)
				continue
			}
		}
		r = linAdd(r, linScale(f.toLin(x), it.K), 1)
	}
	return f.fromLin(r, t.T)
}
