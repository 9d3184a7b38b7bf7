package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C04"] = checkDef{run: runC04,
		explanation: "Data-flow analysis of GetProofGeneric (walk along the key; helpers inlined, the helper which calculates the common prefix analysed on its own) and of CommitmentModel.Proof: every return with an ending carries the facts this ending stands for; every iteration appends the key of the node passed and continues with the child at the next element of the key; the proof has one element per key of the path, made of the path fragment, terminal and all child commitments of that node except the one at the child index, the child index being the element of the key by which the path continues, or the position the ending stands for; arity and hash size are those of the trie and the model."}
}

func runC04(r *Report) {
	r.arityPositions()
	r.walkRules()
	r.b2ProofRules()
}

func (r *Report) b2ProofRules() {
	w := r.W
	fn := w.Must("b2", "CommitmentModel.Proof")
	gen, unpack := w.Must("trie", "GetProofGeneric"), w.Must("trie", "UnpackBytes")
	f := r.Flow(fn, FlowOpt{NoInline: noInline(gen, unpack), Transfer: growTrace, Split: splitAll})
	var G, ukey *Term
	f.Visit(func(p *Point) {
		c, ok := p.Instr.(*ssa.Call)
		if !ok {
			return
		}
		switch t := f.term(p.Ctx, c); t.CallName() {
		case "trie.GetProofGeneric":
			G = t
			ukey = p.St.Resolve(t.Args[1])
		}
	}, nil)
	if !r.Check(G != nil, "proof-generic", "the path is taken from GetProofGeneric", w.FuncPos(fn), "no call of GetProofGeneric") {
		return
	}
	tr := f.Param(2)
	isArity := func(t *Term) bool {
		t = stripConv(t)
		switch t.CallName() {
		case "trie.NodeStore.PathArity":
			return t.Args[0] == tr
		}
		return t.Op == "sel" && t.Name == "arity" && t.Args[0] == f.Param(0)
	}
	r.Check(ukey.CallName() == "trie.UnpackBytes" && ukey.Args[0] == f.Param(1) && isArity(ukey.Args[1]) && G.Args[0] == tr, "proof-key", "the path is looked up for the key asked for", w.FuncPos(fn), "the path is looked up for %s", ukey)
	gpath := f.mkSel(G, "Path", nil)
	gkey := f.mkSel(G, "Key", nil)
	isKey := func(t *Term) bool { return t == gkey || t == ukey }
	n := 0
	var P *Term
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		R := st.Resolve(e.Results[0])
		if R.IsNil() {
			r.Check(st.True(f.mkEq(G, f.constNil())), "proof-always", "a proof is returned for every key", at, "returns no proof")
			return
		}
		n++
		g := func(name string) *Term { return st.Resolve(f.mkSel(R, name, nil)) }
		r.Check(isArity(g("PathArity")), "proof-arity", "the proof names the arity of the trie", at, "the arity of the proof is %s", g("PathArity"))
		hs := stripConv(g("HashSize"))
		r.Check(hs.Op == "sel" && hs.Name == "hashSize", "proof-hash-size", "the proof names the hash size of the model", at, "the hash size of the proof is %s", hs)
		k := g("Key")
		okK := false
		for _, x := range []*Term{gkey, ukey} {
			okK = okK || f.isCopyOf(st, k, x)
		}
		r.Check(okK, "proof-key", "the proof carries the key", at, "the key of the proof is %s", k)
		if t := g("Path"); P == nil || P.Op == "makeslice" {
			P = t
		}
	})
	if !r.Check(n > 0 && P != nil, "proof-always", "a proof is returned", w.FuncPos(fn), "no return with a proof") {
		return
	}
	lenP := f.mkLen(gpath)
	// the loop over the path
	var L *Loop
	for _, l := range f.Loops() {
		if l.Kind == "index" && l.Covers(f, lenP) && l.Step == 1 {
			L = l
		}
	}
	if !r.Check(L != nil, "proof-path", "one element for each node of the path", w.FuncPos(fn), "no loop over the whole path") {
		return
	}
	for _, x := range L.Exits {
		r.Check(f.endsInPanic(x[1]), "proof-path", "one element for each node of the path", w.InstrPos(x[0].Instrs[len(x[0].Instrs)-1]), "the loop over the path may be left before its end")
	}
	if P.Op == "sel" || P.Op == "phi" {
		f.AtEntry(L, func(q *Point) {
			t := q.St.Resolve(P)
			if P.Op == "phi" {
				t = f.startOf(L, P)
			}
			r.Check(t != nil && (t.IsNil() || q.St.EQ(f.mkLen(q.St.Resolve(t)), f.constInt(0, nil))), "proof-path", "the path of the proof starts empty", q.Where(), "it starts from %s", t)
		})
	}
	i := L.Idx
	backs := 0
	f.AtBackEdges(L, func(q *Point) {
		st, at := q.St, q.Where()
		backs++
		// the element stored for this node
		var E *Term
		if P.Op == "makeslice" {
			for _, e := range st.Events("slot") {
				if e.Args[0] == P && e.Args[1] == i {
					E = st.Resolve(e.Args[2])
				}
			}
			r.Check(st.EQ(f.mkLen(P), lenP), "proof-path", "one element for each node of the path", at, "the proof has %s elements", f.mkLen(P))
		} else if P.Op == "sel" {
			for _, e := range st.Events("grow") {
				if e.Args[0] == P {
					E = st.Resolve(e.Args[1])
				}
			}
		} else if P.Op == "phi" {
			b, es := f.appended(st, f.nextOf(L, P, q))
			if b != nil && (b == P || b == st.Resolve(P)) && len(es) == 1 {
				E = es[0]
			}
		}
		if !r.Check(E != nil, "proof-element", "an element is stored for each node", at, "no element is stored at the position of the node") {
			return
		}
		g := func(name string) *Term { return st.Resolve(f.mkSel(E, name, nil)) }
		isNode := func(x *Term) bool {
			return x.Op == "res" && x.Name == "0" && x.Args[0].CallName() == "trie.NodeStore.GetNode" && x.Args[0].Args[0] == tr && x.Args[0].Args[1] == f.mkIdx(gpath, i, nil)
		}
		part := func(t *Term, method string) *Term {
			var r *Term
			t.Any(func(x *Term) bool {
				if x.CallName() == "trie.Node."+method && isNode(x.Args[0]) {
					r = x
				}
				return false
			})
			return r
		}
		pf := part(g("PathFragment"), "PathFragment")
		r.Check(pf != nil && f.carries(st, g("PathFragment"), pf), "proof-fragment", "the element carries the path fragment of the node", at, "the path fragment is %s", g("PathFragment"))
		// terminal
		var node *Term
		if pf != nil {
			node = pf.Args[0]
		}
		if node == nil {
			return
		}
		term := f.intern("call", "trie.Node.Terminal", nil, node)
		T := g("Terminal")
		tp := part(T, "Terminal")
		okT := tp != nil && f.carries(st, T, tp) || st.True(f.mkEq(term, f.constNil())) && (T.IsNil() || isZero(f.mkLen(T)))
		r.Check(okT, "proof-terminal", "the element carries the terminal of the node", at, "the terminal is %s", T)
		// children
		ci := g("ChildIndex")
		C := g("Children")
		coll := f.intern("call", "trie.Node.ChildCommitments", nil, node)
		okC, why := false, "no loop over the child commitments of the node"
		for _, l := range f.Loops() {
			if !(l.Kind == "map" && l.Coll == coll) {
				continue
			}
			okC = true
			if len(l.Exits) > 0 {
				for _, x := range l.Exits {
					if !f.endsInPanic(x[1]) {
						okC, why = false, "the loop over the child commitments may be left before its end"
					}
				}
			}
			f.AtBackEdges(l, func(b *Point) {
				ciB := b.St.Resolve(f.mkSel(E, "ChildIndex", nil))
				if !b.St.EQ(stripConv(l.Key), stripConv(ciB)) {
					for _, e := range b.St.Events("mapset") {
						if e.Args[0] == C && e.Args[1] == l.Key && f.carries(b.St, e.Args[2], l.Val) {
							return
						}
					}
					okC, why = false, "a child commitment is left out although it is not known to be the one on the path ("+b.Where()+")"
				}
			})
			// the commitment on the path is not given
			f.Visit(func(b *Point) {
				mu, isMU := b.Instr.(*ssa.MapUpdate)
				if isMU && b.T(mu.Map) == C && okC {
					ciB := stripConv(b.St.Resolve(f.mkSel(E, "ChildIndex", nil)))
					if !b.St.NE(stripConv(b.T(mu.Key)), ciB) && ciB.Op == "idx" {
						okC, why = false, "the child commitment on the path may be given as well ("+b.Where()+")"
					}
				}
			}, nil)
		}
		r.Check(okC, "proof-children", "the element carries all child commitments except the one on the path", at, "%s", why)
		// child index
		lastC := f.eq0(linAdd(linAdd(f.toLin(i), f.toLin(lenP), -1), &Lin{C: 1}, 1))
		last := st.Eval(lastC)
		if last == 0 && st.LE(lenP, i, 1) {
			last = 1
		}
		if !r.Check(last != 0, "proof-index-known", "the child index is chosen by the position in the path", at, "the child index %s does not depend on whether the node is the last one", ci) {
			return
		}
		if last == -1 {
			ok, why := f.nextElement(st, stripConv(ci), L, gpath, isKey, pf, q)
			r.Check(ok, "proof-index-inner", "the child index is the element of the key by which the path continues", at, "%s", why)
			return
		}
		end := f.mkSel(G, "Ending", nil)
		known := false
		for v, off := range map[int64]int64{0: 1, 1: 2, 2: 2} {
			if st.EQ(end, f.constInt(v, nil)) {
				known = true
				d := linAdd(f.toLin(ci), &Lin{C: -off}, 1)
				r.Check(isArity(f.fromLin(d, nil)), "proof-index-last", fmt.Sprintf("the child index of the last element stands for the ending %d", v), at, "the child index for the ending is %s", ci)
			}
		}
		r.Check(known || f.endingExcl(st, end, ci, isArity), "proof-index-ending", "the child index of the last element depends on the ending", at, "the child index is %s whatever the ending", ci)
	})
	r.Check(backs > 0, "proof-element", "an element is stored for each node", w.FuncPos(fn), "the loop has no iterations")
}

// growTrace records single elements appended to slices in fields, in addition to what trace records
func growTrace(p *Point) {
	trace(p)
	in, ok := p.Instr.(*ssa.Store)
	if !ok {
		return
	}
	f, st := p.F, p.St
	a := p.T(in.Addr)
	if a.Op != "fa" {
		return
	}
	loc := f.mkLoadNoFwd(a, in.Val.Type())
	n := 0
	for _, e := range st.Events("grow") {
		if e.Args[0] == loc {
			st.DelEvent(e)
			n++
		}
	}
	v := f.term(p.Ctx, in.Val)
	b, es := f.appended(st, v)
	if b == nil || len(es) != 1 || n > 0 || v.Args[0] != loc && st.Resolve(v.Args[0]) != st.Resolve(loc) {
		// anything else
		st.AddEvent("grow", loc, v)
		return
	}
	st.AddEvent("grow", loc, es[0])
}

// carries: v is made of all of part, possibly as a copy
func (f *Flow) carries(st *State, v, part *Term) bool {
	if f.represents(v, part) {
		return true
	}
	for _, e := range st.Events("copy") {
		if e.Args[0] == v && f.represents(e.Args[1], part) && st.EQ(f.mkLen(v), f.mkLen(e.Args[1])) {
			return true
		}
	}
	return false
}

// endingExcl: the ending is known only by exclusion
func (f *Flow) endingExcl(st *State, end, ci *Term, isArity func(*Term) bool) bool {
	d := f.toLin(ci)
	off := d.C
	if !isArity(f.fromLin(&Lin{M: d.M}, nil)) {
		return false
	}
	return off == 2 && st.NE(end, f.constInt(0, nil)) || off == 1 && st.NE(end, f.constInt(1, nil)) && st.NE(end, f.constInt(2, nil))
}

// nextElement: v is the element of the key by which the path continues from the node i
func (f *Flow) nextElement(st *State, v *Term, L *Loop, gpath *Term, isKey func(*Term) bool, pf *Term, q *Point) (bool, string) {
	if v.Op != "idx" {
		return false, fmt.Sprintf("the child index is %s", v)
	}
	src, pos := v.Args[0], v.Args[1]
	next := f.mkIdx(gpath, f.plus(L.Idx, 1), nil)
	cur := f.mkIdx(gpath, L.Idx, nil)
	node := pf.Args[0]
	nkey := f.intern("call", "trie.Node.Key", nil, node)
	if src == next {
		return st.EQ(pos, f.plus(f.mkLen(next), -1)) || st.EQ(pos, f.sum(f.mkLen(cur), f.mkLen(pf))), fmt.Sprintf("the child index is the element %s of the next key", pos)
	}
	if !isKey(src) {
		return false, fmt.Sprintf("the child index is taken from %s", src)
	}
	for _, k := range []*Term{cur, nkey} {
		if st.EQ(pos, f.sum(f.mkLen(k), f.mkLen(pf))) {
			return true, ""
		}
	}
	if st.EQ(pos, f.plus(f.mkLen(next), -1)) {
		return true, ""
	}
	// accumulated position
	for _, in := range L.Head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pt := f.term(L.Ctx, ph)
		off := f.subT(pos, pt)
		if off != f.mkLen(pf) {
			// position behind the previous element
			continue
		}
		s0 := f.startOf(L, pt)
		if s0 == nil || !isZero(s0) {
			return false, "the position in the key does not start from 0"
		}
		nx := f.nextOf(L, pt, q)
		if nx == nil || !st.EQ(nx, f.plus(f.sum(pt, f.mkLen(pf)), 1)) {
			return false, fmt.Sprintf("the position in the key advances to %s", nx)
		}
		return true, ""
	}
	return false, fmt.Sprintf("the position in the key is %s", pos)
}
