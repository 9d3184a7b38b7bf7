package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkDef{run: runC01,
		explanation: "Inter-procedural data-flow analysis (SSA, all module callees inlined) of trie_blake2b_verify.Validate and of its recursive step: at every accepting return the facts established by the branches taken on all paths into it are compared with the step condition of a proof: same element hashed and checked, bounded terminal, prefix of the key, child index equal to the key byte, no commitment at that index, next call on the next element with exactly the rest of the key, and for the last element the condition its ending stands for. The initial call starts at element 0 with the whole key and its result is compared with the root.",
		assumptions: []string{"collision resistance of blake2b; the binding of element parts by the hash is property C03"}}
	checks["C02"] = checkDef{run: runC02,
		explanation: "Data-flow analysis of MustKeyWithTerminal, IsProofOfAbsence and ValidateWithValue: at every return the facts on all paths into it must entail that the verdict is the one the last element stands for (present iff the ending is the terminal and the terminal is not empty), and at the accepting return of ValidateWithValue that the proof is valid, present, and its terminal equals the commitment to the value under the hash size of the proof."}
}

func (r *Report) b2Opaque() []*ssa.Function {
	return []*ssa.Function{r.W.Must("b2", "HashTheVector"), r.W.Must("b2", "CommitToDataRaw")}
}

// slotTransfer records the stores into vectors
func slotTransfer(p *Point) {
	switch in := p.Instr.(type) {
	case *ssa.Store:
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
			x := p.T(ia.X)
			if x.Op == "makeslice" || x.Op == "alloc" || x.Op == "param" {
				p.St.AddEvent("slot", x, p.T(ia.Index), p.T(in.Val))
			}
		}
	}
}

// proofElem describes the element the hash of which is calculated
type proofElem struct {
	vec     *Term
	E       *Term // the element
	proof   *Term
	i       *Term // index in the path
	missing *Term // value put at the child index of the element, nil if none
}

func (f *Flow) elemOfHash(st *State, h *Term) (*proofElem, string) {
	h = st.Resolve(h)
	if h.CallName() != "trie_blake2b.HashTheVector" {
		return nil, fmt.Sprintf("the result %s is not the hash of a vector", h)
	}
	pe := &proofElem{vec: st.Resolve(h.Args[0])}
	slots := st.Events("slot")
	for _, s := range slots {
		if s.Args[0] == pe.vec && s.Args[2].CallName() == "trie_blake2b.CommitToDataRaw" {
			if d := s.Args[2].Args[0]; d.Op == "sel" && d.Name == "PathFragment" {
				pe.E = d.Args[0]
			}
		}
	}
	if pe.E == nil {
		return nil, "the path fragment of no element is in the hashed vector on all paths"
	}
	E := pe.E
	if E.Op == "idx" && E.Args[0].Op == "sel" && E.Args[0].Name == "Path" {
		pe.proof, pe.i = E.Args[0].Args[0], E.Args[1]
	} else if E.Op == "idx" {
		pe.proof, pe.i = E.Args[0], E.Args[1]
	} else {
		return nil, fmt.Sprintf("the hashed element %s is not an element of the proof path", E)
	}
	ci := f.mkSel(E, "ChildIndex", nil)
	for _, s := range slots {
		if s.Args[0] == pe.vec && s.Args[1] == ci {
			pe.missing = s.Args[2]
		}
	}
	if len(h.Args) == 3 {
		if a := st.Resolve(h.Args[1]); !(a.Op == "sel" && a.Name == "PathArity") && a.Op != "param" {
			return nil, fmt.Sprintf("the arity of the hashed vector is %s", a)
		}
		if a := st.Resolve(h.Args[2]); !(a.Op == "sel" && a.Name == "HashSize") && a.Op != "param" {
			return nil, fmt.Sprintf("the hash size of the hashed vector is %s", a)
		}
	}
	return pe, ""
}

// keyTail finds the rest of the key the path fragment of the element is compared with: the base, its offset, and the
// truth of the prefix condition
func (f *Flow) keyTails(st *State, pf *Term) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	add := func(x *Term) {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	for _, a := range st.Conds() {
		c := a.Cond
		if c.CallName() == "bytes.HasPrefix" && c.Args[1] == pf {
			add(c.Args[0])
		}
		if c.CallName() == "bytes.Equal" {
			if c.Args[0] == pf {
				add(c.Args[1])
			} else if c.Args[1] == pf {
				add(c.Args[0])
			}
		}
	}
	// lengths compared
	n := f.mkLen(pf)
	for _, a := range st.Conds() {
		if c := a.Cond; (c.Op == "le0" || c.Op == "eq0") && c.Contains(n) {
			c.Any(func(x *Term) bool {
				if x.Op == "len" && x != n && (x.Args[0].Op == "slice" || x.Args[0].Op == "sel") {
					add(x.Args[0])
				}
				return false
			})
			if l := c.Args[0].Lin; l != nil {
				// the length of a slice of the key
				for _, it := range l.M {
					if x := it.T; x.Op == "len" && x != n && selOf(x.Args[0], "Key") {
						for _, o := range l.M {
							if o.T.Op == "param" {
								add(f.mkSlice(x.Args[0], o.T, nil, x.Args[0].T))
							}
						}
					}
				}
			}
		}
	}
	// equality with a slice of the key of the length of the path fragment: the tail is the whole rest
	for i, x := range r {
		if x.Op == "slice" && x.Args[2] != f.mkLen(x.Args[0]) {
			if f.subT(x.Args[2], x.Args[1]) == f.mkLen(pf) {
				r[i] = f.mkSlice(x.Args[0], x.Args[1], nil, x.T)
			}
		}
	}
	return r
}

// isPrefixOf: 1 the path fragment is known to be a prefix of the tail, -1 it is known not to be
func (f *Flow) prefixTruth(st *State, tail, pf *Term) int {
	if st.True(f.bytesEq(tail, pf)) {
		return 1
	}
	if v := st.Eval(f.hasPrefix(tail, pf)); v != 0 {
		return v
	}
	if st.LE(f.mkLen(tail), f.mkLen(pf), -1) {
		return -1
	}
	// tail[:len(pf)] == pf
	sl := f.mkSlice(tail, f.constInt(0, nil), f.mkLen(pf), tail.T)
	return st.Eval(f.bytesEq(sl, pf))
}

func runC01(r *Report) {
	r.arityPositions()
	w := r.W
	validate := w.Must("verify", "Validate")
	rec := w.recursive(validate)
	if len(rec) > 1 {
		// helpers of the recursive function are inlined
		isRec := map[*ssa.Function]bool{}
		for _, g := range rec {
			isRec[g] = true
		}
		entered := map[*ssa.Function]bool{}
		for g := range w.reachable(validate) {
			if isRec[g] {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && isRec[c.Common().StaticCallee()] {
						entered[c.Common().StaticCallee()] = true
					}
				}
			}
		}
		if len(entered) == 1 {
			for g := range entered {
				rec = []*ssa.Function{g}
			}
		}
	}
	if !r.Check(len(rec) == 1, "recursive-step", "Validate", w.FuncPos(validate), "expected one recursive function which walks the path, found %d", len(rec)) {
		return
	}
	V := rec[0]
	opaque := noInline(append(r.b2Opaque(), V)...)
	split := func(c *Term) bool {
		switch c.CallName() {
		case "bytes.HasPrefix", "bytes.Equal":
			return true
		}
		if c.Op == "eq0" || c.Op == "le0" {
			// comparisons with the index of the child tell the endings apart
			return c.Any(func(x *Term) bool { return x.Op == "sel" && x.Name == "ChildIndex" })
		}
		return false
	}
	f := r.Flow(V, FlowOpt{NoInline: func(fn *ssa.Function) bool { return fn != V && opaque(fn) }, Transfer: slotTransfer, Split: split})
	ei := errIndex(V.Signature)
	accepts := 0
	kinds := map[string]int{}
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" || ei < 0 {
			return
		}
		st := e.P.St
		if st.nonNilIn(e.Results[ei]) {
			return
		}
		at := e.P.Where()
		accepts++
		h := st.Resolve(e.Results[1-ei])
		pe, why := f.elemOfHash(st, h)
		if !r.Check(pe != nil, "accept-hash", "accepting return hashes an element of the path", at, "%s", why) {
			return
		}
		E := pe.E
		pf := f.mkSel(E, "PathFragment", nil)
		ci := f.mkSel(E, "ChildIndex", nil)
		term := f.mkSel(E, "Terminal", nil)
		children := f.mkSel(E, "Children", nil)
		arity := f.mkSel(pe.proof, "PathArity", nil)
		hs := f.mkSel(pe.proof, "HashSize", nil)
		path := f.mkSel(pe.proof, "Path", nil)
		if ha := st.Resolve(h.Args[1]); ha.Op == "param" {
			arity = ha
		}
		if hh := st.Resolve(h.Args[2]); hh.Op == "param" {
			hs = hh
		}
		r.Check(st.Resolve(h.Args[1]) == arity && st.Resolve(h.Args[2]) == hs, "accept-dimensions", "hash under the arity and hash size of the proof", at, "hashed under arity %s and size %s", h.Args[1], h.Args[2])
		r.Check(st.LE(f.mkLen(term), hs, 0), "accept-terminal-bound", "terminal fits its slot", at, "nothing on the path bounds the length of the terminal by the hash size: bytes beyond it are not bound by the hash")
		child8 := f.intern("conv", "byte", nil, ci)
		// is it the last element
		lastC := f.eq0(linAdd(linAdd(f.toLin(pe.i), f.toLin(f.mkLen(path)), -1), &Lin{C: 1}, 1))
		last := st.Eval(lastC)
		if last == 0 && st.LE(f.mkLen(path), pe.i, 1) {
			last = 1
		}
		if !r.Check(last != 0, "accept-last-known", "position in the path is known", at, "accepts without knowing whether the element is the last one") {
			return
		}
		isChild := 0
		if st.LE(ci, arity, 0) {
			isChild = 1
		} else if st.LE(arity, ci, -1) {
			isChild = -1
		}
		noChildAt := func(idx *Term) bool {
			if st.False(f.intern("lookupok", "", nil, children, idx)) {
				return true
			}
			lk := f.intern("lookup", "", nil, children, idx)
			return st.True(f.mkEq(lk, f.constNil())) || st.EQ(f.mkLen(lk), f.constInt(0, nil))
		}
		tails := f.keyTails(st, pf)
		if last == -1 {
			kinds["inner"]++
			r.Check(isChild == 1, "inner-child-index", "inner element continues through a child", at, "the child index of an inner element is not checked to be a child index")
			r.Check(noChildAt(child8) || noChildAt(ci), "inner-no-own-commitment", "inner element has no commitment of its own at the child index", at, "a commitment given in the element at its child index is not excluded")
			ok, okIdx := false, false
			var next *Term
			for _, x := range tails {
				if f.prefixTruth(st, x, pf) != 1 {
					continue
				}
				ok = true
				// byte which follows
				kb := f.mkIdx(x, f.mkLen(pf), nil)
				if st.EQ(kb, ci) || st.EQ(kb, child8) && isChild == 1 {
					okIdx = true
					next = x
				}
			}
			r.Check(ok, "inner-prefix", "path fragment of an inner element is a prefix of the rest of the key", at, "no check that the path fragment matches the key on the way to the accepting return")
			r.Check(okIdx, "inner-follows-key", "child index of an inner element is the next element of the key", at, "no check that the child index equals the element of the key after the path fragment")
			// recursive call
			m := pe.missing
			okRec, okErr := false, false
			why := "the commitment put at the child index is not the result of verifying the next element"
			if m != nil && m.Op == "res" && m.Args[0].CallName() == fname(V) {
				call := m.Args[0]
				sub := map[*Term]*Term{}
				for i, p := range V.Params {
					_ = p
					sub[f.Param(i)] = call.Args[i]
				}
				nextE := f.Subst(E, sub)
				wantE := f.mkIdx(path, f.plus(pe.i, 1), nil)
				okRec = nextE == wantE
				why = fmt.Sprintf("the next element verified is %s, expected %s", nextE, wantE)
				if okRec && next != nil {
					got := f.Subst(next, sub)
					want := f.mkSlice(next, f.plus(f.mkLen(pf), 1), nil, next.T)
					okRec = got == want
					why = fmt.Sprintf("the rest of the key passed on is %s, expected %s", got, want)
				}
				okErr = st.True(f.mkEq(f.intern("res", fmt.Sprint(ei), nil, call), f.constNil()))
			}
			r.Check(okRec, "inner-recursion", "commitment at the child index is that of the next element, verified with the rest of the key", at, "%s", why)
			r.Check(okErr || !okRec, "inner-recursion-error", "failed verification of the next element is not accepted", at, "the error of verifying the next element is not checked")
			return
		}
		// last element
		if m := pe.missing; m != nil {
			r.Check(m.IsNil() || isChild == -1, "last-missing", "nothing is put at the child index of the last element", at, "the value %s is put at the child index of the last element", m)
		}
		diverges := func() (bool, string) {
			why := "nothing relates the key to the path fragment of the last element"
			for _, x := range tails {
				switch f.prefixTruth(st, x, pf) {
				case -1:
					return true, ""
				case 1:
					if !st.NE(f.mkLen(x), f.mkLen(pf)) {
						why = "the key may end exactly at the last element"
						continue
					}
					kb := f.mkIdx(x, f.mkLen(pf), nil)
					if noChildAt(kb) {
						return true, ""
					}
					why = "the key may continue through a child the element commits to"
				}
			}
			return false, why
		}
		handled := false
		if isChild == 1 {
			handled = true
			kinds["last-child"]++
			ok := false
			for _, x := range tails {
				if f.prefixTruth(st, x, pf) == 1 && st.NE(f.mkLen(x), f.mkLen(pf)) {
					kb := f.mkIdx(x, f.mkLen(pf), nil)
					if st.EQ(kb, ci) || st.EQ(kb, child8) {
						ok = true
					}
				}
			}
			r.Check(ok, "last-child-follows-key", "absence through a missing child: key continues through exactly that child", at, "no check that the key continues through the missing child")
			r.Check(noChildAt(child8) || noChildAt(ci), "last-child-missing", "absence through a missing child: the element has no commitment there", at, "a commitment at the child index is not excluded")
		}
		if st.EQ(ci, f.plus(arity, 1)) {
			handled = true
			kinds["last-terminal"]++
			ok := false
			for _, x := range tails {
				if st.True(f.bytesEq(x, pf)) || f.prefixTruth(st, x, pf) == 1 && st.EQ(f.mkLen(x), f.mkLen(pf)) {
					ok = true
				}
			}
			r.Check(ok, "last-terminal-ends-key", "a terminal ending: the key ends exactly at the element", at, "no check that the rest of the key equals the path fragment of the last element")
		}
		if st.EQ(ci, f.plus(arity, 2)) {
			handled = true
			kinds["last-fragment"]++
			ok, why := diverges()
			r.Check(ok, "last-fragment-diverges", "absence through the path fragment: the key diverges from it or runs into a missing child", at, "%s", why)
		}
		if !handled {
			// any ending which is not distinguished has to satisfy both
			r.Bad("last-ending-known", "ending of the proof is one of the three known", at, "accepts a last element without knowing which ending it has")
		} else {
			r.OK("last-ending-known", "ending of the proof is one of the three known", at)
		}
	})
	for _, k := range []string{"inner", "last-terminal", "last-fragment"} {
		r.Check(kinds[k] > 0, "accept-kinds", k, w.FuncPos(V), "no accepting return of this kind was found")
	}
	r.Check(ei >= 0 && accepts > 0, "accepting-returns", fname(V), w.FuncPos(V), "no accepting return found")

	// the initial call
	g := r.Flow(validate, FlowOpt{NoInline: opaque})
	n := 0
	g.Visit(nil, func(e *Exit) {
		if !succeeded(e) {
			return
		}
		st := e.P.St
		at := e.P.Where()
		p, root := g.Param(0), g.Param(1)
		path := g.mkSel(p, "Path", nil)
		if st.EQ(g.mkLen(path), g.constInt(0, nil)) {
			r.Check(st.EQ(g.mkLen(root), g.constInt(0, nil)), "accept-empty", "empty proof is accepted for the empty root only", at, "a proof without elements is accepted without checking that the root is empty")
			return
		}
		n++
		found, why := false, "no comparison of the calculated commitment with the root on the way to success"
		for _, a := range st.Conds() {
			c := a.Cond
			if !a.Pos || c.CallName() != "bytes.Equal" {
				continue
			}
			x := c.Args[0]
			if x == root {
				x = c.Args[1]
			} else if c.Args[1] != root {
				continue
			}
			if x.Op != "res" || x.Args[0].CallName() != fname(V) || x.Name != fmt.Sprint(1-ei) {
				why = fmt.Sprintf("the root is compared with %s", x)
				continue
			}
			call := x.Args[0]
			sub := map[*Term]*Term{}
			for i := range V.Params {
				sub[f.Param(i)] = call.Args[i]
			}
			if !st.True(g.mkEq(g.intern("res", fmt.Sprint(ei), nil, call), g.constNil())) {
				why = "the error of the verification is not checked"
				continue
			}
			// the first element and the whole key: terms of the step with the arguments of the call
			first := callInst(f, g, V, call)
			if !first(g, p) {
				why = "the verification does not start at the first element with the whole key"
				continue
			}
			found = true
		}
		r.Check(found, "accept-root", "Validate succeeds only if the commitment of the first element equals the root", at, "%s", why)
	})
	r.Check(n > 0, "accepting-returns", "Validate", w.FuncPos(validate), "no accepting return for a non-empty proof")
}

// callInst checks that the call starts the walk at element 0 with the whole key
func callInst(f, g *Flow, V *ssa.Function, call *Term) func(g *Flow, p *Term) bool {
	return func(g *Flow, p *Term) bool {
		// find the element and key terms of the step again, in the term space of g
		h := NewFlow(g.W, V, FlowOpt{Params: call.Args})
		_ = h
		okE, okK := false, false
		// terms of the recursive step over its parameters
		for _, t := range f.terms {
			if t.Op == "sel" && t.Name == "PathFragment" && t.Args[0].Op == "idx" {
				e := translate(f, g, t.Args[0], call)
				if e == g.mkIdx(g.mkSel(p, "Path", nil), g.constInt(0, nil), nil) {
					okE = true
				}
			}
			if t.Op == "call" && (t.CallName() == "bytes.HasPrefix" || t.CallName() == "bytes.Equal") {
				for _, a := range t.Args {
					if translate(f, g, a, call) == g.mkSel(p, "Key", nil) {
						okK = true
					}
				}
			}
		}
		return okE && okK
	}
}

// translate a term over the parameters of f's entry into g with the arguments of the call; nil if it has other leaves
func translate(f, g *Flow, t *Term, call *Term) *Term {
	for i := range f.Entry.Params {
		if t == f.Param(i) {
			return call.Args[i]
		}
	}
	switch {
	case t.Lin != nil:
		l := &Lin{C: t.Lin.C}
		for _, m := range t.Lin.M {
			x := translate(f, g, m.T, call)
			if x == nil {
				return nil
			}
			l = linAdd(l, g.toLin(x), m.K)
		}
		return g.fromLin(l, t.T)
	case t.isUnique() || t.Op == "param":
		return nil
	}
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		if as[i] = translate(f, g, a, call); as[i] == nil {
			return nil
		}
	}
	return g.rebuild(t, as)
}

func runC02(r *Report) {
	r.arityPositions()
	w := r.W
	must := w.Must("verify", "MustKeyWithTerminal")
	absence := w.Must("verify", "IsProofOfAbsence")
	validate := w.Must("verify", "Validate")
	withValue := w.Must("verify", "ValidateWithValue")

	// the facts which decide presence
	type verdict struct{ present, absent bool }
	classify := func(f *Flow, st *State, p *Term) (verdict, *Term) {
		path := f.mkSel(p, "Path", nil)
		E := f.mkIdx(path, f.plus(f.mkLen(path), -1), nil)
		ci := f.mkSel(E, "ChildIndex", nil)
		term := f.mkSel(E, "Terminal", nil)
		tIdx := f.plus(f.mkSel(p, "PathArity", nil), 1)
		var v verdict
		z := f.constInt(0, nil)
		v.present = st.NE(f.mkLen(path), z) && st.EQ(ci, tIdx) && st.NE(f.mkLen(term), z)
		v.absent = st.EQ(f.mkLen(path), z) || st.NE(ci, tIdx) || st.EQ(f.mkLen(term), z) || st.True(f.mkEq(term, f.constNil()))
		return v, term
	}
	f := r.Flow(must, FlowOpt{Split: splitAll})
	np, na := 0, 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		p := f.Param(0)
		v, term := classify(f, st, p)
		key, t := e.Results[0], e.Results[1]
		path := f.mkSel(p, "Path", nil)
		r.Check(key == f.mkSel(p, "Key", nil) || st.EQ(f.mkLen(path), f.constInt(0, nil)) && key.IsNil(), "verdict-key", "MustKeyWithTerminal reports the key of the proof", at, "reports %s as the key", key)
		if t.IsNil() {
			na++
			r.Check(v.absent, "verdict-absent", "absence is reported only if the proof does not end at a non-empty terminal", at, "reports absence though the proof may end at a non-empty terminal")
			return
		}
		np++
		r.Check(t == term, "verdict-terminal", "reported terminal is that of the last element", at, "reports %s as the terminal", t)
		r.Check(v.present, "verdict-present", "presence is reported only if the proof ends at a non-empty terminal", at, "reports presence without establishing that the ending is the terminal and that the terminal is not empty")
	})
	r.Check(np > 0 && na > 0, "verdict-kinds", "MustKeyWithTerminal", w.FuncPos(must), "expected verdicts of both kinds, found %d of presence and %d of absence", np, na)

	g := r.Flow(absence, FlowOpt{Split: splitAll})
	n := 0
	g.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		n++
		p := g.Param(0)
		for _, pos := range []bool{true, false} {
			st := e.P.St.clone()
			if !st.Assume(e.Results[0], pos) {
				continue
			}
			v, _ := classify(g, st, p)
			ok := v.absent
			if !pos {
				ok = v.present
			}
			r.Check(ok, "absence-verdict", fmt.Sprintf("IsProofOfAbsence reports %v", pos), e.P.Where(), "the facts on the way to the return do not entail this verdict")
		}
	})
	r.Check(n > 0, "absence-kinds", "IsProofOfAbsence", w.FuncPos(absence), "no return found")

	opaque := noInline(append(r.b2Opaque(), validate)...)
	h := r.Flow(withValue, FlowOpt{NoInline: opaque, Split: splitAll})
	n = 0
	h.Visit(nil, func(e *Exit) {
		if !succeeded(e) {
			return
		}
		n++
		st, at := e.P.St, e.P.Where()
		p, root, value := h.Param(0), h.Param(1), h.Param(2)
		v, term := classify(h, st, p)
		okV, okT := false, false
		for _, a := range st.Conds() {
			c := a.Cond
			if c.Op == "eq" && a.Pos {
				for _, x := range c.Args {
					if x.CallName() == fname(validate) && len(x.Args) == 2 && x.Args[0] == p && x.Args[1] == root {
						okV = true
					}
				}
			}
			if c.CallName() == "bytes.Equal" && a.Pos {
				for i, x := range c.Args {
					if x == term {
						y := c.Args[1-i]
						if y.CallName() == "trie_blake2b.CommitToDataRaw" && y.Args[0] == value && y.Args[1] == h.mkSel(p, "HashSize", nil) {
							okT = true
						}
					}
				}
			}
		}
		r.Check(okV, "value-valid", "ValidateWithValue succeeds only for a valid proof", at, "success without a successful Validate of the same proof and root")
		r.Check(v.present, "value-present", "ValidateWithValue succeeds only for a proof of presence", at, "success without establishing that the key is present")
		r.Check(okT, "value-commitment", "ValidateWithValue succeeds only if the terminal commits to the value", at, "success without comparing the terminal of the last element with the commitment to the value under the hash size of the proof")
	})
	r.Check(n > 0, "accepting-returns", "ValidateWithValue", w.FuncPos(withValue), "no accepting return found")
}
