package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C15"] = checkDef{run: runC15,
		explanation: "Data-flow analysis of the recalculation: Commit calls the recursive step for the root; on every path the step either knows that nothing of the node is changed (position, children, terminal), or is told that the node is missing and says so, or loops over all modified children without leaving early, each iteration passing the key of the child and its old commitment to the step and the result to the update, and then gives the model all updates, the new terminal and the commitment to be updated, takes over the terminal and clears the marks. Both models take over every update of a child, deletions included, and the terminal before the commitment is computed from the node. Every path of Update and Delete which changes the trie marks each node on the path as modified in its parent, each new node too, and marks each node which is moved."}
}

// keyLoop: a loop over all keys of a map, directly or by a slice of them
type keyLoop struct {
	l        *Loop
	coll     *Term
	key, val *Term
}

func (f *Flow) keyLoop(st *State, l *Loop) *keyLoop {
	switch l.Kind {
	case "map":
		return &keyLoop{l, st.Resolve(l.Coll), l.Key, l.Val}
	case "index":
		// for _, k := range keys
		for _, l2 := range f.Loops() {
			if l2.Kind != "map" {
				continue
			}
			for _, in := range l2.Head.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					pt := f.term(l2.Ctx, ph)
					if m := f.keysOf(st, pt); m != nil && (l.Covers(f, f.mkLen(pt)) || l.Covers(f, st.Resolve(f.mkLen(pt)))) {
						k := f.mkIdx(pt, l.Idx, nil)
						return &keyLoop{l, st.Resolve(m), k, f.intern("lookup", "", nil, m, k)}
					}
				}
			}
		}
	}
	return nil
}

// loopCovered: the loop is run on the path and left only at its end
func (f *Flow) loopCovered(st *State, l *Loop) bool {
	for _, x := range l.Exits {
		if !f.endsInPanic(x[1]) {
			return false
		}
	}
	return st.loopDone(f, l)
}

func isPtrTo(T types.Type, pkg, name string) bool {
	p, ok := T.Underlying().(*types.Pointer)
	return ok && namedIs(p.Elem(), pkg, name)
}

// same value, seen through conversions between interface and pointer
func unIface(st *State, t *Term) *Term {
	t = st.Resolve(t)
	for (t.Op == "iface" || t.Op == "as") && len(t.Args) >= 1 {
		t = st.Resolve(t.Args[0])
	}
	return t
}

func runC15(r *Report) {
	w := r.W
	commit := w.Must("trie", "Trie.Commit")
	var step *ssa.Function
	for _, fn := range w.recursive(commit) {
		// the one which is entered from outside
		for _, g := range w.Funcs {
			if !w.reachable(commit)[g] || w.reachable(fn)[g] && w.reachable(g)[fn] {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
						step = fn
					}
				}
			}
		}
	}
	if !r.Check(step != nil, "recalc-step", "Commit walks the trie recursively", w.FuncPos(commit), "no recursive function was found") {
		return
	}
	kIdx, uIdx := -1, -1
	for i, p := range step.Params {
		if isByteSlice(p.Type()) {
			kIdx = i
		}
		if isPtrTo(p.Type(), "trie", "VCommitment") {
			uIdx = i
		}
	}
	if !r.Check(kIdx >= 0 && uIdx >= 0, "recalc-step", "key and commitment of the recalculation", w.FuncPos(step), "the parameters of %s are not a key and a commitment to be updated", fname(step)) {
		return
	}
	r.recalcStart(commit, step, kIdx)
	r.recalcStep(step, kIdx, uIdx)
	for _, p := range []string{"b2", "kzg"} {
		r.modelUpdate(p)
	}
	r.marksRule("Trie.Update")
	r.marksRule("Trie.Delete")
	r.updateAllRule()
	for _, p := range []string{"b2", "kzg"} {
		r.equalRule(w.Must(p, "CommitmentModel.EqualCommitments"))
	}
}

func (r *Report) recalcStart(commit, step *ssa.Function, kIdx int) {
	f := r.Flow(commit, FlowOpt{Transfer: trace, Split: splitAll, NoInline: noInline(step)})
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		n++
		ok := false
		for _, c := range e.P.St.Events("call") {
			t := c.Args[0]
			if t.CallName() == fname(step) && emptyBytes(f, e.P.St, e.P.St.Resolve(t.Args[kIdx])) && e.P.St.Resolve(t.Args[0]) == f.Param(0) {
				ok = true
			}
		}
		r.Check(ok, "recalc-root", "Commit recalculates from the root on every path", e.P.Where(), "the recalculation of the root is not reached on every path")
	})
	r.Min("recalc-root", 1)
}

const fnUpdateNode = "trie.CommitmentModel.UpdateNodeCommitment"

func (r *Report) recalcStep(step *ssa.Function, kIdx, uIdx int) {
	w := r.W
	f := r.Flow(step, FlowOpt{Transfer: trace, Split: splitAll, NoInline: byName(fnGetNodeB, "trie.Concat")})
	tr, key, update := f.Param(0), f.Param(kIdx), f.Param(uIdx)
	nodeOf := func(st *State) *Term {
		for _, c := range st.Events("call") {
			t := c.Args[0]
			if t.CallName() == fnGetNodeB && (st.Resolve(t.Args[1]) == key || f.isCopyOf(st, t.Args[1], key)) {
				return t
			}
		}
		return nil
	}
	nn := func(n *Term, fl string) *Term {
		return f.mkLoad(f.mkFA(f.mkFA(n, "n", nil), fl, nil), nil)
	}
	// the update of the node: what is given to the model
	type upd struct {
		call, m *Term
	}
	var ups []upd
	f.VisitCalls(func(name string, _ *ssa.CallCommon) bool { return name == fnUpdateNode }, func(p *Point, in ssa.CallInstruction, call *Term) {
		st, at := p.St, p.Where()
		g := nodeOf(st)
		if !r.Check(g != nil, "update-node", "the node under the key is updated", at, "it is not known which node is updated") {
			return
		}
		n := f.intern("res", "0", nil, g)
		a := call.Args
		x := st.Resolve(a[1])
		okM := x == f.mkFA(n, "n", nil)
		if !okM {
			okM = true
			for _, fl := range []string{"ChildCommitments", "PathFragment", "Terminal"} {
				v := st.Resolve(f.field(x, fl))
				if v != nn(n, fl) {
					// the structure as a whole
					okM = okM && st.Resolve(f.mkLoad(x, nil)) == f.mkLoad(f.mkFA(n, "n", nil), nil)
				}
			}
		}
		r.Check(okM, "update-node", "the data of the node are updated in place", at, "the model is given %s, which is not the data of the node", x)
		ups = append(ups, upd{call, st.Resolve(a[2])})
		t := st.Resolve(a[4])
		r.Check(t == f.field(n, "newTerminal"), "update-terminal", "the new terminal is committed to", at, "the model is given %s as terminal", t)
		r.Check(st.Resolve(a[5]) == update, "update-target", "the commitment in the parent is updated", at, "the model is given %s to update", a[5])
		// all modified children were visited
		ok := false
		M := st.Resolve(a[2])
		for _, l := range f.Loops() {
			kl := f.keyLoop(st, l)
			if kl == nil || kl.coll != f.field(n, "modifiedChildren") || !f.loopCovered(st, l) {
				continue
			}
			all, k := true, 0
			f.AtBackEdges(l, func(q *Point) {
				k++
				qs := q.St
				done := false
				for _, m := range qs.Events("mapset") {
					if qs.Resolve(m.Args[0]) != M || qs.Resolve(m.Args[1]) != kl.key {
						continue
					}
					v := qs.Resolve(m.Args[2])
					for _, c := range qs.Events("call") {
						if t := c.Args[0]; t.CallName() == fname(step) && v.Op == "ld" && v.Args[0] == t.Args[uIdx] {
							done = true
						}
					}
				}
				all = all && done
				r.Check(done, "update-child", "the result of each modified child is given to the model", q.Where(), "an iteration may go by without the commitment of the child")
			})
			ok = ok || all && k > 0
		}
		if !ok {
			// nothing to visit
			ok = st.True(f.eq0(f.toLin(f.mkLen(f.field(n, "modifiedChildren"))))) || st.LE(f.mkLen(f.field(n, "modifiedChildren")), f.constInt(0, nil), 0)
		}
		r.Check(ok, "update-children", "all modified children are recalculated before", at, "the loop over the modified children is not complete")
	})
	// recalculation of a child
	f.VisitCalls(func(_ string, c *ssa.CallCommon) bool { return c.StaticCallee() == step }, func(p *Point, in ssa.CallInstruction, call *Term) {
		st, at := p.St, p.Where()
		g := nodeOf(st)
		if g == nil {
			r.Bad("child-key", "key of a child", at, "it is not known which node the child belongs to")
			return
		}
		n := f.intern("res", "0", nil, g)
		ps := f.concatParts(st, call.Args[kIdx])
		ok := len(ps) == 3 && (ps[0] == key || ps[0] == f.field(n, "unpackedKey")) && ps[1] == nn(n, "PathFragment")
		var idx *Term
		if ok {
			idx = stripConv(ps[2])
		}
		isIdx := false
		for _, l := range f.Loops() {
			kl := f.keyLoop(st, l)
			if ok && l.InBody(p) && kl != nil && kl.coll == f.field(n, "modifiedChildren") && stripConv(kl.key) == idx {
				isIdx = true
				cell := st.Resolve(call.Args[uIdx])
				v := st.Resolve(f.mkLoad(cell, nil))
				isOld := (v.Op == "lookup" || v.Op == "res" && v.Args[0].Op == "lookupok") && func() bool {
					lk := v
					if v.Op == "res" {
						lk = v.Args[0]
					}
					return st.Resolve(lk.Args[0]) == nn(n, "ChildCommitments") && st.Resolve(lk.Args[1]) == kl.key
				}()
				r.Check(isOld, "child-old", "the recalculation of a child starts with its commitment", at, "it starts with %s", v)
			}
		}
		r.Check(ok && isIdx, "child-key", "a child is recalculated under its key", at, "the key is made of %v", ps)
	})
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		g := nodeOf(st)
		if g == nil {
			r.Bad("recalc-cases", "each path looks up the node", at, "the node is not looked up")
			return
		}
		n := f.intern("res", "0", nil, g)
		switch st.Eval(f.intern("res", "1", nil, g)) {
		case -1:
			ok := st.True(f.mkEq(update, f.constNil()))
			for _, s := range st.Events("store") {
				ok = ok || st.Resolve(s.Args[0]) == update && st.Resolve(s.Args[1]).IsNil()
			}
			r.Check(ok, "recalc-missing", "a missing node has no commitment", at, "the commitment of a missing node is not removed")
			return
		case 0:
			r.Bad("recalc-cases", "presence of the node is known on each path", at, "it is not known whether the node exists")
			return
		}
		var up *upd
		for _, c := range st.Events("call") {
			for i := range ups {
				if c.Args[0] == ups[i].call {
					up = &ups[i]
				}
			}
		}
		if up == nil {
			unchanged := st.False(f.field(n, "pathChanged")) &&
				(st.EQ(f.mkLen(f.field(n, "modifiedChildren")), f.constInt(0, nil)) || st.LE(f.mkLen(f.field(n, "modifiedChildren")), f.constInt(0, nil), 0))
			eq := false
			for _, c := range st.Conds() {
				t := c.Cond
				if strings.HasSuffix(t.CallName(), ".EqualCommitments") && c.Pos && len(t.Args) == 3 {
					a, b := unIface(st, t.Args[1]), unIface(st, t.Args[2])
					x, y := f.field(n, "newTerminal"), nn(n, "Terminal")
					eq = eq || a == x && b == y || a == y && b == x
				}
			}
			r.Check(unchanged && eq, "recalc-skip", "a node is skipped only if nothing in it has changed", at, "the node may have changed: position and children known to be unchanged: %t, terminal known to be unchanged: %t", unchanged, eq)
			return
		}
		term, marks, path := false, false, false
		for _, s := range st.Events("store") {
			a, v := st.Resolve(s.Args[0]), st.Resolve(s.Args[1])
			switch {
			case a == f.mkFA(f.mkFA(n, "n", nil), "Terminal", nil):
				term = v == f.field(n, "newTerminal")
			case a == f.mkFA(n, "modifiedChildren", nil):
				marks = v.Op == "makemap"
			case a == f.mkFA(n, "pathChanged", nil):
				path = v.IsConst("false")
			}
		}
		marks = marks || st.LE(f.mkLen(f.field(n, "modifiedChildren")), f.constInt(0, nil), 0) || st.EQ(f.mkLen(f.field(n, "modifiedChildren")), f.constInt(0, nil))
		for _, c := range st.Events("call") {
			marks = marks || c.Args[0].CallName() == "builtin.clear" && st.Resolve(c.Args[0].Args[0]) == f.field(n, "modifiedChildren")
		}
		for _, l := range f.Loops() {
			if l.Kind == "map" && st.Resolve(l.Coll) == f.field(n, "modifiedChildren") && f.loopCovered(st, l) {
				all, k := true, 0
				f.AtBackEdges(l, func(q *Point) {
					k++
					d := false
					for _, x := range q.St.Events("mapdel") {
						d = d || q.St.Resolve(x.Args[0]) == f.field(n, "modifiedChildren") && x.Args[1] == l.Key
					}
					all = all && d
				})
				marks = marks || all && k > 0
			}
		}
		path = path || st.False(f.field(n, "pathChanged"))
		r.Check(term, "recalc-terminal", "the new terminal becomes the terminal", at, "the terminal of the node is not replaced by the new one")
		r.Check(marks && path, "recalc-marks", "no mark is left", at, "children cleared: %t, position cleared: %t", marks, path)
	})
	for _, n := range []string{"update-node", "update-child", "update-children", "child-key", "child-old", "recalc-missing", "recalc-skip", "recalc-terminal", "recalc-marks"} {
		r.Min(n, 1)
	}
	_, _ = tr, w
}

const fnGetNodeB = "(*trie.nodeStoreBuffered).getNode"

// modelUpdate: the model takes over all updates
func (r *Report) modelUpdate(pkg string) {
	w := r.W
	fn := w.Must(pkg, "CommitmentModel.UpdateNodeCommitment")
	c := func(s string) string { return pkg + ": " + s }
	opaque := byName("trie_blake2b.HashTheVector", "(*trie_kzg_bn256.TrustedSetup).commit", "(*trie_kzg_bn256.CommitmentModel).CalcNodeCommitment", "(*trie_kzg_bn256.CommitmentModel).calcNodeCommitment")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: opaque})
	mutate, updates, delta, terminal, update := f.Param(1), f.Param(2), f.Param(3), f.Param(4), f.Param(5)
	children := f.field(mutate, "ChildCommitments")
	// the loop which takes over the updates
	var takes []*Loop
	var collected []*Term // slices of the indices which are to be deleted
	for _, l := range f.Loops() {
		if l.Kind != "map" || l.Coll != updates {
			continue
		}
		all, k := true, 0
		why := ""
		var lists []*Term
		f.AtBackEdges(l, func(q *Point) {
			k++
			st := q.St
			isNil, isSet := st.True(f.mkEq(l.Val, f.constNil())), st.False(f.mkEq(l.Val, f.constNil()))
			set, del := false, false
			for _, m := range st.Events("mapset") {
				set = set || st.Resolve(m.Args[0]) == children && stripConv(m.Args[1]) == stripConv(l.Key) && st.Resolve(m.Args[2]) == l.Val
			}
			for _, m := range st.Events("mapdel") {
				del = del || st.Resolve(m.Args[0]) == children && stripConv(m.Args[1]) == stripConv(l.Key)
			}
			// appended to the list of those to be deleted
			for _, in := range l.Head.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				pt := f.term(l.Ctx, ph)
				b, xs := f.appended(st, f.nextOf(l, pt, q))
				if b == pt && len(xs) == 1 && stripConv(st.Resolve(xs[0])) == stripConv(l.Key) {
					del = true
					lists = append(lists, pt)
				}
			}
			switch {
			case isNil && !del:
				all, why = false, "an update which deletes the child may be left out"
			case isSet && !set:
				all, why = false, "an update of a child may be left out"
			case !isNil && !isSet && !(set && del):
				all, why = false, "it is not known whether the update deletes the child"
			}
			if !all {
				why += " (end of the loop body at " + q.Where() + ")"
			}
		})
		if k > 0 && all {
			takes = append(takes, l)
			collected = append(collected, lists...)
		}
		r.Check(k > 0 && all, "model-update", c("every update of a child is taken over"), w.FuncPos(fn), "%s", why)
	}
	// children which were collected are deleted
	var dels []*Loop
	for _, cl := range collected {
		ok := false
		for _, l := range f.Loops() {
			if l.Kind != "index" || !l.Covers(f, f.mkLen(cl)) {
				continue
			}
			f.AtBackEdges(l, func(q *Point) {
				for _, m := range q.St.Events("mapdel") {
					if q.St.Resolve(m.Args[0]) == children && q.St.Resolve(m.Args[1]) == f.mkIdx(cl, l.Idx, nil) {
						ok = true
						dels = append(dels, l)
					}
				}
			})
		}
		r.Check(ok, "model-delete", c("children which are deleted leave the node"), w.FuncPos(fn), "the collected indices are not deleted")
	}
	done := func(st *State) bool {
		ok := false
		for _, l := range takes {
			ok = ok || f.loopCovered(st, l)
		}
		for _, l := range dels {
			ok = ok && f.loopCovered(st, l)
		}
		return ok
	}
	// the commitment is computed from the updated data
	f.VisitCalls(func(n string, cc *ssa.CallCommon) bool {
		g := cc.StaticCallee()
		return g != nil && opaque(g)
	}, func(p *Point, in ssa.CallInstruction, call *Term) {
		st := p.St
		ts := false
		for _, s := range st.Events("store") {
			ts = ts || st.Resolve(s.Args[0]) == f.mkFA(mutate, "Terminal", nil) && st.Resolve(s.Args[1]) == terminal
		}
		if strings.HasSuffix(call.CallName(), "HashTheVector") {
			// the vector is made after the changes
			vec := f.baseOf(st, call.Args[0])
			// (what is known about the terminal of the node before it is replaced is forgotten then)
			mt := f.field(mutate, "Terminal")
			tv := st.True(f.mkEq(terminal, f.constNil())) || st.True(f.mkEq(mt, f.constNil()))
			for _, s := range st.Events("slot") {
				tv = tv || s.Args[0] == vec && (s.Args[2].Contains(terminal) || s.Args[2].Contains(mt))
			}
			ts = ts && tv
		}
		r.Check(done(st) && ts, "model-after", c("the commitment is computed after the updates"), p.Where(), "children taken over: %t, terminal taken over: %t", done(st), ts)
	})
	f.Visit(func(p *Point) {
		if rg, ok := p.Instr.(*ssa.Range); ok {
			if p.T(rg.X) == children {
				for _, l := range f.Loops() {
					if l.Kind == "map" && l.Coll == children && l.Ctx == p.Ctx {
						r.Check(done(p.St), "model-after", c("the children are read after the updates"), p.Where(), "the children are read before the updates are taken over")
						break
					}
				}
			}
		}
	}, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		r.Check(done(st), "model-update", c("updates of the children are taken over on each path"), at, "it may return before all updates are taken over")
		var tv *Term
		for _, s := range st.Events("store") {
			if st.Resolve(s.Args[0]) == f.mkFA(mutate, "Terminal", nil) {
				tv = st.Resolve(s.Args[1])
			}
		}
		r.Check(tv == terminal, "model-terminal", c("the terminal is taken over on each path"), at, "the terminal of the node is not replaced")
		// the commitment
		none := st.True(f.mkEq(update, f.constNil()))
		empty := st.EQ(f.mkLen(children), f.constInt(0, nil)) || st.LE(f.mkLen(children), f.constInt(0, nil), 0)
		for _, cd := range st.Conds() {
			// len(ChildCommitments) after the updates
			if cd.Pos && cd.Cond.Op == "eq0" && cd.Cond.Any(func(x *Term) bool { return x.Op == "len" && selOf(x.Args[0], "ChildCommitments") }) {
				empty = true
			}
		}
		empty = empty && (st.True(f.mkEq(terminal, f.constNil())) || tv == terminal && st.True(f.mkEq(f.field(mutate, "Terminal"), f.constNil())))
		set := false
		for _, s := range st.Events("store") {
			if st.Resolve(s.Args[0]) != update {
				continue
			}
			v := unIface(st, s.Args[1])
			for v.Op == "conv" {
				v = st.Resolve(v.Args[0])
			}
			switch {
			case strings.HasSuffix(v.CallName(), "HashTheVector"):
				set = true
			case strings.HasSuffix(v.CallName(), "alcNodeCommitment"):
				set = st.Resolve(v.Args[1]) == mutate
			default:
				// incremental update
				set = st.True(delta)
			}
		}
		r.Check(none || empty || set, "model-commitment", c("the commitment is replaced on each path"), at, "the commitment of the node is not updated")
	})
	r.Min("model-update", 4)
	r.Min("model-after", 2)
	r.Min("model-terminal", 2)
	r.Min("model-commitment", 2)
}

// marksRule: each node on the path is marked as modified in its parent
func (r *Report) marksRule(name string) {
	w := r.W
	fn := w.Must("trie", name)
	del := strings.HasSuffix(name, "Delete")
	opaqueDel := "(*trie.Trie).Delete"
	if del {
		opaqueDel = ""
	}
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: byName(fnGetNodeB, fnEncode, "trie.proofPath", "trie.UnpackBytes", "trie.Concat", "(*trie.Trie).checkReorg", "(*trie.Trie).commitToValue", opaqueDel)})
	reorg := w.Must("trie", "Trie.checkReorg")
	var pp *Term
	proofOf := func(st *State) *Term {
		for _, c := range st.Events("call") {
			if c.Args[0].CallName() == "trie.proofPath" {
				return f.intern("res", "0", nil, c.Args[0])
			}
		}
		return nil
	}
	f.VisitCalls(func(n string, _ *ssa.CallCommon) bool { return n == "trie.proofPath" }, func(p *Point, in ssa.CallInstruction, call *Term) {
		pp = f.intern("res", "0", nil, call)
	})
	if !r.Check(pp != nil, "mark-path", name+": path to the key", w.FuncPos(fn), "the path to the key is not computed") {
		return
	}
	// loops which mark along the path
	var marking []*Loop
	for _, l := range f.Loops() {
		if l.Kind != "index" {
			continue
		}
		one := f.constInt(1, nil)
		n := f.mkLen(pp)
		// child at child = idx or idx+1
		var child *Term
		switch {
		case l.Step == 1 && l.Start.IsConst("1") && l.Bound == n, l.Step == -1 && l.Start == f.plus(n, -1) && l.Bound != nil && (l.Bound == one || l.Bound.IsConst("1")):
			child = l.Idx
		case l.Step == 1 && l.Start.IsConst("0") && l.Bound == f.plus(n, -1), l.Step == -1 && l.Start == f.plus(n, -2) && l.Bound != nil && l.Bound.IsConst("0"):
			child = f.plus(l.Idx, 1)
		case l.Covers(f, n):
			// the root is skipped by a condition
			child = l.Idx
		default:
			continue
		}
		bad := false
		for _, x := range l.Exits {
			bad = bad || !f.endsInPanic(x[1])
		}
		all, k := true, 0
		f.AtBackEdges(l, func(q *Point) {
			st := q.St
			if st.EQ(child, f.constInt(0, nil)) {
				return
			}
			k++
			me := f.mkIdx(pp, child, nil)
			parent := f.mkIdx(pp, f.plus(child, -1), nil)
			ok := false
			for _, m := range st.Events("mapset") {
				mm := st.Resolve(m.Args[0])
				if !selOf(mm, "modifiedChildren") {
					continue
				}
				g := mm
				for g != nil && g.Op != "res" && len(g.Args) > 0 {
					g = g.Args[0]
				}
				if g == nil || g.Op != "res" || g.Args[0].CallName() != fnGetNodeB {
					continue
				}
				i := st.Resolve(m.Args[1])
				ok = ok || st.Resolve(g.Args[0].Args[1]) == parent && stripConv(i) == f.mkIdx(me, f.plus(f.mkLen(me), -1), nil)
			}
			all = all && ok
		})
		if !bad && all && k > 0 {
			marking = append(marking, l)
		}
	}
	r.Check(len(marking) > 0, "mark-path", name+": all nodes on the path are marked in their parents", w.FuncPos(fn), "no loop which marks all nodes on the path")
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		P := proofOf(st)
		if f.noSuchResult(st, reorg, 0) {
			return
		}
		marked := false
		for _, l := range marking {
			marked = marked || st.loopDone(f, l)
		}
		changed := false
		for _, s := range st.Events("store") {
			a := s.Args[0]
			if a.Op == "fa" && !a.Contains(f.constNil()) {
				changed = changed || a.Name == "newTerminal" || a.Name == "pathChanged"
			}
		}
		for _, m := range st.Events("mapset") {
			changed = changed || selOf(m.Args[0], "deleted") || selOf(m.Args[0], "nodeCache")
		}
		if !changed {
			r.Check(f.nothingToChange(st, fn, del), "mark-change", name+": nothing is changed only if there is nothing to change", at, "the key may keep another value than the one it is given")
			return
		}
		n++
		short := P == nil || st.LE(f.mkLen(P), f.constInt(1, nil), 0)
		r.Check(marked || short, "mark-done", name+": a change is marked up to the root on each path", at, "nodes on the path may not be marked as modified")
		// moved nodes are recalculated
		for _, s := range st.Events("store") {
			a := s.Args[0]
			if a.Op != "fa" || a.Contains(f.constNil()) {
				continue
			}
			var node *Term
			switch {
			case a.Name == "PathFragment" && a.Args[0].Op == "fa" && a.Args[0].Name == "n":
				node = a.Args[0].Args[0]
			case a.Name == "unpackedKey":
				node = a.Args[0]
			default:
				continue
			}
			if namedIsT(node, "bufferedNode") {
				ok := st.True(f.field(node, "pathChanged"))
				for _, s2 := range st.Events("store") {
					ok = ok || s2.Args[0] == f.mkFA(node, "pathChanged", nil) && st.Resolve(s2.Args[1]).IsConst("true")
				}
				r.Check(ok, "mark-moved", name+": a node which is new or moved is recalculated", at, "the node %s is not marked as changed", node)
			}
		}
		if del {
			return
		}
		// each new node is marked in its parent
		for _, m := range st.Events("mapset") {
			if !selOf(m.Args[0], "nodeCache") && !isFieldMap(m.Args[0], "nodeCache") {
				continue
			}
			k := bytesOf(st, m.Args[1])
			if P != nil && (k.Op == "idx" && k.Args[0] == P) {
				// a node on the path
				continue
			}
			if ofNil(k) || k.IsNil() || st.LE(f.mkLen(k), f.constInt(0, nil), 0) {
				continue
			}
			last := f.lastByte(st, k)
			ok := false
			for _, m2 := range st.Events("mapset") {
				if mm := st.Resolve(m2.Args[0]); selOf(mm, "modifiedChildren") && mm.Any(func(x *Term) bool { return x.CallName() == fnGetNodeB }) {
					ok = ok || last != nil && stripConv(st.Resolve(m2.Args[1])) == stripConv(last)
				}
			}
			r.Check(ok, "mark-new", name+": a new node is marked in its parent", at, "the last element of the key %s of the new node is not marked as modified", k)
		}
	})
	r.Check(n > 0, "mark-done", name+": changes", w.FuncPos(fn), "no path which changes the trie was found")
	r.Min("mark-moved", 1)
	if !del {
		r.Min("mark-new", 1)
	}
}

// nothingToChange: the trie is as the update or deletion wants it
func (f *Flow) nothingToChange(st *State, fn *ssa.Function, del bool) bool {
	for _, e := range st.Events("call") {
		// deleted by Delete, which is judged by itself
		if t := e.Args[0]; !del && t.CallName() == "(*trie.Trie).Delete" && st.Resolve(t.Args[1]) == f.Param(1) {
			return true
		}
	}
	x := walkOf(f, st)
	if x == nil {
		return false
	}
	if !del {
		return x.samePending(st)
	}
	if st.LE(f.mkLen(x.P), f.constInt(0, nil), 0) || st.NE(x.ending, f.endingTerminal()) {
		return true
	}
	for _, e := range st.Events("call") {
		t := e.Args[0]
		if t.CallName() != fnGetNodeB || st.Resolve(t.Args[1]) != x.lastKey {
			continue
		}
		if st.False(f.intern("res", "1", nil, t)) || st.True(f.mkEq(f.field(f.intern("res", "0", nil, t), "newTerminal"), f.constNil())) {
			return true
		}
	}
	return false
}

func (f *Flow) endingTerminal() *Term {
	c, _ := f.W.constOf("trie", "EndingTerminal")
	return f.constInt(c, nil)
}

// samePending: the terminal which the node of the key will get is already the one to be put there
func (x *walkTerms) samePending(st *State) bool {
	f := x.f
	for _, c := range knownTrue(st, f.mkEq(f.constNil(), f.constNil())) {
		if !c.pos || methodOf(c.t) != "EqualCommitments" {
			continue
		}
		a, b := unIface(st, st.Resolve(c.t.Args[len(c.t.Args)-2])), unIface(st, st.Resolve(c.t.Args[len(c.t.Args)-1]))
		if a.CallName() == fnToValue {
			a, b = b, a
		}
		if b.CallName() != fnToValue || !selOf(a, "newTerminal") {
			continue
		}
		n := a.Args[0]
		if n.Op == "fa" {
			n = n.Args[0]
		}
		if x.isNode(st, n, x.lastKey) && st.EQ(x.ending, f.endingTerminal()) {
			return true
		}
	}
	return false
}

func namedIsT(t *Term, name string) bool {
	if t.T == nil {
		return true
	}
	T := t.T
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	n, ok := T.(*types.Named)
	return ok && n.Obj().Name() == name
}

// lastByte of a byte string
func (f *Flow) lastByte(st *State, k *Term) *Term {
	k = st.Resolve(k)
	if ps := f.concatParts(st, k); len(ps) > 1 {
		return ps[len(ps)-1]
	}
	last := f.plus(f.mkLen(k), -1)
	if b := f.baseOf(st, k); b.Op == "makeslice" {
		for _, s := range st.Events("slot") {
			if s.Args[0] == b && (s.Args[1] == last || st.EQ(s.Args[1], last)) {
				return st.Resolve(s.Args[2])
			}
		}
		return nil
	}
	return st.Resolve(f.mkIdx(k, last, nil))
}

func (r *Report) updateAllRule() {
	w := r.W
	fn := w.Must("trie", "Trie.UpdateAll")
	upd := w.Must("trie", "Trie.Update")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: noInline(upd)})
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.P.Ctx.Parent == nil || e.Kind != "return" {
			return
		}
	})
	f.Visit(func(p *Point) {
		ret, ok := p.Instr.(*ssa.Return)
		if !ok || p.Ctx.Parent == nil || len(ret.Results) != 1 || p.Ctx.Fn.Parent() != fn {
			return
		}
		n++
		st := p.St
		done := false
		ps := p.Ctx.Params
		for _, c := range st.Events("call") {
			t := c.Args[0]
			if t.CallName() == fname(upd) && len(ps) >= 2 {
				k, v := ps[len(ps)-2], ps[len(ps)-1]
				for i, q := range p.Ctx.Fn.Params {
					if i == 0 {
						k = f.term(p.Ctx, q)
					} else {
						v = f.term(p.Ctx, q)
					}
				}
				done = done || st.Resolve(t.Args[0]) == f.Param(0) && st.Resolve(t.Args[1]) == k && st.Resolve(t.Args[2]) == v
			}
		}
		r.Check(done, "update-all", "each pair of the store is updated", p.Where(), "a pair may be skipped")
		r.Check(p.T(ret.Results[0]).IsConst("true"), "update-all", "the iteration is not stopped early", p.Where(), "the iteration may be stopped")
	}, nil)
	r.Check(n > 0, "update-all", "UpdateAll iterates over the store", w.FuncPos(fn), "no function handed over to the iteration was found")
}

// equalRule: commitments are found to be equal only if both are missing or all of their bytes are the same
func (r *Report) equalRule(fn *ssa.Function) {
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: byName("trie.MustBytes")})
	a, b := f.Param(len(fn.Params)-2), f.Param(len(fn.Params)-1)
	n := 0
	missing := func(st *State, t *Term) bool {
		if st.True(f.mkEq(t, f.constNil())) {
			return true
		}
		for _, c := range st.Conds() {
			if c.Pos && strings.HasSuffix(c.Cond.CallName(), ".IsNil") && c.Cond.Contains(t) {
				return true
			}
		}
		return false
	}
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		v := st.Resolve(e.Results[0])
		if v.IsConst("false") || st.False(v) {
			return
		}
		n++
		if v.IsConst("true") || st.True(v) {
			ok := missing(st, a) && missing(st, b)
			for _, c := range st.Conds() {
				ok = ok || c.Pos && wholeEq(st, c.Cond, a, b)
			}
			r.Check(ok, "equal-whole", fname(fn)+": equal only if both are missing or the same", at, "commitments which differ may be taken for equal")
			return
		}
		r.Check(wholeEq(st, v, a, b), "equal-whole", fname(fn)+": all bytes are compared", at, "equality is %s", v)
	})
	r.Check(n > 1, "equal-whole", fname(fn)+": comparison", r.W.FuncPos(fn), "no comparison was found")
}

// wholeEq: the condition compares all bytes of the commitments a and b
func wholeEq(st *State, c *Term, a, b *Term) bool {
	c = st.Resolve(c)
	if c.Op != "eq" && c.Op != "bytes=" && !strings.HasSuffix(c.CallName(), "bytes.Equal") {
		return false
	}
	if len(c.Args) != 2 {
		return false
	}
	var whole func(t, of *Term) bool
	whole = func(t, of *Term) bool {
		t = st.Resolve(t)
		switch {
		case t == of:
			return true
		case t.Op == "slice" || t.Op == "idx" || t.Op == "ia":
			return false
		case len(t.Args) == 1:
			return whole(t.Args[0], of)
		case t.Op == "call" && len(t.Args) >= 1:
			return whole(t.Args[0], of)
		case t.Op == "as" || t.Op == "res":
			return whole(t.Args[0], of)
		}
		return false
	}
	return whole(c.Args[0], a) && whole(c.Args[1], b) || whole(c.Args[0], b) && whole(c.Args[1], a)
}

// noSuchResult: on the path a call of the function has given none of the constants it returns
func (f *Flow) noSuchResult(st *State, fn *ssa.Function, i int) bool {
	var consts []*Term
	for _, ret := range f.returns(fn) {
		c, ok := ret.Results[i].(*ssa.Const)
		if !ok {
			return false
		}
		consts = append(consts, f.constTerm(c))
	}
	name := fname(fn)
	if len(consts) == 0 {
		return false
	}
	calls := map[*Term]bool{}
	for _, c := range st.Events("call") {
		if c.Args[0].CallName() == name {
			calls[c.Args[0]] = true
		}
	}
	for c := range calls {
		none := true
		for _, k := range consts {
			none = none && st.NE(f.intern("res", strconv.Itoa(i), nil, c), k)
		}
		if none {
			return true
		}
	}
	return false
}
