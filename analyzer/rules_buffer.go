package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C16"] = checkDef{run: runC16,
		explanation: "Data-flow analysis of the buffered node store: the loops of PersistMutations over the buffer and over the deletion marks (or over all collected keys of them) are not left early and each iteration passes the encoded key of its entry and the serialized node, or nil, to the writer; both loops are run on every path and nothing else is written; on each path of GetNode which finds a node the key is known not to be deleted, and the node is the buffered one or, if none is buffered, the stored one, which is then buffered with unchanged data; ClearCache empties all buffers; on every path of Update and Delete, keys which enter the buffer lose their deletion mark and keys which are marked as deleted leave the buffer."}
}

const (
	fnEncode  = "trie.EncodeUnpackedBytes"
	fnBytes   = "(*trie.bufferedNode).Bytes"
	fnGetNode = fnGetNodeB
	fnReader  = "(*trie.nodeStore).getNode"
)

func byName(names ...string) func(*ssa.Function) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(fn *ssa.Function) bool { return m[fname(fn)] }
}

// bytesOf strips conversions between byte slices and strings
func bytesOf(st *State, t *Term) *Term {
	t = st.Resolve(t)
	for t.Op == "str" || t.Op == "bytes" || t.Op == "conv" && len(t.Args) == 1 && !isInt(t.T) {
		t = st.Resolve(t.Args[0])
	}
	return t
}

// buffers of a buffered store: terms of the maps nodeCache and deleted
func (f *Flow) bufferMaps(sc *Term) (cache, deleted *Term) {
	return f.field(sc, "nodeCache"), f.field(sc, "deleted")
}

// field of the structure a pointer points to
func (f *Flow) field(ptr *Term, name string) *Term { return f.mkLoad(f.mkFA(ptr, name, nil), nil) }

func selOf(t *Term, field string) bool {
	return t.Op == "sel" && t.Name == field || t.Op == "ld" && len(t.Args) == 1 && t.Args[0].Op == "fa" && t.Args[0].Name == field
}

// keysOf: the slice X holds all keys of a map M: it is collected by a loop over the map without conditions
func (f *Flow) keysOf(st *State, X *Term) *Term {
	X = st.Resolve(X)
	if X.Op == "slice" {
		X = X.Args[0]
	}
	for _, l := range f.Loops() {
		if l.Kind != "map" || !st.loopDone(f, l) {
			continue
		}
		bad := false
		for _, x := range l.Exits {
			bad = bad || !f.endsInPanic(x[1])
		}
		if bad {
			continue
		}
		for _, in := range l.Head.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			pt := f.term(l.Ctx, ph)
			if pt != X {
				continue
			}
			s0 := f.startOf(l, pt)
			if s0 == nil || !(s0.IsNil() || isZero(f.mkLen(s0))) {
				continue
			}
			all, n := true, 0
			f.AtBackEdges(l, func(q *Point) {
				n++
				b, xs := f.appended(q.St, f.nextOf(l, pt, q))
				if b != pt || len(xs) != 1 || q.St.Resolve(xs[0]) != l.Key {
					all = false
				}
			})
			if all && n > 0 {
				return l.Coll
			}
		}
	}
	return nil
}

func runC16(r *Report) {
	w := r.W
	r.persistRule()
	bytesFn := w.Must("trie", "bufferedNode.Bytes")
	r.Check(r.bytesForm("persist-form", func(fn *ssa.Function) bool { return fn == bytesFn }) == 1, "persist-form", "serialization of the buffered nodes", w.FuncPos(bytesFn), "%s does not return the written node", fname(bytesFn))
	r.overlayRule(w.Must("trie", "Trie.GetNode"))
	r.clearRule()
	r.bufferDisjoint("Trie.Update")
	r.bufferDisjoint("Trie.Delete")
}

func (r *Report) persistRule() {
	w := r.W
	fn := w.Must("trie", "Trie.PersistMutations")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: byName(fnEncode, fnBytes, fnReader)})
	tr, store := f.Param(0), f.Param(1)
	sc := f.mkSel(tr, "nodeStore", nil)
	cache, deleted := f.bufferMaps(sc)
	// what is written by a call of Set: the node term or nil, and the key by which it is found
	encoded := func(st *State, k *Term) (*Term, bool) {
		k = st.Resolve(k)
		if k.Op == "res" && k.Name == "0" && k.Args[0].CallName() == fnEncode {
			ar := st.Resolve(k.Args[0].Args[1])
			return bytesOf(st, k.Args[0].Args[0]), selOf(ar, "arity") || strings.HasSuffix(ar.CallName(), "PathArity")
		}
		return nil, false
	}
	type kloop = keyLoop
	classify := func(l *Loop, st *State) *kloop { return f.keyLoop(st, l) }
	nodeOK := func(st *State, kl *kloop, e *Term) bool {
		// Set(encode(key), node.Bytes())
		K, ok := encoded(st, e.Args[1])
		V := st.Resolve(e.Args[2])
		if !ok || V.CallName() != fnBytes {
			return false
		}
		n := st.Resolve(V.Args[0])
		isNode := n == kl.val || n.Op == "lookup" && n.Args[0] == kl.coll && n.Args[1] == kl.key || n.Op == "res" && n.Name == "0" && n.Args[0].Op == "lookupok" && n.Args[0].Args[1] == kl.key
		isKey := K == kl.key || K == f.field(n, "unpackedKey")
		return isNode && isKey
	}
	eraseOK := func(st *State, kl *kloop, e *Term) bool {
		K, ok := encoded(st, e.Args[1])
		return ok && K == kl.key && emptyBytes(f, st, e.Args[2])
	}
	isStore := func(st *State, e *Term) bool { return st.Resolve(e.Args[0]) == store }
	done := map[string][]*Loop{}
	found := map[string]bool{}
	for _, l := range f.Loops() {
		if l.Kind == "other" {
			continue
		}
		var coll *Term
		name := ""
		f.AtBackEdges(l, func(q *Point) {
			kl := classify(l, q.St)
			if kl == nil || kl.coll != cache && kl.coll != deleted {
				return
			}
			// is it a loop which writes?
			writes := false
			for b := range l.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && (kvwriterSet(c.Common()) || reachesSet(w, c.Common())) {
						writes = true
					}
				}
			}
			if !writes {
				return
			}
			coll = kl.coll
			name = "cached nodes"
			okf := nodeOK
			if coll == deleted {
				name, okf = "deleted nodes", eraseOK
			}
			ok := false
			for _, c := range q.St.Events("call") {
				e := c.Args[0]
				if strings.HasSuffix(e.CallName(), ".Set") && len(e.Args) == 3 && isStore(q.St, e) && okf(q.St, kl, e) {
					ok = true
				}
			}
			found[name] = true
			r.Check(ok, "persist-each", name+" are all written", q.Where(), "an iteration may go by without writing the entry under its encoded key")
		})
		if coll == nil {
			continue
		}
		for _, x := range l.Exits {
			r.Check(f.endsInPanic(x[1]), "persist-all", "the loop over the "+name+" is not left early", w.InstrPos(x[0].Instrs[0]), "the loop may be left before all entries are written")
		}
		done[name] = append(done[name], l)
	}
	for _, n := range []string{"cached nodes", "deleted nodes"} {
		r.Check(found[n], "persist-each", n+": written by a loop over the buffer", w.FuncPos(fn), "no loop over the buffer which writes all entries was found")
	}
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		for _, n := range []string{"cached nodes", "deleted nodes"} {
			ok := false
			for _, l := range done[n] {
				ok = ok || e.P.St.loopDone(f, l)
			}
			if !ok {
				// nothing to do for an empty buffer
				m := cache
				if n == "deleted nodes" {
					m = deleted
				}
				ok = e.P.St.True(f.eq0(f.toLin(f.mkLen(m))))
			}
			r.Check(ok, "persist-done", n+" are written on every path", e.P.Where(), "it may return without writing the %s", n)
		}
	})
	// nothing else is written
	f.VisitCalls(func(n string, c *ssa.CallCommon) bool { return kvwriterSet(c) }, func(p *Point, in ssa.CallInstruction, call *Term) {
		K, ok := encoded(p.St, call.Args[1])
		r.Check(ok, "persist-key", "nodes are written under their encoded keys", p.Where(), "the key is %s", p.St.Resolve(call.Args[1]))
		if !ok {
			return
		}
		_ = K
		V := p.St.Resolve(call.Args[2])
		r.Check(V.CallName() == fnBytes || emptyBytes(f, p.St, V), "persist-value", "the serialized node is written, or nothing", p.Where(), "the value is %s", V)
		if V.CallName() == fnBytes {
			a := V.Args
			okM := selOf(p.St.Resolve(a[1]), "m") || strings.HasSuffix(p.St.Resolve(a[1]).CallName(), ".Model")
			okA := selOf(p.St.Resolve(a[2]), "arity")
			okO := selOf(p.St.Resolve(a[3]), "optimizeKeyCommitments")
			r.Check(okM && okA && okO, "persist-params", "nodes are serialized with the parameters of the trie", p.Where(), "serialized with %v", a[1:])
		}
	})
	r.Min("persist-each", 2)
	r.Min("persist-value", 2)
}

func kvwriterSet(c *ssa.CallCommon) bool {
	return c.IsInvoke() && c.Method.Name() == "Set" && c.Signature().Params().Len() == 2
}

func reachesSet(w *World, c *ssa.CallCommon) bool {
	g := c.StaticCallee()
	if g == nil || len(g.Blocks) == 0 {
		return false
	}
	for x := range w.reachable(g) {
		for _, b := range x.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && kvwriterSet(c.Common()) {
					return true
				}
			}
		}
	}
	return false
}

// overlayRule: a deleted node is never found, a buffered one hides the stored one, a node read is buffered
func (r *Report) overlayRule(fn *ssa.Function) {
	w := r.W
	// what is known about the buffers is remembered when they change
	skey := func(f *Flow, st *State, k *Term) bool {
		key := f.Param(1)
		return bytesOf(st, k) == key || f.isCopyOf(st, bytesOf(st, k), key)
	}
	// lookups of a map with the key: the terms which say whether it is there
	has := func(f *Flow, st *State, m *Term) int {
		v := 0
		seen := map[*Term]bool{}
		for _, c := range st.Conds() {
			c.Cond.Any(func(x *Term) bool {
				if x.Op == "lookupok" && !seen[x] && st.Resolve(x.Args[0]) == m && skey(f, st, x.Args[1]) {
					seen[x] = true
					if e := st.Eval(x); e != 0 {
						v = e
					}
				}
				return false
			})
		}
		return v
	}
	f := r.Flow(fn, FlowOpt{Transfer: func(p *Point) {
		cache, deleted := p.F.bufferMaps(p.F.mkSel(p.F.Param(0), "nodeStore", nil))
		if has(p.F, p.St, cache) == -1 {
			p.St.AddEvent("notbuffered")
		}
		if has(p.F, p.St, deleted) == -1 {
			p.St.AddEvent("notdeleted")
		}
		trace(p)
	}, Split: splitAll, NoInline: byName(fnReader, fnEncode)})
	tr, key := f.Param(0), f.Param(1)
	sc := f.mkSel(tr, "nodeStore", nil)
	cache, deleted := f.bufferMaps(sc)
	kinds := map[string]int{}
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		ok := st.Resolve(e.Results[1])
		R := st.Resolve(e.Results[0])
		for R.Op == "iface" {
			R = st.Resolve(R.Args[0])
		}
		var rd *Term
		for _, c := range st.Events("call") {
			if c.Args[0].CallName() == fnReader {
				rd = c.Args[0]
				r.Check(skey(f, st, rd.Args[1]), "read-key", "the stored node is read under the same key", at, "it is read under %s", rd.Args[1])
			}
		}
		inDel, inCache := has(f, st, deleted), has(f, st, cache)
		if st.HasEvent("notbuffered") {
			inCache = -1
		}
		if st.HasEvent("notdeleted") {
			inDel = -1
		}
		stored := 0
		if rd != nil {
			stored = st.Eval(f.intern("res", "1", nil, rd))
		}
		switch {
		case st.False(ok) || ok.IsConst("false"):
			kinds["absent"]++
			r.Check(inDel == 1 || inCache == -1 && stored == -1, "overlay-absent", "a node is absent only if it is deleted, or neither buffered nor stored", at, "deleted: %d, buffered: %d, stored: %d", inDel, inCache, stored)
		case st.True(ok) || ok.IsConst("true"):
			r.Check(inDel == -1, "overlay-deleted", "a deleted node is never found", at, "the key is not known not to be deleted")
			if inCache == 1 {
				kinds["buffered"]++
				isBuf := R.Any(func(x *Term) bool {
					return (x.Op == "lookupok" || x.Op == "lookup") && st.Resolve(x.Args[0]) == cache && skey(f, st, x.Args[1])
				}) && R.Op != "alloc"
				r.Check(isBuf, "overlay-hides", "a buffered node hides the stored one", at, "the node returned is %s", R)
				return
			}
			kinds["stored"]++
			r.Check(inCache == -1, "overlay-hides", "the store is asked only if the node is not buffered", at, "the node may be buffered")
			if !r.Check(rd != nil && stored == 1, "overlay-stored", "a node which is not buffered comes from the store", at, "the node may not be stored") {
				return
			}
			rn := f.mkSel(f.intern("res", "0", nil, rd), "n", nil)
			n := st.Resolve(f.field(R, "n"))
			same := n == rn
			if !same {
				same = true
				for _, fl := range []string{"PathFragment", "ChildCommitments", "Terminal"} {
					same = same && st.Resolve(f.mkLoad(f.mkFA(f.mkFA(R, "n", nil), fl, nil), nil)) == f.mkSel(rn, fl, nil)
				}
			}
			r.Check(same, "read-data", "the buffered node has the data of the stored one", at, "the data of the node is %s", n)
			nt := st.Resolve(f.field(R, "newTerminal"))
			r.Check(nt == f.mkSel(rn, "Terminal", nil), "read-terminal", "the next terminal of a stored node is its terminal", at, "it is %s", nt)
			k := st.Resolve(f.field(R, "unpackedKey"))
			r.Check(k == key || f.isCopyOf(st, k, key), "read-node-key", "the node knows its key", at, "the key of the node is %s", k)
			buf := false
			for _, m := range st.Events("mapset") {
				buf = buf || st.Resolve(m.Args[0]) == cache && skey(f, st, m.Args[1]) && st.Resolve(m.Args[2]) == R
			}
			r.Check(buf, "read-buffered", "a node read from the store is buffered, so changes to it are kept", at, "the node is not put into the buffer under its key")
		default:
			// the answer of the store, or of the buffer, is passed on
			r.Bad("overlay-known", "presence of the node is known on each path", at, "presence is %s", ok)
		}
	})
	for _, k := range []string{"absent", "buffered", "stored"} {
		r.Check(kinds[k] > 0, "overlay-kinds", k, w.FuncPos(fn), "no return of this kind was found")
	}
}

func (r *Report) clearRule() {
	w := r.W
	fn := w.Must("trie", "Trie.ClearCache")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll})
	sc := f.mkSel(f.Param(0), "nodeStore", nil)
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st := e.P.St
		for _, n := range []string{"nodeCache", "deleted"} {
			m := f.field(sc, n)
			ok := false
			for _, s := range st.Events("store") {
				if s.Args[0] == f.mkFA(sc, n, nil) && st.Resolve(s.Args[1]).Op == "makemap" {
					ok = true
				}
			}
			// the structure as a whole is replaced, or all keys are deleted in a loop over the map
			if v := st.Resolve(m); v.Op == "makemap" {
				ok = true
			}
			for _, c := range st.Events("call") {
				if c.Args[0].CallName() == "builtin.clear" && st.Resolve(c.Args[0].Args[0]) == m {
					ok = true
				}
			}
			for _, l := range f.Loops() {
				if l.Kind == "map" && st.Resolve(l.Coll) == m && st.loopDone(f, l) && len(l.Exits) == 0 {
					all, k := true, 0
					f.AtBackEdges(l, func(q *Point) {
						k++
						d := false
						for _, x := range q.St.Events("mapdel") {
							d = d || q.St.Resolve(x.Args[0]) == m && x.Args[1] == l.Key
						}
						all = all && d
					})
					ok = ok || all && k > 0
				}
			}
			r.Check(ok, "clear-all", n+" is emptied", e.P.Where(), "the buffer %s may keep entries", n)
		}
	})
	r.Min("clear-all", 2)
}

// bufferDisjoint: along each path of an update, keys which enter the buffer leave the set of deleted ones and vice versa
func (r *Report) bufferDisjoint(name string) {
	w := r.W
	fn := w.Must("trie", name)
	ordered := func(p *Point) {
		f, st := p.F, p.St
		mark := func(m, k *Term, add bool) {
			k = bytesOf(st, k)
			var in, out string
			switch {
			case selOf(m, "deleted") || isFieldMap(m, "deleted"):
				in, out = "D+", "D-"
			case selOf(m, "nodeCache") || isFieldMap(m, "nodeCache"):
				in, out = "C+", "C-"
			default:
				return
			}
			if !add {
				in, out = out, in
			}
			for _, e := range st.Events(out) {
				if e.Args[0] == k {
					delete(st.facts, e.Key)
				}
			}
			st.AddEvent(in, k)
		}
		switch in := p.Instr.(type) {
		case *ssa.MapUpdate:
			mark(p.T(in.Map), p.T(in.Key), true)
		case *ssa.Call:
			c := in.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				if b.Name() == "delete" {
					mark(p.T(c.Args[0]), p.T(c.Args[1]), false)
				}
				return
			}
			if n := f.callName(p.Ctx, c); n == fnGetNode {
				st.AddEvent("got", f.term(p.Ctx, in), bytesOf(st, f.term(p.Ctx, c.Args[1])))
			}
		}
	}
	f := r.Flow(fn, FlowOpt{Transfer: ordered, Split: splitAll, NoInline: byName(fnGetNode, fnEncode, "trie.proofPath", "trie.UnpackBytes", "trie.Concat", "(*trie.Trie).checkReorg")})
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st := e.P.St
		has := func(ev string, k *Term) bool {
			for _, x := range st.Events(ev) {
				if x.Args[0] == k || st.True(f.mkEq(x.Args[0], k)) {
					return true
				}
			}
			return false
		}
		for _, c := range st.Events("C+") {
			k := c.Args[0]
			if ofNil(k) {
				continue
			}
			n++
			ok := has("D-", k)
			if !ok && !has("D+", k) {
				for _, g := range st.Events("got") {
					ok = ok || g.Args[1] == k && st.True(f.intern("res", "1", nil, g.Args[0]))
				}
			}
			r.Check(ok, "buffer-undeleted", name+": a node which enters the buffer is not marked as deleted", e.P.Where(), "the key %s may be marked as deleted", k)
		}
		for _, d := range st.Events("C-") {
			if k := d.Args[0]; !ofNil(k) {
				n++
				r.Check(has("D+", k), "buffer-marked", name+": a node which leaves the buffer is marked as deleted", e.P.Where(), "the node with the key %s may come back from the store", k)
			}
		}
		for _, d := range st.Events("D+") {
			k := d.Args[0]
			if ofNil(k) {
				continue
			}
			n++
			r.Check(has("C-", k), "buffer-removed", name+": a node which is marked as deleted leaves the buffer", e.P.Where(), "the node with the key %s may still be buffered", k)
		}
	})
	r.Check(n > 0, "buffer-undeleted", name+": buffered keys", w.FuncPos(fn), "no change of the buffer was found")
}

// ofNil: the term is a field of a nil pointer, so the path is not taken
func ofNil(t *Term) bool {
	return t.Any(func(x *Term) bool {
		return (x.Op == "sel" || x.Op == "fa") && x.Args[0].IsNil()
	})
}

func isFieldMap(m *Term, field string) bool {
	for m != nil && (m.Op == "ld" || m.Op == "conv") && len(m.Args) == 1 {
		m = m.Args[0]
	}
	return m != nil && (m.Op == "fa" || m.Op == "sel") && m.Name == field
}
