package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C26"] = checkDef{run: runC26,
		explanation: "Data-flow analysis of Update and Delete with the walk to the key, the copying of nodes and the reorganization test kept abstract: on every path, classified by the ending of the walk, the nodes which are put into the buffer, their keys, path fragments, terminals and children, and the nodes marked as deleted are exactly those of the case: new root, replaced terminal, new leaf under a free child, or a node split behind the common prefix with its content moved below; after a deletion the last node and then its parent are tested, removed or merged with the only child, and the replaced nodes are marked as deleted. The test itself counts exactly the children which will have a commitment and orders removal, merging or nothing for none, one with no terminal, and otherwise."}
}

func (w *World) constOf(pkg, name string) (int64, bool) {
	p := w.Pkgs[pkg]
	if p == nil {
		return 0, false
	}
	c, ok := p.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(c.Val()))
}

func runC26(r *Report) {
	r.insertRule()
	r.deleteRule()
	r.reorgRule()
	r.hasCommitmentRule()
}

const (
	fnProofPath = "trie.proofPath"
	fnClone     = "(*trie.bufferedNode).Clone"
	fnReorg     = "(*trie.Trie).checkReorg"
	fnToValue   = "(*trie.Trie).commitToValue"
	fnUnpack    = "trie.UnpackBytes"
)

// walkTerms: the terms of the walk to the key
type walkTerms struct {
	f                   *Flow
	call, P, CP, ending *Term
	UK                  *Term
	lastKey, prevKey    *Term
}

func walkOf(f *Flow, st *State) *walkTerms {
	for _, c := range st.Events("call") {
		t := c.Args[0]
		if t.CallName() != fnProofPath || len(t.Args) != 2 {
			continue
		}
		x := &walkTerms{f: f, call: t, P: f.intern("res", "0", nil, t), CP: f.intern("res", "1", nil, t), ending: f.intern("res", "2", nil, t), UK: st.Resolve(t.Args[1])}
		x.lastKey = f.mkIdx(x.P, f.plus(f.mkLen(x.P), -1), nil)
		x.prevKey = f.mkIdx(x.P, f.plus(f.mkLen(x.P), -2), nil)
		return x
	}
	return nil
}

func (x *walkTerms) pos() *Term { return x.f.sum(x.f.mkLen(x.lastKey), x.f.mkLen(x.CP)) }

// node fetched for a key
func (x *walkTerms) isNode(st *State, n, key *Term) bool {
	n = st.Resolve(n)
	return n.Op == "res" && n.Name == "0" && n.Args[0].CallName() == fnGetNodeB && st.Resolve(n.Args[0].Args[1]) == key
}

// which of the nodes on the path it is
func (x *walkTerms) which(st *State, n *Term) string {
	switch {
	case x.isNode(st, n, x.lastKey):
		return "last"
	case x.isNode(st, n, x.prevKey):
		return "prev"
	}
	return ""
}

func nodePF(f *Flow, n *Term) *Term {
	return f.mkLoad(f.mkFA(f.mkFA(n, "n", nil), "PathFragment", nil), nil)
}

// node and field of the address of a field of a buffered node
func nodeField(a *Term) (n *Term, field string) {
	if a.Op != "fa" {
		return nil, ""
	}
	if a.Args[0].Op == "fa" && a.Args[0].Name == "n" {
		return a.Args[0].Args[0], "n." + a.Name
	}
	return a.Args[0], a.Name
}

func shapeOpaque(extra ...string) func(*ssa.Function) bool {
	return byName(append([]string{fnGetNodeB, fnEncode, fnProofPath, fnUnpack, "trie.Concat", fnReorg, fnToValue, fnClone}, extra...)...)
}

func (f *Flow) isNewNode(x *Term) bool { return x.Op == "alloc" }

func (r *Report) insertRule() {
	w := r.W
	fn := w.Must("trie", "Trie.Update")
	set := func(st *State, prefix string, names ...string) {
		for _, n := range []string{"c", "nil", "other"} {
			st.DelEvents(prefix + n)
		}
		for _, n := range names {
			st.AddEvent(prefix + n)
		}
	}
	tr := func(p *Point) {
		defer trace(p)
		f, st := p.F, p.St
		x := walkOf(f, st)
		if x == nil {
			return
		}
		switch in := p.Instr.(type) {
		case *ssa.Store:
			n, fl := nodeField(p.T(in.Addr))
			if n == nil {
				return
			}
			v := p.T(in.Val)
			switch {
			case x.which(st, n) == "last":
				oldPF := nodePF(f, n)
				_ = oldPF
				switch fl {
				case "newTerminal":
					switch {
					case v.CallName() == fnToValue:
						set(st, "term:", "c")
					case v.IsNil():
						set(st, "term:", "nil")
					default:
						set(st, "term:", "other")
					}
				case "n.PathFragment":
					if v == x.CP || f.isCopyOf(st, v, x.CP) {
						st.AddEvent("pf:common")
					} else {
						st.AddEvent("changed:path fragment")
					}
					st.AddEvent("structure")
				case "n.ChildCommitments", "modifiedChildren":
					if v.Op == "makemap" {
						st.AddEvent("fresh:" + fl)
						if fl == "modifiedChildren" {
							st.DelEvents("mark:cont")
						}
					} else {
						st.AddEvent("changed:" + fl)
					}
					st.AddEvent("structure")
				case "n.Terminal":
					if v.IsNil() {
						st.AddEvent("committed:nil")
					} else {
						st.AddEvent("changed:terminal")
					}
					st.AddEvent("structure")
				case "unpackedKey":
					if st.Resolve(v) != x.lastKey {
						st.AddEvent("changed:key")
					}
				}
			case n.CallName() == fnClone && x.which(st, n.Args[0]) == "last":
				N := st.Resolve(n.Args[0])
				pf := nodePF(f, N)
				s := f.mkLen(x.CP)
				switch fl {
				case "unpackedKey":
					st.DelEvents("mv:key")
					if f.isPrefixPlus(st, v, x.UK, x.pos(), f.mkIdx(pf, s, nil)) {
						st.AddEvent("mv:key")
					}
				case "n.PathFragment":
					st.DelEvents("mv:pf")
					if v.Op == "slice" && v.Args[0] == pf && st.EQ(v.Args[1], f.plus(s, 1)) && (v.Args[2] == f.mkLen(pf) || st.EQ(v.Args[2], f.mkLen(pf))) {
						st.AddEvent("mv:pf")
					}
				case "pathChanged":
				default:
					st.AddEvent("changed:moved node")
				}
			}
		case *ssa.MapUpdate:
			m, k, v := p.T(in.Map), p.T(in.Key), p.T(in.Value)
			switch {
			case selOf(m, "nodeCache") && v.CallName() == fnClone:
				if bytesOf(st, k) == f.field(v, "unpackedKey") || bytesOf(st, k) == st.Resolve(f.field(v, "unpackedKey")) {
					st.AddEvent("mv:insert")
				}
			case selOf(m, "modifiedChildren"):
				for n := m; len(n.Args) > 0; n = n.Args[0] {
					if x.which(st, n) == "last" {
						if stripConv(k) == f.mkIdx(nodePF(f, n), f.mkLen(x.CP), nil) {
							st.AddEvent("mark:cont")
						}
						break
					}
				}
			case selOf(m, "deleted") || isFieldMap(m, "deleted"):
				// an existing node must not go; a key which is used by a new node is undeleted, see C16
			}
		}
	}
	f := r.Flow(fn, FlowOpt{Transfer: tr, Split: splitAll, NoInline: shapeOpaque("(*trie.Trie).Delete")})
	eT, ok1 := w.constOf("trie", "EndingTerminal")
	eE, ok2 := w.constOf("trie", "EndingExtend")
	eS, ok3 := w.constOf("trie", "EndingSplit")
	if !r.Check(ok1 && ok2 && ok3, "insert-cases", "endings", w.FuncPos(fn), "the constants of the endings were not found") {
		return
	}
	kinds := map[string]int{}
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		x := walkOf(f, st)
		if x == nil {
			// deletion
			ok := false
			for _, c := range st.Events("call") {
				ok = ok || c.Args[0].CallName() == "(*trie.Trie).Delete" && c.Args[0].Args[1] == f.Param(1)
			}
			r.Check(ok, "insert-delete", "a value which is not committed to deletes the key", at, "nothing is done")
			kinds["delete"]++
			return
		}
		has := func(ev string) bool { return st.HasEvent(ev) }
		// new nodes in the buffer
		type nw struct{ node, key *Term }
		var news []nw
		moved := 0
		for _, m := range st.Events("mapset") {
			mm := m.Args[0]
			if !selOf(mm, "nodeCache") && !isFieldMap(mm, "nodeCache") {
				continue
			}
			v := st.Resolve(m.Args[2])
			switch {
			case v.CallName() == fnClone:
				moved++
			case v.Op == "alloc":
				news = append(news, nw{v, bytesOf(st, m.Args[1])})
			default:
				r.Bad("insert-nodes", "nodes are new or moved", at, "the node %s is buffered", v)
			}
		}
		// a node for the rest of the key after n elements
		leaf := func(x1 nw, n *Term) bool {
			pf := st.Resolve(nodePF(f, x1.node))
			t := st.Resolve(f.field(x1.node, "newTerminal"))
			key := st.Resolve(f.field(x1.node, "unpackedKey"))
			keyOK := func(k *Term) bool {
				if z, isC := n.Int(); isC && z == 0 {
					return emptyBytes(f, st, k)
				}
				return f.isSlice(st, k, x.UK, f.constInt(0, nil), n)
			}
			return t.CallName() == fnToValue && keyOK(key) && keyOK(x1.key) && f.isSlice(st, pf, x.UK, n, f.mkLen(x.UK))
		}
		c := func(s string) string { return s }
		changed := ""
		for _, s := range []string{"path fragment", "n.ChildCommitments", "modifiedChildren", "terminal", "key", "moved node"} {
			if has("changed:" + s) {
				changed = s
			}
		}
		r.Check(changed == "", "insert-keeps", "existing nodes keep their content", at, "%s of an existing node is changed", changed)
		end := func(c int64) bool { return st.EQ(x.ending, f.constInt(c, nil)) }
		n1 := f.plus(x.pos(), 1)
		switch {
		case st.LE(f.mkLen(x.P), f.constInt(0, nil), 0):
			kinds["root"]++
			r.Check(len(news) == 1 && moved == 0 && leaf(news[0], f.constInt(0, nil)), "insert-root", c("the first key becomes the root, with the whole key as path fragment"), at, "new nodes: %d", len(news))
		case end(eT):
			kinds["terminal"]++
			r.Check(len(news) == 0 && moved == 0 && !has("structure"), "insert-terminal", "only the terminal of an existing key is replaced", at, "other changes are made")
			r.Check(has("term:c") || x.samePending(st), "insert-terminal", "the terminal of an existing key is replaced", at, "the node of the key does not get the new terminal")
		case end(eE):
			kinds["extend"]++
			ok := len(news) == 1 && moved == 0 && !has("structure") && !has("term:c") && !has("term:nil") && !has("term:other")
			r.Check(ok && leaf(news[0], n1), "insert-extend", "a free child gets a new node with the rest of the key", at, "the new node does not hold exactly the rest of the key, or the last node is changed")
		case end(eS):
			kinds["split"]++
			r.Check(has("pf:common"), "split-fragment", "the node which is split keeps the common prefix", at, "its path fragment is not the common prefix")
			r.Check(has("fresh:n.ChildCommitments") && has("fresh:modifiedChildren") && has("committed:nil"), "split-empty", "the node which is split has no old content", at, "children or terminal of the node which is split stay")
			r.Check(moved == 1 && has("mv:insert"), "split-moved", "the old content is moved to a new node below", at, "no copy of the node is put into the buffer under its key")
			r.Check(has("mv:key"), "split-key", "key of the moved node", at, "the key of the moved node is not the common part of the key and the next element of the path fragment")
			r.Check(has("mv:pf"), "split-rest", "path fragment of the moved node", at, "it is not the rest of the path fragment")
			r.Check(has("mark:cont"), "split-mark", "the moved node is a child of the node which is split", at, "it is not marked as a modified child")
			atEnd := st.EQ(x.pos(), f.mkLen(x.UK))
			notEnd := st.NE(x.pos(), f.mkLen(x.UK)) || st.LE(x.pos(), f.mkLen(x.UK), -1)
			switch {
			case atEnd:
				kinds["split-here"]++
				r.Check(len(news) == 0 && has("term:c"), "split-terminal", "a key which ends at the fork is stored there", at, "new nodes: %d", len(news))
			case notEnd:
				kinds["split-fork"]++
				r.Check(len(news) == 1 && leaf(news[0], n1) && has("term:nil"), "split-fork", "a key which goes on behind the fork gets a new node with the rest of the key", at, "the new node does not hold exactly the rest of the key, or the fork has a terminal")
			default:
				r.Bad("split-case", "it is known where the key ends", at, "it is not known whether the key ends at the fork")
			}
		default:
			r.Bad("insert-cases", "the ending of the walk is known on each path", at, "the ending is not known")
		}
	})
	for _, k := range []string{"delete", "root", "terminal", "extend", "split", "split-here", "split-fork"} {
		r.Check(kinds[k] > 0, "insert-cases", "case "+k, w.FuncPos(fn), "no path for this case was found")
	}
}

// isSlice: the value is the part lo..hi of the base, or a copy of it
func (f *Flow) isSlice(st *State, v, base, lo, hi *Term) bool {
	v = st.Resolve(v)
	same := func(a, b *Term) bool { return a == b || st.EQ(a, b) }
	if v.Op == "slice" && v.Args[0] == base {
		return same(v.Args[1], lo) && same(v.Args[2], hi)
	}
	if v == base {
		z, isC := lo.Int()
		return isC && z == 0 && same(hi, f.mkLen(base))
	}
	if v.Op == "append" && len(v.Args) == 2 && emptyBytes(f, st, st.Resolve(v.Args[0])) {
		return f.isSlice(st, v.Args[1], base, lo, hi)
	}
	if v.Op == "makeslice" {
		for _, c := range st.Events("copy") {
			if c.Args[0] == v && same(f.mkLen(v), f.subT(hi, lo)) {
				s := st.Resolve(c.Args[1])
				if s == base || s.Op == "slice" && s.Args[0] == base {
					z := f.constInt(0, nil)
					if s.Op == "slice" {
						z = s.Args[1]
					}
					return same(z, lo)
				}
			}
		}
	}
	return false
}

// isPrefixPlus: the value is the first n elements of the base followed by the element
func (f *Flow) isPrefixPlus(st *State, v, base, n, elem *Term) bool {
	v = st.Resolve(v)
	if ps := f.concatParts(st, v); len(ps) >= 2 {
		last := ps[len(ps)-1]
		if stripConv(last) != elem {
			return false
		}
		if len(ps) == 2 {
			return f.isSlice(st, ps[0], base, f.constInt(0, nil), n)
		}
		return false
	}
	if b := f.baseOf(st, v); b.Op == "makeslice" && st.EQ(f.mkLen(v), f.plus(n, 1)) {
		cp, sl := false, false
		for _, c := range st.Events("copy") {
			if f.baseOf(st, c.Args[0]) == b {
				d := c.Args[0]
				lo := f.constInt(0, nil)
				if d.Op == "slice" {
					lo = d.Args[1]
				}
				s := st.Resolve(c.Args[1])
				cp = lo.IsConst("0") && (s == base || s.Op == "slice" && s.Args[0] == base && s.Args[1].IsConst("0") && (st.EQ(s.Args[2], n) || st.LE(n, s.Args[2], 0)))
			}
		}
		for _, e := range st.Events("slot") {
			if e.Args[0] == b && st.EQ(e.Args[1], n) {
				sl = stripConv(st.Resolve(e.Args[2])) == elem
			}
		}
		return cp && sl
	}
	return false
}

func (r *Report) deleteRule() {
	w := r.W
	fn := w.Must("trie", "Trie.Delete")
	vRemove, ok1 := w.constOf("trie", "nodeReorgRemove")
	vMerge, ok2 := w.constOf("trie", "nodeReorgMerge")
	vNOP, ok3 := w.constOf("trie", "nodeReorgNOP")
	if !r.Check(ok1 && ok2 && ok3, "delete-cases", "reorganizations", w.FuncPos(fn), "the constants of the reorganizations were not found") {
		return
	}
	eT, _ := w.constOf("trie", "EndingTerminal")
	// the key of the only child of a node of the path
	nextKey := func(f *Flow, st *State, x *walkTerms, t *Term) (which string, idx *Term) {
		for _, wh := range []string{"last", "prev"} {
			for _, e := range st.Events("nextkey:" + wh) {
				if e.Args[0] == t {
					return wh, e.Args[1]
				}
			}
		}
		return "", nil
	}
	tr := func(p *Point) {
		f, st := p.F, p.St
		x := walkOf(f, st)
		if x != nil {
			switch in := p.Instr.(type) {
			case *ssa.Call:
				name := f.callName(p.Ctx, in.Common())
				switch name {
				case "trie.Concat":
					t := f.term(p.Ctx, in)
					ps := f.concatParts(st, t)
					if len(ps) == 3 {
						for _, wh := range []string{"last", "prev"} {
							k := x.lastKey
							if wh == "prev" {
								k = x.prevKey
							}
							n := pfOwner(f, ps[1])
							if n != nil && x.which(st, n) == wh && (ps[0] == k || ps[0] == f.field(n, "unpackedKey")) {
								st.AddEvent("nextkey:"+wh, t, stripConv(ps[2]))
							}
							// path fragment of the merged node
							n2 := pfOwner(f, ps[2])
							if n != nil && n2 != nil && x.which(st, n) == wh && n2.Op == "res" && n2.Args[0].CallName() == fnGetNodeB {
								if wh2, idx := nextKey(f, st, x, st.Resolve(n2.Args[0].Args[1])); wh2 == wh && idx == stripConv(ps[1]) {
									st.AddEvent("mergedpf:"+wh, t)
								}
							}
						}
						// fragment, index, fragment
						n, n2 := pfOwner(f, ps[0]), pfOwner(f, ps[2])
						if n != nil && n2 != nil && n2.Op == "res" && n2.Args[0].CallName() == fnGetNodeB {
							wh := x.which(st, n)
							if wh2, idx := nextKey(f, st, x, st.Resolve(n2.Args[0].Args[1])); wh != "" && wh2 == wh && idx == stripConv(ps[1]) {
								st.AddEvent("mergedpf:"+wh, t)
							}
						}
					}
				case fnReorg:
					t := f.term(p.Ctx, in)
					wh := x.which(st, t.Args[1])
					if wh == "last" && !st.HasEvent("term:nil") {
						break
					}
					if wh == "prev" && !st.HasEvent("del:last") {
						break
					}
					if wh != "" {
						st.AddEvent("reorg:"+wh, t)
					}
				}
			case *ssa.Store:
				n, fl := nodeField(p.T(in.Addr))
				v := p.T(in.Val)
				if n == nil {
					break
				}
				if wh := x.which(st, n); wh != "" {
					switch {
					case wh == "last" && fl == "newTerminal" && v.IsNil():
						st.AddEvent("term:nil")
					case fl == "pathChanged":
					case fl == "modifiedChildren" || fl == "newTerminal" || fl == "n.PathFragment" || fl == "n.ChildCommitments" || fl == "n.Terminal" || fl == "unpackedKey":
						st.AddEvent("changed")
					}
				}
				if n.CallName() == fnClone {
					src := st.Resolve(n.Args[0])
					if src.Op == "res" && src.Args[0].CallName() == fnGetNodeB {
						wh, _ := nextKey(f, st, x, st.Resolve(src.Args[0].Args[1]))
						if wh == "" {
							break
						}
						k := x.lastKey
						if wh == "prev" {
							k = x.prevKey
						}
						switch fl {
						case "unpackedKey":
							st.DelEvents("mg:key:" + wh)
							if v == k {
								st.AddEvent("mg:key:" + wh)
							}
						case "n.PathFragment":
							st.DelEvents("mg:pf:" + wh)
							for _, e := range st.Events("mergedpf:" + wh) {
								if e.Args[0] == v {
									st.AddEvent("mg:pf:" + wh)
								}
							}
						case "pathChanged":
						default:
							st.AddEvent("changed")
						}
					}
				}
			case *ssa.MapUpdate:
				m, k, v := p.T(in.Map), bytesOf(st, p.T(in.Key)), p.T(in.Value)
				switch {
				case selOf(m, "deleted") || isFieldMap(m, "deleted"):
					wh, _ := nextKey(f, st, x, k)
					switch {
					case k == x.lastKey:
						st.AddEvent("del:last")
					case wh != "":
						st.AddEvent("mg:del:" + wh)
					default:
						st.AddEvent("del:other")
					}
				case selOf(m, "nodeCache") || isFieldMap(m, "nodeCache"):
					ok := false
					if v.CallName() == fnClone {
						src := st.Resolve(v.Args[0])
						if src.Op == "res" && src.Args[0].CallName() == fnGetNodeB {
							wh, _ := nextKey(f, st, x, st.Resolve(src.Args[0].Args[1]))
							kk := x.lastKey
							if wh == "prev" {
								kk = x.prevKey
							}
							if wh != "" && (k == kk || k == f.field(v, "unpackedKey") && st.HasEvent("mg:key:"+wh)) {
								st.AddEvent("mg:set:" + wh)
								ok = true
							}
						}
					}
					if !ok {
						st.AddEvent("set:other")
					}
				}
			}
		}
		trace(p)
	}
	f := r.Flow(fn, FlowOpt{Transfer: tr, Split: splitAll, NoInline: shapeOpaque()})
	reorgFn := w.Must("trie", "Trie.checkReorg")
	kinds := map[string]int{}
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		x := walkOf(f, st)
		if x == nil {
			r.Bad("delete-cases", "the path to the key is known", at, "the path to the key is not computed")
			return
		}
		if f.noSuchResult(st, reorgFn, 0) {
			return
		}
		has := func(ev string) bool { return st.HasEvent(ev) }
		touched := has("del:last") || has("del:other") || has("set:other") || has("changed") || has("term:nil") || has("mg:set:last") || has("mg:set:prev")
		absent := st.LE(f.mkLen(x.P), f.constInt(0, nil), 0) || st.NE(x.ending, f.constInt(eT, nil))
		for _, c := range st.Events("call") {
			if t := c.Args[0]; t.CallName() == fnGetNodeB && st.Resolve(t.Args[1]) == x.lastKey && st.False(f.intern("res", "1", nil, t)) {
				absent = true
			}
		}
		if !has("term:nil") {
			kinds["absent"]++
			r.Check(absent, "delete-all", "a key which is there is deleted", at, "the terminal of the key may stay")
			r.Check(!touched, "delete-none", "nothing is changed if the key is not there", at, "something is changed")
			return
		}
		r.Check(st.EQ(x.ending, f.constInt(eT, nil)), "delete-none", "only the terminal of the key itself is deleted", at, "the path may not end at the key")
		r.Check(!has("set:other") && !has("del:other") && !has("changed"), "delete-keeps", "other nodes are kept as they are", at, "other nodes are changed: buffered %t, deleted %t, content %t", has("set:other"), has("del:other"), has("changed"))
		re := func(wh string) (v, idx *Term) {
			for _, e := range st.Events("reorg:" + wh) {
				return f.intern("res", "0", nil, e.Args[0]), f.intern("res", "1", nil, e.Args[0])
			}
			return nil, nil
		}
		merged := func(wh string, idx *Term) (bool, string) {
			okI := false
			for _, e := range st.Events("nextkey:" + wh) {
				okI = okI || e.Args[1] == idx
			}
			why := fmt.Sprintf("child: %t, key: %t, path fragment: %t, put in place of the node: %t, child removed: %t", okI, has("mg:key:"+wh), has("mg:pf:"+wh), has("mg:set:"+wh), has("mg:del:"+wh))
			return okI && has("mg:key:"+wh) && has("mg:pf:"+wh) && has("mg:set:"+wh) && has("mg:del:"+wh), why
		}
		noMerge := func(wh string) bool { return !has("mg:set:"+wh) && !has("mg:del:"+wh) }
		v, idx := re("last")
		if !r.Check(v != nil, "delete-test", "the last node is tested after its terminal is gone", at, "it is not tested whether the last node is to be removed or merged") {
			return
		}
		is := func(v *Term, c int64) bool { return st.EQ(v, f.constInt(c, nil)) }
		switch {
		case is(v, vNOP):
			kinds["keep"]++
			r.Check(noMerge("last") && noMerge("prev") && !has("del:last"), "delete-keep", "a node which is still needed stays", at, "it is removed or merged")
		case is(v, vMerge):
			kinds["merge"]++
			ok, why := merged("last", idx)
			r.Check(ok && noMerge("prev") && !has("del:last"), "delete-merge", "the last node is merged with its only child", at, "%s", why)
		case is(v, vRemove):
			r.Check(has("del:last"), "delete-remove", "a node which commits to nothing is removed", at, "the last node stays")
			if st.LE(f.mkLen(x.P), f.constInt(1, nil), 0) {
				kinds["root"]++
				r.Check(noMerge("prev"), "delete-keep", "nothing to merge above the root", at, "something is merged")
				return
			}
			v2, idx2 := re("prev")
			if !r.Check(v2 != nil, "delete-parent", "the parent is tested after the last node is removed", at, "it is not tested whether the parent is to be merged") {
				return
			}
			switch {
			case is(v2, vMerge):
				kinds["merge-parent"]++
				ok, why := merged("prev", idx2)
				r.Check(ok, "delete-merge", "the parent is merged with its only child", at, "%s", why)
			case st.NE(v2, f.constInt(vMerge, nil)):
				kinds["keep-parent"]++
				r.Check(noMerge("prev"), "delete-keep", "a parent which is still needed stays", at, "it is merged")
			default:
				r.Bad("delete-parent", "the result of the test of the parent is known", at, "it is not known")
			}
		default:
			r.Bad("delete-test", "the result of the test of the last node is known", at, "it is not known")
		}
	})
	for _, k := range []string{"absent", "keep", "merge", "root", "merge-parent", "keep-parent"} {
		r.Check(kinds[k] > 0, "delete-cases", "case "+k, w.FuncPos(fn), "no path for this case was found")
	}
}

// pfOwner: the node whose path fragment the value is
func pfOwner(f *Flow, t *Term) *Term {
	if t.Op == "sel" && t.Name == "PathFragment" && t.Args[0].Op == "fa" && t.Args[0].Name == "n" {
		return t.Args[0].Args[0]
	}
	if t.Op == "ld" && t.Args[0].Op == "fa" && t.Args[0].Name == "PathFragment" && t.Args[0].Args[0].Op == "fa" && t.Args[0].Args[0].Name == "n" {
		return t.Args[0].Args[0].Args[0]
	}
	return nil
}

// childKeyOf: the value is the key of the child of the node
func (f *Flow) childKeyOf(st *State, t, n, idx *Term) bool {
	ps := f.concatParts(st, t)
	return len(ps) == 3 && ps[0] == f.field(n, "unpackedKey") && ps[1] == nodePF(f, n) && stripConv(ps[2]) == stripConv(idx)
}

func (r *Report) reorgRule() {
	w := r.W
	fn := w.Must("trie", "Trie.checkReorg")
	has := w.Must("trie", "Trie.hasCommitment")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: func(g *ssa.Function) bool { return g == has || fname(g) == "trie.Concat" }})
	n := f.Param(1)
	vRemove, _ := w.constOf("trie", "nodeReorgRemove")
	vMerge, _ := w.constOf("trie", "nodeReorgMerge")
	vNOP, _ := w.constOf("trie", "nodeReorgNOP")
	children := f.mkLoad(f.mkFA(f.mkFA(n, "n", nil), "ChildCommitments", nil), nil)
	modified := f.field(n, "modifiedChildren")
	hasC := fname(has)
	// the set of the children which will have a commitment
	type cand struct {
		S                *Term
		lc, lm           *Loop
		onlyUnmodified   bool
		okC, okM, delsOK bool
		whyC, whyM       string
	}
	sets := map[*Term]*cand{}
	f.Visit(func(p *Point) {
		if mu, ok := p.Instr.(*ssa.MapUpdate); ok {
			m := p.T(mu.Map)
			if m.Op == "makemap" && sets[m] == nil {
				sets[m] = &cand{S: m}
			}
		}
	}, nil)
	for _, c := range sets {
		for _, l := range f.Loops() {
			if l.Kind != "map" {
				continue
			}
			switch l.Coll {
			case children:
				c.lc, c.okC, c.onlyUnmodified = l, true, true
				k := 0
				f.AtBackEdges(l, func(q *Point) {
					k++
					st := q.St
					set := false
					for _, m := range st.Events("mapset") {
						set = set || m.Args[0] == c.S && m.Args[1] == l.Key
					}
					mod := 0
					for _, cd := range st.Conds() {
						if t := cd.Cond; t.Op == "lookupok" && t.Args[0] == modified && stripConv(t.Args[1]) == stripConv(l.Key) {
							mod = st.Eval(t)
						}
					}
					if !set && mod != 1 {
						c.okC, c.whyC = false, "a child which is committed may not be counted (end of the loop body at "+q.Where()+")"
					}
					if set && mod != -1 {
						c.onlyUnmodified = false
					}
				})
				c.okC = c.okC && k > 0
			case modified:
				c.lm, c.okM = l, true
				k := 0
				f.AtBackEdges(l, func(q *Point) {
					k++
					st := q.St
					h, hv := false, 0
					for _, ev := range st.Events("call") {
						if t := ev.Args[0]; t.CallName() == hasC && f.childKeyOf(st, t.Args[1], n, l.Key) {
							h, hv = true, st.Eval(t)
						}
					}
					set, del := false, false
					for _, m := range st.Events("mapset") {
						set = set || m.Args[0] == c.S && m.Args[1] == l.Key
					}
					for _, m := range st.Events("mapdel") {
						del = del || m.Args[0] == c.S && m.Args[1] == l.Key
					}
					after := c.lc != nil && st.loopDone(f, c.lc)
					switch {
					case !h || hv == 0:
						c.okM, c.whyM = false, "it is not known whether the modified child will have a commitment"
					case hv == 1 && !set:
						c.okM, c.whyM = false, "a modified child with a commitment may not be counted"
					case hv == -1 && set:
						c.okM, c.whyM = false, "a modified child without a commitment may be counted"
					case hv == -1 && !(del && after) && !c.onlyUnmodified:
						c.okM, c.whyM = false, "a modified child without a commitment may still be counted"
					}
				})
				c.okM = c.okM && k > 0
			}
		}
	}
	kinds := map[string]int{}
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		v := st.Resolve(e.Results[0])
		i, isC := v.Int()
		if !r.Check(isC, "reorg-known", "the result is known on each path", at, "the result is %s", v) {
			return
		}
		nt := f.field(n, "newTerminal")
		hasTerm, noTerm := st.False(f.mkEq(nt, f.constNil())), st.True(f.mkEq(nt, f.constNil()))
		if i == vNOP && hasTerm {
			kinds["terminal"]++
			return
		}
		if i != vNOP {
			r.Check(noTerm, "reorg-terminal", "a node with a terminal is neither removed nor merged", at, "the node may have a terminal")
		}
		ok, why := false, "the children are not counted"
		for _, c := range sets {
			n := f.mkLen(c.S)
			if c.lc == nil || c.lm == nil || !f.loopCovered(st, c.lc) || !f.loopCovered(st, c.lm) {
				continue
			}
			// the first element of a set which is not empty exists
			if st.LE(f.constInt(1, nil), n, 0) && !f.collIsLoop(c.S) {
				imp := false
				for _, cd := range st.Conds() {
					imp = imp || !cd.Pos && cd.Cond.Op == "rok" && f.RangeOf(cd.Cond.Args[0]) == c.S
				}
				if imp {
					return
				}
			}
			if !c.okC || !c.okM {
				why = c.whyC + c.whyM
				continue
			}
			switch i {
			case vRemove:
				ok, why = st.LE(n, f.constInt(0, nil), 0), "there may be children"
			case vMerge:
				idx := st.Resolve(e.Results[1])
				k := stripConv(idx)
				isKey := k.Op == "rkey" && f.RangeOf(k.Args[0]) == c.S
				ok, why = st.EQ(n, f.constInt(1, nil)) && isKey, "there may be more than one child, or the child is another one"
			case vNOP:
				ok, why = st.LE(f.constInt(2, nil), n, 0) || st.NE(n, f.constInt(0, nil)) && st.NE(n, f.constInt(1, nil)), "there may be less than two children"
			}
			if ok {
				break
			}
		}
		kinds[fmt.Sprint(i)]++
		r.Check(ok, "reorg-count", fmt.Sprintf("result %d fits the number of children", i), at, "%s", why)
	})
	r.Check(kinds["terminal"] > 0 && kinds[fmt.Sprint(vRemove)] > 0 && kinds[fmt.Sprint(vMerge)] > 0 && kinds[fmt.Sprint(vNOP)] > 0, "reorg-count", "all results", w.FuncPos(fn), "not all of the results are found")
}

// collIsLoop: a loop which may go on runs over the map
func (f *Flow) collIsLoop(m *Term) bool {
	for _, l := range f.Loops() {
		if l.Kind == "map" && l.Coll == m {
			return true
		}
	}
	return false
}

func (r *Report) hasCommitmentRule() {
	w := r.W
	fn := w.Must("trie", "Trie.hasCommitment")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: func(g *ssa.Function) bool {
		return g == fn || fname(g) == "trie.Concat" || fname(g) == fnGetNodeB
	}})
	self := fname(fn)
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		n++
		st, at := e.P.St, e.P.Where()
		var g *Term
		for _, c := range st.Events("call") {
			if t := c.Args[0]; t.CallName() == fnGetNodeB && st.Resolve(t.Args[1]) == f.Param(1) {
				g = t
			}
		}
		if !r.Check(g != nil, "commits-node", "the node is looked up", at, "the node is not looked up") {
			return
		}
		node := f.intern("res", "0", nil, g)
		there := st.Eval(f.intern("res", "1", nil, g))
		nt := f.mkEq(f.field(node, "newTerminal"), f.constNil())
		nc := f.mkLen(f.mkLoad(f.mkFA(f.mkFA(node, "n", nil), "ChildCommitments", nil), nil))
		v := st.Resolve(e.Results[0])
		val := st.Eval(v)
		if v.IsConst("true") {
			val = 1
		}
		if v.IsConst("false") {
			val = -1
		}
		// what is known about the modified children
		some, none := false, false
		for _, c := range st.Conds() {
			some = some || c.Pos && c.Cond.CallName() == self
		}
		for _, l := range f.Loops() {
			if l.Kind == "map" && l.Coll == f.field(node, "modifiedChildren") && st.loopDone(f, l) {
				all, k := true, 0
				f.AtBackEdges(l, func(q *Point) {
					k++
					ok := false
					for _, ev := range q.St.Events("call") {
						if t := ev.Args[0]; t.CallName() == self && f.childKeyOf(q.St, t.Args[1], node, l.Key) {
							ok = q.St.False(t)
						}
					}
					all = all && ok
				})
				none = none || all && k > 0
			}
		}
		noKids := st.LE(nc, f.constInt(0, nil), 0)
		kids := st.LE(f.constInt(1, nil), nc, 0)
		byLen := false // the result says whether there are children
		if val == 0 {
			s := st.clone()
			if s.Assume(v, true) {
				byLen = s.LE(f.constInt(1, nil), nc, 0)
			}
			s = st.clone()
			if s.Assume(v, false) {
				byLen = byLen && s.LE(nc, f.constInt(0, nil), 0)
			}
		}
		switch {
		case val == 1:
			r.Check(there == 1 && (st.False(nt) || some || kids), "commits-yes", "a node commits if it has a terminal or a child", at, "it may have neither")
		case val == -1:
			r.Check(there == -1 || st.True(nt) && none && noKids, "commits-no", "a node which has a terminal or a child commits", at, "it may have one")
		default:
			r.Check(there == 1 && st.True(nt) && none && byLen, "commits-no", "a node which has a terminal or a child commits", at, "the result is %s", v)
		}
	})
	r.Check(n > 1, "commits-yes", "results", w.FuncPos(fn), "no results were found")
}
