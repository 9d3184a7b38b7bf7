package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Rules about the walk along a key from the root (GetProofGeneric), shared by the properties which depend on it

func isByteSlice(T types.Type) bool {
	s, ok := T.Underlying().(*types.Slice)
	return ok && basicKind(s.Elem()) == types.Uint8
}

// prefixFuncs are the helpers func([]byte, []byte) []byte with a loop which are used by the function
func (w *World) prefixFuncs(entry *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range w.Funcs {
		s := fn.Signature
		if fn == entry || s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 1 || s.Variadic() ||
			!isByteSlice(s.Params().At(0).Type()) || !isByteSlice(s.Params().At(1).Type()) || !isByteSlice(s.Results().At(0).Type()) {
			continue
		}
		if len(naturalLoops(fn)) > 0 && w.reachable(entry)[fn] {
			r = append(r, fn)
		}
	}
	return r
}

// nextOf: value of the loop variable at a back edge
func (f *Flow) nextOf(l *Loop, phi *Term, p *Point) *Term {
	ph, ok := phi.V.(*ssa.Phi)
	if !ok || phi.Op != "phi" || ph.Block() != l.Head || phi.Ctx != l.Ctx {
		return nil
	}
	for i, e := range ph.Edges {
		if l.Head.Preds[i] == p.Instr.Block() {
			return p.St.Resolve(f.term(l.Ctx, e))
		}
	}
	return nil
}

// startOf: the value of the loop variable before the loop, nil if there are several
func (f *Flow) startOf(l *Loop, phi *Term) *Term {
	ph, ok := phi.V.(*ssa.Phi)
	if !ok || ph.Block() != l.Head {
		return nil
	}
	var r *Term
	for i, e := range ph.Edges {
		if l.Blocks[l.Head.Preds[i]] {
			continue
		}
		t := f.term(l.Ctx, e)
		if r != nil && r != t {
			return nil
		}
		r = t
	}
	return r
}

// appended: x is append(base, e1, e2...) with single elements; returns base and the elements
func (f *Flow) appended(st *State, x *Term) (*Term, []*Term) {
	if x == nil || x.Op != "append" || len(x.Args) != 2 {
		return nil, nil
	}
	b := f.baseOf(st, x.Args[1])
	if b.Op != "alloc" {
		return nil, nil
	}
	n, ok := f.mkLen(x.Args[1]).Int()
	if !ok {
		n = 1
	}
	var r []*Term
	for i := int64(0); i < n; i++ {
		var v *Term
		for _, e := range st.Events("slot") {
			if k, isC := e.Args[1].Int(); e.Args[0] == b && isC && k == i {
				v = e.Args[2]
			}
		}
		if v == nil {
			return nil, nil
		}
		r = append(r, st.Resolve(v))
	}
	return st.Resolve(x.Args[0]), r
}

// literal: the elements of a small array or of a slice of the whole of it, nil if they are not known
func (f *Flow) literal(st *State, t *Term) []*Term {
	b := f.baseOf(st, t)
	n, ok := f.mkLen(t).Int()
	if !ok {
		n, ok = f.arrayLen(b)
	}
	if b.Op != "alloc" || !ok || n > 64 {
		return nil
	}
	if t.Op == "slice" && !t.Args[1].IsConst("0") {
		return nil
	}
	var r []*Term
	for i := int64(0); i < n; i++ {
		var v *Term
		for _, e := range st.Events("slot") {
			if k, isC := e.Args[1].Int(); e.Args[0] == b && isC && k == i {
				v = e.Args[2]
			}
		}
		if v == nil {
			return nil
		}
		r = append(r, st.Resolve(v))
	}
	return r
}

// concatParts: the parts a byte string is concatenated from: nil if it is not known
func (f *Flow) concatParts(st *State, t *Term) []*Term {
	t = st.Resolve(t)
	if t.CallName() == "trie.Concat" && len(t.Args) == 1 {
		b := f.baseOf(st, t.Args[0])
		n, ok := f.mkLen(t.Args[0]).Int()
		if !ok {
			if x, isS := f.arrayLen(b); isS {
				n, ok = x, true
			}
		}
		if !ok {
			return nil
		}
		var r []*Term
		for i := int64(0); i < n; i++ {
			var v *Term
			for _, e := range st.Events("slot") {
				if k, isC := e.Args[1].Int(); e.Args[0] == b && isC && k == i {
					v = e.Args[2]
				}
			}
			if v == nil {
				return nil
			}
			v = st.Resolve(v)
			for v.Op == "iface" {
				v = st.Resolve(v.Args[0])
			}
			r = append(r, v)
		}
		return r
	}
	if t.Op == "append" && len(t.Args) == 2 {
		var head []*Term
		b := st.Resolve(t.Args[0])
		if !(b.IsNil() || st.EQ(f.mkLen(b), f.constInt(0, nil))) {
			if head = f.concatParts(st, b); head == nil {
				if head = f.literal(st, b); head == nil {
					head = []*Term{b}
				}
			}
		}
		if _, es := f.appended(st, t); es != nil {
			return append(head, es...)
		}
		return append(head, st.Resolve(t.Args[1]))
	}
	return nil
}

func (f *Flow) arrayLen(a *Term) (int64, bool) {
	if a == nil || a.T == nil {
		return 0, false
	}
	T := a.T
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	if x, ok := T.Underlying().(*types.Array); ok {
		return x.Len(), true
	}
	return 0, false
}

// commonPrefixRule: the helper returns the longest common prefix of its arguments
func (r *Report) commonPrefixRule(fn *ssa.Function) {
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll})
	b1, b2 := f.Param(0), f.Param(1)
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		n++
		st := e.P.St
		R := f.term(e.P.Ctx, e.P.Instr.(*ssa.Return).Results[0])
		if R.Op != "phi" {
			R = st.Resolve(R)
		}
		ok, why := f.isLongestPrefix(st, R, b1, b2)
		r.Check(ok, "common-prefix", fname(fn)+" returns the longest common prefix", e.P.Where(), "%s", why)
	})
	r.Check(n > 0, "common-prefix", fname(fn), r.W.FuncPos(fn), "no return")
}

func (f *Flow) isLongestPrefix(st *State, R, b1, b2 *Term) (bool, string) {
	// copies of it
	for i := 0; i < 4; i++ {
		if R.Op == "append" && len(R.Args) == 2 && (R.Args[0].IsNil() || st.EQ(f.mkLen(R.Args[0]), f.constInt(0, nil))) {
			R = st.Resolve(R.Args[1])
			continue
		}
		if R.Op == "makeslice" {
			for _, c := range st.Events("copy") {
				if c.Args[0] == R && st.EQ(f.mkLen(R), f.mkLen(c.Args[1])) {
					R = c.Args[1]
					break
				}
			}
		}
	}
	var i *Term
	var loop *Loop
	if R.Op == "slice" && (R.Args[0] == b1 || R.Args[0] == b2) {
		if lo, isC := R.Args[1].Int(); !isC || lo != 0 {
			return false, fmt.Sprintf("returns %s", R)
		}
		i = R.Args[2]
		for _, l := range f.Loops() {
			if l.Kind == "index" && l.Idx == i || l.Kind == "other" && i.Op == "phi" && i.Ctx == l.Ctx && i.V.(*ssa.Phi).Block() == l.Head {
				loop = l
			}
		}
	} else if R == b1 || R == b2 {
		o := b1
		if R == b1 {
			o = b2
		}
		// the loop went over the whole of it
		for _, l := range f.Loops() {
			if l.Kind == "index" && st.loopDone(f, l) && st.LE(f.mkLen(R), l.Idx, 0) {
				loop, i = l, l.Idx
			}
		}
		if loop == nil {
			return st.True(f.hasPrefix(o, R)), "returns an argument which is not known to be the prefix"
		}
	} else {
		for _, l := range f.Loops() {
			if R.Op == "phi" && R.Ctx == l.Ctx && R.V.(*ssa.Phi).Block() == l.Head && st.loopDone(f, l) {
				loop = l
				i = l.Idx
			}
		}
		if loop != nil {
			if s := f.startOf(loop, R); s == nil || !(s.IsNil() || st.EQ(f.mkLen(s), f.constInt(0, nil))) {
				return false, "the prefix does not start empty"
			}
		}
	}
	if loop == nil || i == nil {
		return false, fmt.Sprintf("the result %s is not recognised as a prefix found by a loop", R)
	}
	if loop.Kind == "index" && (loop.Step != 1 || !isZero(loop.Start)) {
		return false, "the loop does not start from the first element"
	}
	if loop.Kind == "other" {
		if s := f.startOf(loop, i); s == nil || !isZero(s) {
			return false, "the loop does not start from the first element"
		}
	}
	x, y := f.mkIdx(b1, i, nil), f.mkIdx(b2, i, nil)
	ok, why := true, ""
	f.AtBackEdges(loop, func(q *Point) {
		if !q.St.EQ(x, y) {
			ok, why = false, "an element is taken without knowing that it is equal in both ("+q.Where()+")"
		}
		if R.Op == "phi" {
			b, es := f.appended(q.St, f.nextOf(loop, R, q))
			if b != R && b != q.St.Resolve(R) || len(es) != 1 || es[0] != x && es[0] != y {
				ok, why = false, "the equal element is not what is appended ("+q.Where()+")"
			}
		}
		if loop.Kind == "other" {
			if n := f.nextOf(loop, i, q); n != f.plus(i, 1) {
				ok, why = false, "elements are left out"
			}
		}
	})
	if !ok {
		return false, why
	}
	if st.NE(x, y) || st.LE(f.mkLen(b1), i, 0) || st.LE(f.mkLen(b2), i, 0) {
		return true, ""
	}
	return false, "the prefix may end although the next elements are equal"
}

func isZero(t *Term) bool {
	k, ok := t.Int()
	return ok && k == 0
}

// nodeKey: the key under which the node was looked up; loop variables are matched with each other
func (f *Flow) nodeKey(n *Term) *Term {
	if n.Op == "res" && n.Name == "0" && n.Args[0].CallName() == "trie.NodeStore.GetNode" {
		return n.Args[0].Args[1]
	}
	if n.Op != "phi" {
		return nil
	}
	ph := n.V.(*ssa.Phi)
	for _, in := range ph.Block().Instrs {
		k, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if k == ph || !isByteSlice(k.Type()) {
			continue
		}
		same := true
		for i := range k.Edges {
			nk := f.term(n.Ctx, ph.Edges[i])
			kt := f.term(n.Ctx, k.Edges[i])
			if !(nk.Op == "res" && nk.Name == "0" && nk.Args[0].CallName() == "trie.NodeStore.GetNode" && (nk.Args[0].Args[1] == kt || nk.Args[0].Args[1].IsNil() && kt.IsNil())) {
				same = false
			}
		}
		if same {
			return f.term(n.Ctx, k)
		}
	}
	return nil
}

// walkNode is the node at which the walk is, with the facts known about its relation to the key
type walkNode struct {
	n, key, pf, tail *Term
}

func (f *Flow) walkNodes(st *State, ukey *Term) []*walkNode {
	seen := map[*Term]bool{}
	var r []*walkNode
	add := func(t *Term) {
		t.Any(func(x *Term) bool {
			if x.CallName() == "trie.Node.PathFragment" && !seen[x] {
				seen[x] = true
				k := f.nodeKey(x.Args[0])
				if k != nil {
					k = st.Resolve(k)
					tail := ukey
					if !k.IsNil() {
						tail = f.mkSlice(ukey, f.mkLen(k), nil, ukey.T)
					}
					r = append(r, &walkNode{x.Args[0], k, x, st.Resolve(tail)})
					if k.Op == "phi" {
						// the first iteration, if what is known about it tells nothing else
						r = append(r, &walkNode{x.Args[0], f.constNil(), x, ukey})
					}
				}
			}
			return false
		})
	}
	for _, a := range st.Conds() {
		add(a.Cond)
	}
	for _, e := range st.Events("slot") {
		add(e.Args[2])
	}
	return r
}

// covered: 1 the path fragment is a prefix of the rest of the key, -1 it is not
func (f *Flow) covered(st *State, wn *walkNode) int {
	if v := f.prefixTruth(st, wn.tail, wn.pf); v != 0 {
		return v
	}
	for _, p := range f.prefixesOf(st, wn) {
		if st.LE(f.mkLen(wn.pf), f.mkLen(p), 0) {
			return 1
		}
		if st.LE(f.mkLen(p), f.mkLen(wn.pf), -1) {
			return -1
		}
	}
	return 0
}

// prefixesOf: the calls which calculate the common prefix of the rest of the key and the path fragment
func (f *Flow) prefixesOf(st *State, wn *walkNode) []*Term {
	var r []*Term
	for _, e := range st.Events("call") {
		c := e.Args[0]
		if len(c.Args) == 2 && c.T != nil && isByteSlice(c.T) {
			a, b := st.Resolve(c.Args[0]), st.Resolve(c.Args[1])
			if a == wn.tail && b == wn.pf || b == wn.tail && a == wn.pf {
				r = append(r, c)
			}
		}
	}
	return r
}

// childKeyOK: t is the key of the child of the node at the next element of the key
func (f *Flow) childKeyOK(st *State, t, ukey *Term, wn *walkNode) (bool, string) {
	ps := f.concatParts(st, t)
	// the key itself cut behind that element
	if ps == nil {
		if t.Op == "slice" && t.Args[0] == ukey && isZero(t.Args[1]) {
			want := f.plus(f.sum(f.mkLen(wn.key), f.mkLen(wn.pf)), 1)
			return st.EQ(t.Args[2], want), fmt.Sprintf("the key of the child is cut at %s, expected %s", t.Args[2], want)
		}
		return false, fmt.Sprintf("the key of the child is %s", t)
	}
	if len(ps) == 2 && wn.key.IsNil() {
		ps = append([]*Term{wn.key}, ps...)
	}
	if len(ps) != 3 {
		return false, fmt.Sprintf("the key of the child is made of %d parts", len(ps))
	}
	ok0 := ps[0] == wn.key || ps[0].CallName() == "trie.Node.Key" && ps[0].Args[0] == wn.n
	ok1 := ps[1] == wn.pf
	pos := f.sum(f.mkLen(wn.key), f.mkLen(wn.pf))
	b := ps[2]
	ok2 := b.Op == "idx" && b.Args[0] == ukey && st.EQ(b.Args[1], pos)
	if !ok0 || !ok1 || !ok2 {
		return false, fmt.Sprintf("the key of the child is made of %s, %s and %s", ps[0], ps[1], ps[2])
	}
	return true, ""
}

func (f *Flow) sum(a, b *Term) *Term {
	if a.Op == "len" && a.Args[0].IsNil() {
		a = f.constInt(0, nil)
	}
	return f.fromLin(linAdd(f.toLin(a), f.toLin(b), 1), b.T)
}

// walkRules: the path returned by GetProofGeneric leads from the root along the key as far as the trie goes, and the
// ending says how the key relates to the last node
func (r *Report) walkRules() {
	w := r.W
	fn := w.Must("trie", "GetProofGeneric")
	pfx := w.prefixFuncs(fn)
	opq := append([]*ssa.Function{w.Must("trie", "Concat")}, pfx...)
	for _, p := range pfx {
		r.commonPrefixRule(p)
	}
	f := r.Flow(fn, FlowOpt{NoInline: noInline(opq...), Transfer: trace, Split: splitAll})
	ukey := f.Param(1)
	kinds := map[int64]int{}
	lastOf := func(st *State, path *Term) (*Term, *Term) {
		b, es := f.appended(st, path)
		if b == nil || len(es) != 1 {
			return nil, nil
		}
		return b, es[0]
	}
	rootMissing := func(st *State) bool {
		for _, a := range st.Conds() {
			c := a.Cond
			if !a.Pos && c.Op == "res" && c.Name == "1" && c.Args[0].CallName() == "trie.NodeStore.GetNode" && (c.Args[0].Args[1].IsNil() || st.EQ(f.mkLen(c.Args[0].Args[1]), f.constInt(0, nil))) {
				return true
			}
		}
		return false
	}
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		res := st.Resolve(e.Results[0])
		if res.IsNil() {
			r.Check(rootMissing(st), "walk-empty", "no path only for an empty trie", at, "returns no path although the root may exist")
			return
		}
		end, isC := st.Resolve(f.mkSel(res, "Ending", nil)).Int()
		path := st.Resolve(f.mkSel(res, "Path", nil))
		key := st.Resolve(f.mkSel(res, "Key", nil))
		r.Check(f.isCopyOf(st, key, ukey), "walk-key", "the generic proof is about the key asked for", at, "the key of the generic proof is %s", key)
		if path.IsNil() || path.Op == "makeslice" && st.EQ(f.mkLen(path), f.constInt(0, nil)) {
			r.Check(rootMissing(st), "walk-empty", "no path only for an empty trie", at, "returns an empty path although the root may exist")
			kinds[-1]++
			return
		}
		if !r.Check(isC, "walk-ending", "the ending of the path is known", at, "the ending %s is not one of the constants on this path", st.Resolve(f.mkSel(res, "Ending", nil))) {
			return
		}
		kinds[end]++
		if end == 2 && f.missingAtHead(st, path) {
			// the node looked up at the begin of the iteration is the child of the last one, which is checked at the
			// end of the iteration
			r.OK("walk-extend-missing", "a path ends with an extension only if the child on the way is missing", at)
			return
		}
		_, last := lastOf(st, path)
		var wn *walkNode
		for _, x := range f.walkNodes(st, ukey) {
			if last != nil && (x.key == last || x.key.IsNil() && last.IsNil()) {
				wn = x
			}
		}
		if !r.Check(wn != nil, "walk-last", "the path ends with the node at which the walk stops", at, "the last key of the path %s is not the key of a node whose path fragment was compared with the rest of the key", path) {
			return
		}
		switch end {
		case 0:
			ok := st.True(f.bytesEq(wn.tail, wn.pf)) || f.covered(st, wn) == 1 && st.EQ(f.mkLen(wn.tail), f.mkLen(wn.pf))
			r.Check(ok, "walk-terminal", "a path ends at a terminal only if the rest of the key is the path fragment", at, "the rest of the key is not known to be equal to the path fragment of the last node")
		case 1:
			r.Check(f.covered(st, wn) == -1, "walk-split", "a path ends with a split only if the key diverges within the path fragment", at, "the path fragment is not known to differ from the key")
		case 2:
			ok, why := false, "the child on the way is not known to be missing"
			for _, a := range st.Conds() {
				c := a.Cond
				if !a.Pos && c.Op == "res" && c.Name == "1" && c.Args[0].CallName() == "trie.NodeStore.GetNode" {
					if ok2, why2 := f.childKeyOK(st, st.Resolve(c.Args[0].Args[1]), ukey, wn); ok2 {
						ok = true
					} else {
						why = why2
					}
				}
			}
			r.Check(f.covered(st, wn) == 1, "walk-extend", "a path ends with an extension only if the path fragment is a prefix of the rest of the key", at, "the path fragment is not known to be a prefix of the rest of the key")
			r.Check(ok, "walk-extend-missing", "a path ends with an extension only if the child on the way is missing", at, "%s", why)
		default:
			r.Bad("walk-ending", "the ending of the path is known", at, "unknown ending %d", end)
		}
	})
	for k, n := range map[int64]string{0: "terminal", 1: "split", 2: "extend"} {
		r.Check(kinds[k] > 0, "walk-kinds", n, w.FuncPos(fn), "no return with this ending was found")
	}
	// steps
	steps := 0
	for _, l := range f.Loops() {
		if l.Kind == "map" {
			continue
		}
		for _, in := range l.Head.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if s, isS := ph.Type().Underlying().(*types.Slice); !isS || !isByteSlice(s.Elem()) {
				continue
			}
			pt := f.term(l.Ctx, ph)
			s0 := f.startOf(l, pt)
			r.Check(s0 != nil && (s0.IsNil() || isZero(f.mkLen(s0))), "walk-start", "the path starts empty", w.InstrPos(ph), "the path starts from %s", s0)
			f.AtBackEdges(l, func(q *Point) {
				st := q.St
				steps++
				b, last := lastOf(st, f.nextOf(l, pt, q))
				if !r.Check(b != nil && (b == pt || b == st.Resolve(pt)) && last != nil, "walk-step", "each node passed is appended to the path", q.Where(), "the path continues as %s", f.nextOf(l, pt, q)) {
					return
				}
				var wn *walkNode
				for _, x := range f.walkNodes(st, ukey) {
					if x.key == last || x.key.IsNil() && last.IsNil() {
						wn = x
					}
				}
				if !r.Check(wn != nil, "walk-step-node", "the key appended is that of the node passed", q.Where(), "%s is not the key of the node", last) {
					return
				}
				r.Check(f.covered(st, wn) == 1, "walk-step-prefix", "the walk continues only if the path fragment is a prefix of the rest of the key", q.Where(), "the path fragment is not known to be a prefix of the rest of the key")
				// next key
				ok, why := false, "the next key is not recognised"
				for _, in2 := range l.Head.Instrs {
					k, isPhi := in2.(*ssa.Phi)
					if !isPhi {
						break
					}
					if isByteSlice(k.Type()) {
						if ok2, why2 := f.childKeyOK(st, f.nextOf(l, f.term(l.Ctx, k), q), ukey, wn); ok2 {
							ok = true
						} else {
							why = why2
						}
					}
				}
				r.Check(ok, "walk-step-child", "the walk continues with the child at the next element of the key", q.Where(), "%s", why)
			})
		}
	}
	r.Check(steps > 0, "walk-step", "steps of the walk", w.FuncPos(fn), "no loop which collects the path was found")
}

// missingAtHead: the path is what was collected before this iteration, and the node with the key of this iteration is
// missing, but not the root
func (f *Flow) missingAtHead(st *State, path *Term) bool {
	if path.Op != "phi" {
		return false
	}
	head := path.V.(*ssa.Phi).Block()
	root, missing := false, false
	for _, a := range st.Conds() {
		c := a.Cond
		if c.Op != "res" || c.Name != "1" || c.Args[0].CallName() != "trie.NodeStore.GetNode" {
			continue
		}
		k := st.Resolve(c.Args[0].Args[1])
		if a.Pos && (k.IsNil() || st.EQ(f.mkLen(k), f.constInt(0, nil))) {
			root = true
		}
		if !a.Pos && k.Op == "phi" && k.Ctx == path.Ctx && k.V.(*ssa.Phi).Block() == head {
			missing = true
		}
	}
	return root && missing
}
