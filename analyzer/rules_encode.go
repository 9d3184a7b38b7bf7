package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C25"] = checkDef{run: runC25,
		explanation: "Data-flow analysis of encoding and decoding: on every path through packing, each element which is read is known to be in the range of the arity before the loop goes on or the function succeeds; the stored form is the mark followed by the packed elements, and the mark, as an expression of the length, is the number of unused elements for each residue of the length; on every successful path of decoding, the result is the unpacked data without as many elements as the mark says, the mark is known to be in range, the elements cut off are known to be zero, and the form which packing never produces for the empty key is refused."}
}

const (
	fnPack16   = "trie.pack16"
	fnPack2    = "trie.pack2"
	fnUnpack16 = "trie.unpack16"
	fnUnpack2  = "trie.unpack2"
)

type arityPack struct {
	name         string
	value, max   int64
	pack, unpack string
	unused       func(n int64) int64
	maxMark      int64
}

func (r *Report) packings() []arityPack {
	a16, ok1 := r.W.constOf("trie", "PathArity16")
	a2, ok2 := r.W.constOf("trie", "PathArity2")
	if !r.Check(ok1 && ok2, "arities", "constants of the arities", "trie", "the constants were not found") {
		return nil
	}
	return []arityPack{
		{"16", a16, 15, fnPack16, fnUnpack16, func(n int64) int64 { return n % 2 }, 1},
		{"2", a2, 1, fnPack2, fnUnpack2, func(n int64) int64 { return (8 - n%8) % 8 }, 7},
	}
}

func runC25(r *Report) {
	ps := r.packings()
	if ps == nil {
		return
	}
	for _, n := range []string{"EncodeUnpackedBytes", "PackUnpackedBytes"} {
		r.packRange(n, ps)
		r.packForm(n, ps)
	}
	r.decodeForm(ps)
	r.unpackForm(ps)
}

// packRange: the elements are checked
func (r *Report) packRange(name string, ps []arityPack) {
	w := r.W
	fn := w.Must("trie", name)
	var pk func(st *State) *arityPack
	load := func(p *Point) {
		for _, e := range p.St.Events("load") {
			if a := pk(p.St); a != nil && p.St.LE(p.F.mkIdx(p.F.Param(0), e.Args[0], nil), p.F.constInt(a.max, nil), 0) {
				p.St.AddEvent("checked", e.Args[0])
			}
		}
		trace(p)
		if u, ok := p.Instr.(*ssa.UnOp); ok {
			if a := p.T(u.X); a.Op == "ia" && stripConv(a.Args[0]) == p.F.Param(0) {
				p.St.AddEvent("load", a.Args[1])
			}
		}
	}
	of := func(st *State) *arityPack {
		for i := range ps {
			if st.EQ(st.f.Param(1), st.f.constInt(ps[i].value, nil)) {
				return &ps[i]
			}
		}
		return nil
	}
	pk = of
	f := r.Flow(fn, FlowOpt{Transfer: load, Split: splitAll})
	src := f.Param(0)
	// loops which only check
	valid := map[*Loop]bool{}
	for _, l := range f.Loops() {
		if l.Covers(f, f.mkLen(src)) {
			all, k := true, 0
			f.AtBackEdges(l, func(q *Point) {
				p := of(q.St)
				k++
				all = all && p != nil && q.St.LE(f.mkIdx(src, l.Idx, nil), f.constInt(p.max, nil), 0)
			})
			valid[l] = all && k > 0
		}
	}
	found := map[string]int{}
	check := func(st *State, at string) {
		p := of(st)
		if p == nil {
			return
		}
		for _, e := range st.Events("load") {
			done := false
			for l, v := range valid {
				done = done || v && f.loopEnded(st, l)
			}
			for _, c := range st.Events("checked") {
				done = done || c.Args[0] == e.Args[0]
			}
			found[p.name]++
			x := f.mkIdx(src, e.Args[0], nil)
			r.Check(done || st.LE(x, f.constInt(p.max, nil), 0), "element-range", name+": each element is in the range of arity "+p.name, at, "the element %s is used without being checked", x)
		}
	}
	for _, l := range f.Loops() {
		f.AtBackEdges(l, func(q *Point) { check(q.St, q.Where()) })
	}
	f.Visit(nil, func(e *Exit) {
		if succeeded(e) {
			check(e.P.St, e.P.Where())
		}
	})
	for _, p := range ps {
		r.Check(found[p.name] > 0, "element-range", name+": elements are read for arity "+p.name, w.FuncPos(fn), "no element is read")
	}
}

// intOf evaluates an expression of a length
func (f *Flow) intOf(st *State, t, n *Term, v int64) (int64, bool) {
	t = st.Resolve(t)
	if t == n {
		return v, true
	}
	if x, ok := t.Int(); ok {
		return x, true
	}
	wrap := func(x int64) int64 {
		if t.T != nil && isByteT(t.T) {
			return x & 0xff
		}
		return x
	}
	if t.Op == "conv" {
		x, ok := f.intOf(st, t.Args[0], n, v)
		return wrap(x), ok
	}
	if t.Op == "lin" && t.Lin != nil {
		x, ok := f.linOf(st, t.Lin, n, v)
		return wrap(x), ok
	}
	if t.Op == "bin" && len(t.Args) == 2 {
		x, ok1 := f.intOf(st, t.Args[0], n, v)
		y, ok2 := f.intOf(st, t.Args[1], n, v)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.Name {
		case "+":
			return wrap(x + y), true
		case "-":
			return wrap(x - y), true
		case "*":
			return wrap(x * y), true
		case "/":
			if y > 0 {
				return wrap(x / y), true
			}
		case "%":
			if y > 0 {
				return wrap(x % y), true
			}
		case "&":
			return wrap(x & y), true
		case "|":
			return wrap(x | y), true
		case "^":
			return wrap(x ^ y), true
		case "&^":
			return wrap(x &^ y), true
		case "<<":
			if y >= 0 && y < 60 {
				return wrap(x << uint(y)), true
			}
		case ">>":
			if y >= 0 && y < 60 {
				return wrap(x >> uint(y)), true
			}
		}
	}
	return 0, false
}

func (f *Flow) linOf(st *State, l *Lin, n *Term, v int64) (int64, bool) {
	s := l.C
	for _, m := range l.M {
		x, ok := f.intOf(st, m.T, n, v)
		if !ok {
			return 0, false
		}
		s += m.K * x
	}
	return s, true
}

// condOf: -1 false, 1 true, 0 unknown
func (f *Flow) condOf(st *State, c, n *Term, v int64) int {
	b := func(x bool) int {
		if x {
			return 1
		}
		return -1
	}
	switch {
	case c.Op == "not":
		return -f.condOf(st, c.Args[0], n, v)
	case c.Op == "eq0" || c.Op == "le0":
		x, ok := f.linOf(st, f.toLin(c.Args[0]), n, v)
		if !ok {
			return 0
		}
		if c.Op == "eq0" {
			return b(x == 0)
		}
		return b(x <= 0)
	case c.Op == "eq":
		x, ok1 := f.intOf(st, c.Args[0], n, v)
		y, ok2 := f.intOf(st, c.Args[1], n, v)
		if ok1 && ok2 {
			return b(x == y)
		}
	}
	return 0
}

// possibleFor: the path can be taken if the length is v
func (f *Flow) possibleFor(st *State, n *Term, v int64) bool {
	for _, cd := range st.Conds() {
		x := f.condOf(st, cd.Cond, n, v)
		if x == 1 && !cd.Pos || x == -1 && cd.Pos {
			return false
		}
	}
	return true
}

// packForm: mark and packed elements, or the packed elements only
func (r *Report) packForm(name string, ps []arityPack) {
	w := r.W
	fn := w.Must("trie", name)
	marked := name == "EncodeUnpackedBytes"
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: byName(fnPack16, fnPack2)})
	src, ar := f.Param(0), f.Param(1)
	n := f.mkLen(src)
	kinds := map[string]int{}
	f.Visit(nil, func(e *Exit) {
		st, at := e.P.St, e.P.Where()
		if !succeeded(e) {
			return
		}
		res := st.Resolve(e.Results[0])
		if st.LE(n, f.constInt(0, nil), 0) {
			kinds["empty"]++
			r.Check(emptyBytes(f, st, res), "stored-form", name+": the empty key", at, "the empty key is stored as %s", res)
			return
		}
		for _, p := range ps {
			if !st.EQ(ar, f.constInt(p.value, nil)) {
				continue
			}
			kinds[p.name]++
			// the packed elements
			isPack := func(t *Term) *Term {
				t = st.Resolve(t)
				if t.Op == "res" && t.Name == "0" && t.Args[0].CallName() == p.pack && len(t.Args[0].Args) == 2 && st.Resolve(t.Args[0].Args[1]) == src {
					return t.Args[0]
				}
				return nil
			}
			var mark, call *Term
			form := ""
			switch c := isPack(res); {
			case c != nil && emptyBytes(f, st, st.Resolve(c.Args[0])):
				form, call = "plain", c
			case c != nil:
				if h := f.concatParts(st, c.Args[0]); len(h) == 1 {
					form, call, mark = "marked", c, h[0]
				}
			case res.Op == "slice" && res.Args[1].IsConst("1"):
				if c := isPack(res.Args[0]); c != nil {
					if h := f.concatParts(st, c.Args[0]); len(h) == 1 && (res.Args[2] == f.mkLen(res.Args[0]) || st.EQ(res.Args[2], f.mkLen(res.Args[0]))) {
						form, call = "plain", c
					}
				} else if h := f.concatParts(st, res.Args[0]); len(h) == 2 && st.EQ(res.Args[2], f.mkLen(res.Args[0])) {
					if c := isPack(h[1]); c != nil && emptyBytes(f, st, st.Resolve(c.Args[0])) && h[0].T != nil && isByteT(h[0].T) {
						form, call = "plain", c
					}
				}
			default:
				if h := f.concatParts(st, res); len(h) == 2 {
					if c := isPack(h[1]); c != nil && emptyBytes(f, st, st.Resolve(c.Args[0])) {
						form, call, mark = "marked", c, h[0]
					}
				}
			}
			want := "plain"
			if marked {
				want = "marked"
			}
			if !r.Check(form == want, "stored-form", name+": form for arity "+p.name, at, "the result is %s", res) {
				continue
			}
			err := f.intern("res", "1", nil, call)
			r.Check(st.Resolve(e.Results[1]) == err || st.True(f.mkEq(err, f.constNil())), "stored-form", name+": fails if packing fails for arity "+p.name, at, "the error of packing is dropped")
			if mark != nil {
				bad := ""
				for v := int64(1); v <= 17; v++ {
					if !f.possibleFor(st, n, v) {
						continue
					}
					kinds[fmt.Sprint("mark", p.name, v)]++
					if x, ok := f.intOf(st, mark, n, v); !ok || x&0xff != p.unused(v) {
						bad = fmt.Sprintf("for length %d the mark %s is %d", v, mark, x)
						if !ok {
							bad = fmt.Sprintf("the mark is %s", mark)
						}
					}
				}
				r.Check(bad == "", "mark", "the mark is the number of unused elements for arity "+p.name, at, "%s", bad)
			}
			return
		}
		kinds["whole"]++
	})
	for _, p := range ps {
		r.Check(kinds[p.name] > 0, "stored-form", name+": case arity "+p.name, w.FuncPos(fn), "no path was found")
		if marked {
			all := true
			for v := int64(1); v <= 17; v++ {
				all = all && kinds[fmt.Sprint("mark", p.name, v)] > 0
			}
			r.Check(all, "mark", "all lengths for arity "+p.name, w.FuncPos(fn), "no path for some length")
		}
	}
}

// decodeForm: only what packing produces is accepted
func (r *Report) decodeForm(ps []arityPack) {
	w := r.W
	fn := w.Must("trie", "DecodeToUnpackedBytes")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: byName(fnUnpack16, fnUnpack2)})
	src, ar := f.Param(0), f.Param(1)
	n := f.mkLen(src)
	mark := f.mkIdx(src, f.constInt(0, nil), nil)
	kinds := map[string]int{}
	f.Visit(nil, func(e *Exit) {
		st, at := e.P.St, e.P.Where()
		if !succeeded(e) {
			return
		}
		res := st.Resolve(e.Results[0])
		if st.LE(n, f.constInt(0, nil), 0) {
			kinds["empty"]++
			r.Check(emptyBytes(f, st, res), "decoded", "no data is the empty key", at, "it is %s", res)
			return
		}
		for _, p := range ps {
			if !st.EQ(ar, f.constInt(p.value, nil)) {
				continue
			}
			kinds[p.name]++
			is := func(t *Term) bool {
				t = st.Resolve(t)
				return t.CallName() == p.unpack && len(t.Args) == 2 && emptyBytes(f, st, st.Resolve(t.Args[0])) && f.isSlice(st, t.Args[1], src, f.constInt(1, nil), n)
			}
			// all of the data, without the unused elements
			var u *Term
			cut := false
			switch {
			case is(res):
				u = res
				cut = st.EQ(mark, f.constInt(0, nil)) || st.LE(mark, f.constInt(0, nil), 0)
			case res.Op == "slice" && is(res.Args[0]):
				u = st.Resolve(res.Args[0])
				cut = res.Args[1].IsConst("0") && f.isDiff(st, res.Args[2], f.mkLen(u), mark)
			}
			if !r.Check(u != nil, "decoded", "the result is the unpacked data for arity "+p.name, at, "the result is %s", res) {
				return
			}
			r.Check(cut, "decoded", "as many elements as the mark says are cut off for arity "+p.name, at, "the result is %s", res)
			r.Check(st.LE(mark, f.constInt(p.maxMark, nil), 0), "mark-range", "marks packing never produces are refused for arity "+p.name, at, "the mark may be greater than %d", p.maxMark)
			r.Check(st.LE(f.constInt(2, nil), n, 0) || st.LE(f.constInt(1, nil), f.mkLen(res), 0) || st.NE(f.mkLen(res), f.constInt(0, nil)) || st.NE(n, f.constInt(1, nil)) || st.LE(f.constInt(1, nil), f.mkLen(u), 0) || st.NE(f.mkLen(u), f.constInt(0, nil)),
				"no-second-form", "the empty key has one form for arity "+p.name, at, "a mark without data is accepted")
			r.Check(f.zeroPadded(st, u, src, mark, p), "padding", "the elements cut off are zero for arity "+p.name, at, "elements which are not zero may be cut off")
			return
		}
		kinds["whole"]++
		r.Check(f.isSlice(st, res, src, f.constInt(0, nil), n), "decoded", "for arity 256 the data is the key", at, "the result is %s", res)
	})
	for _, k := range []string{"empty", "16", "2", "whole"} {
		r.Check(kinds[k] > 0, "decoded", "case "+k, w.FuncPos(fn), "no path was found")
	}
}

// isDiff: x = a - b
func (f *Flow) isDiff(st *State, x, a, b *Term) bool {
	d := linAdd(f.toLin(a), f.toLin(b), -1)
	l := linAdd(f.toLin(st.Resolve(x)), d, -1)
	return st.EntailsLE(l) && st.EntailsLE(linAdd(&Lin{}, l, -1))
}

// zeroPadded: the last mark elements of u are zero
func (f *Flow) zeroPadded(st *State, u, src, mark *Term, p arityPack) bool {
	zero := f.constInt(0, nil)
	if st.LE(mark, zero, 0) || p.maxMark == 1 && st.NE(mark, f.constInt(1, nil)) {
		return true
	}
	n := f.mkLen(u)
	if p.maxMark == 1 && st.EQ(f.mkIdx(u, f.plus(n, -1), nil), zero) {
		return true
	}
	for _, l := range f.Loops() {
		if l.Kind != "index" || !f.loopEnded(st, l) {
			continue
		}
		all, k := true, 0
		f.AtBackEdges(l, func(q *Point) {
			k++
			e := false
			for _, cd := range q.St.Conds() {
				cd.Cond.Any(func(t *Term) bool {
					if t.Op == "idx" && t.Args[0] == u && q.St.EQ(t, zero) && f.runsOver(q.St, l, t.Args[1], n, mark) {
						e = true
					}
					return e
				})
			}
			all = all && e
		})
		if all && k > 0 {
			return true
		}
	}
	// the bits are tested before they are unpacked
	last := f.mkIdx(src, f.plus(f.mkLen(src), -1), nil)
	for _, cd := range st.Conds() {
		c := cd.Cond
		if !cd.Pos || c.Op != "eq0" {
			continue
		}
		cl := f.toLin(c.Args[0])
		if len(cl.M) != 1 || cl.C != 0 {
			continue
		}
		t := stripConv(st.Resolve(cl.M[0].T))
		if t.Op != "bin" || t.Name != "&" {
			continue
		}
		for i := range t.Args {
			if stripConv(st.Resolve(t.Args[i])) != last {
				continue
			}
			mask, ok := true, false
			for v := int64(1); v <= p.maxMark; v++ {
				x, isI := f.intOf(st, t.Args[1-i], mark, v)
				ok = isI
				want := int64(1)<<uint(v*8/(p.maxMark+1)) - 1
				mask = mask && isI && x&want == want
			}
			if mask && ok {
				return true
			}
		}
	}
	return false
}

// runsOver: the expression of the index runs over at least n-mark..n-1
func (f *Flow) runsOver(st *State, l *Loop, x, n, mark *Term) bool {
	lx, li := f.toLin(x), f.toLin(l.Idx)
	d := linAdd(lx, li, -1) // x = idx + d
	if coefOf(d, l.Idx) == 0 && l.Start != nil && l.Bound != nil && (l.Step == 1) {
		lo := linAdd(f.toLin(l.Start), d, 1)
		hi := linAdd(f.toLin(l.Bound), d, 1)
		nm := linAdd(f.toLin(n), f.toLin(mark), -1)
		a := linAdd(lo, nm, -1)         // start <= n-mark
		b := linAdd(f.toLin(n), hi, -1) // n <= end
		return f.linLE(st, a) && f.linLE(st, b)
	}
	d = linAdd(lx, li, 1) // x = d - idx
	if coefOf(d, l.Idx) == 0 && l.Start != nil && l.Bound != nil && l.Step == 1 {
		hi := linAdd(d, f.toLin(l.Start), -1) // first: the greatest
		lo := linAdd(d, linAdd(f.toLin(l.Bound), &Lin{C: -1}, 1), -1)
		nm := linAdd(f.toLin(n), f.toLin(mark), -1)
		return f.linLE(st, linAdd(lo, nm, -1)) && f.linLE(st, linAdd(linAdd(f.toLin(n), &Lin{C: -1}, 1), hi, -1))
	}
	if l.Step == -1 && l.Start != nil && l.Bound != nil {
		// down from start to bound
		d = linAdd(lx, li, -1)
		if coefOf(d, l.Idx) != 0 {
			return false
		}
		hi := linAdd(f.toLin(l.Start), d, 1)
		lo := linAdd(f.toLin(l.Bound), d, 1)
		nm := linAdd(f.toLin(n), f.toLin(mark), -1)
		return f.linLE(st, linAdd(lo, nm, -1)) && f.linLE(st, linAdd(linAdd(f.toLin(n), &Lin{C: -1}, 1), hi, -1))
	}
	return false
}

// linLE: l <= 0
func (f *Flow) linLE(st *State, l *Lin) bool {
	if len(l.M) == 0 {
		return l.C <= 0
	}
	return st.EntailsLE(l)
}

// loopEnded: the index loop is run on the path and left by its condition
func (f *Flow) loopEnded(st *State, l *Loop) bool {
	if f.loopCovered(st, l) {
		return true
	}
	if l.Kind != "index" || !st.loopDone(f, l) {
		return false
	}
	if l.Step > 0 {
		return st.LE(l.Bound, l.Idx, 0)
	}
	return st.LE(l.Idx, l.Bound, -1)
}
