package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop of an inlined function
type Loop struct {
	Ctx    *Ctx
	Head   *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
	Kind   string // "index", "map", "other"
	// index loops: the body runs for Idx = Start, Start+Step, ... while Idx < Bound (Step > 0) or Idx >= Low (Step < 0)
	Idx   *Term
	Start *Term
	Step  int64
	Bound *Term
	// map loops
	Coll *Term
	Key  *Term
	Val  *Term
	Cond *ssa.If // the loop condition, in the head
	// Exits are the edges out of the loop other than by the loop condition
	Exits [][2]*ssa.BasicBlock
}

func naturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, x := range fn.Blocks {
		for _, h := range x.Succs {
			if !h.Dominates(x) {
				continue
			}
			if r[h] == nil {
				r[h] = map[*ssa.BasicBlock]bool{h: true}
			}
			st := []*ssa.BasicBlock{x}
			for len(st) > 0 {
				b := st[len(st)-1]
				st = st[:len(st)-1]
				if r[h][b] {
					continue
				}
				r[h][b] = true
				st = append(st, b.Preds...)
			}
		}
	}
	return r
}

// Loops of all inlined functions
func (f *Flow) Loops() []*Loop {
	if f.loopsC != nil {
		return f.loopsC
	}
	var r []*Loop
	defer func() {
		if f.done {
			f.loopsC = r
		}
	}()
	for _, ctx := range f.ctxs {
		nl := naturalLoops(ctx.Fn)
		for _, b := range ctx.Fn.Blocks {
			if nl[b] != nil {
				r = append(r, f.mkLoop(ctx, b, nl[b]))
			}
		}
	}
	return r
}

func (f *Flow) mkLoop(ctx *Ctx, head *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) *Loop {
	l := &Loop{Ctx: ctx, Head: head, Blocks: blocks, Kind: "other"}
	cond, _ := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if cond != nil {
		in0, in1 := blocks[head.Succs[0]], blocks[head.Succs[1]]
		if in0 != in1 {
			l.Cond = cond
			t := f.term(ctx, cond.Cond)
			if !in0 {
				t = f.mkNot(t)
			}
			f.classify(l, t)
		}
	}
	for b := range blocks {
		for _, s := range b.Succs {
			if !blocks[s] && !(b == head && l.Cond != nil) {
				l.Exits = append(l.Exits, [2]*ssa.BasicBlock{b, s})
			}
		}
	}
	return l
}

// classify the loop by its continuation condition
func (f *Flow) classify(l *Loop, t *Term) {
	if t.Op == "rok" {
		n := t.Args[0]
		if n.Ctx == l.Ctx {
			l.Kind = "map"
			l.Coll = f.RangeOf(n)
			l.Key = f.intern("rkey", "", nil, n)
			l.Val = f.intern("rval", "", nil, n)
		}
		return
	}
	neg := false
	for t.Op == "not" {
		t = t.Args[0]
		neg = !neg
	}
	var lin *Lin // lin <= 0 is the condition
	switch t.Op {
	case "le0":
		lin = t.Args[0].Lin
		if neg {
			lin = linAdd(&Lin{C: 1}, lin, -1)
		}
	case "eq0":
		if !neg {
			return
		}
		lin = nil // idx != bound: handled for steps of one below
	default:
		return
	}
	for _, in := range l.Head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pt := f.term(l.Ctx, ph)
		var start *Term
		step := int64(0)
		ok = true
		for i, e := range ph.Edges {
			et := f.term(l.Ctx, e)
			if l.Blocks[l.Head.Preds[i]] {
				d := linAdd(f.toLin(et), f.toLin(pt), -1)
				if len(d.M) != 0 || d.C == 0 || step != 0 && step != d.C {
					ok = false
					break
				}
				step = d.C
			} else {
				if start != nil && start != et {
					ok = false
					break
				}
				start = et
			}
		}
		if !ok || start == nil || step == 0 {
			continue
		}
		x := lin
		if x == nil {
			// idx != bound
			x = t.Args[0].Lin
			k := coefOf(x, pt)
			if k*step > 0 { // idx grows and has positive coefficient: idx-bound != 0  ~  idx-bound+1 <= 0
				x = linAdd(&Lin{C: 1}, x, 1)
			} else {
				x = linAdd(&Lin{C: 1}, x, -1)
			}
			if step != 1 && step != -1 {
				continue
			}
		}
		k := coefOf(x, pt)
		if k != 1 && k != -1 {
			continue
		}
		// range loops over slices use phi+1 as the index: phi starts from -1
		off := int64(0)
		if c, isC := start.Int(); isC && c == -1 && step == 1 {
			off = 1
		}
		idx := f.fromLin(linAdd(f.toLin(pt), &Lin{C: off}, 1), ph.Type())
		st := f.fromLin(linAdd(f.toLin(start), &Lin{C: off}, 1), ph.Type())
		rest := linAdd(x, f.toLin(idx), -k)
		if k == 1 && step > 0 {
			// idx + rest <= 0: idx < 1-rest
			l.Kind, l.Idx, l.Start, l.Step = "index", idx, st, step
			l.Bound = f.fromLin(linAdd(&Lin{C: 1}, rest, -1), ph.Type())
			return
		}
		if k == -1 && step < 0 {
			// rest <= idx
			l.Kind, l.Idx, l.Start, l.Step = "index", idx, st, step
			l.Bound = f.fromLin(rest, ph.Type())
			return
		}
	}
}

func coefOf(l *Lin, t *Term) int64 {
	for _, m := range l.M {
		if m.T == t {
			return m.K
		}
	}
	return 0
}

// Covers: the loop visits the indices 0..bound-1 one by one, upwards or downwards, and is left only by the condition or
// by an exit for which leave is true
func (l *Loop) Covers(f *Flow, bound *Term) bool {
	if l.Kind != "index" {
		return false
	}
	if l.Step == 1 {
		z, ok := l.Start.Int()
		return ok && z == 0 && l.Bound == bound
	}
	if l.Step == -1 {
		z, ok := l.Bound.Int()
		return ok && z == 0 && l.Start == f.fromLin(linAdd(f.toLin(bound), &Lin{C: -1}, 1), nil)
	}
	return false
}

// AtBackEdges calls fn with the state at each back edge of the loop
func (f *Flow) AtBackEdges(l *Loop, fn func(p *Point)) { f.atEdges(l, 1, fn) }

// AtEntry calls fn with the state at each edge into the loop from outside
func (f *Flow) AtEntry(l *Loop, fn func(p *Point)) { f.atEdges(l, 0, fn) }

func (f *Flow) atEdges(l *Loop, kind int, fn func(p *Point)) {
	m := f.edgesC
	if m == nil {
		m = map[*Term][2][]*Point{}
		add := func(p *Point, from, to *ssa.BasicBlock, st *State) {
			if !f.isLoopHead(to) {
				return
			}
			k := 0
			if to.Dominates(from) {
				k = 1
			}
			q := *p
			q.St = st.clone()
			h := f.headTerm(p.Ctx, to)
			e := m[h]
			e[k] = append(e[k], &q)
			m[h] = e
		}
		f.Visit(func(p *Point) {
			b := p.Instr.Block()
			switch in := p.Instr.(type) {
			case *ssa.Jump:
				add(p, b, b.Succs[0], p.St)
			case *ssa.If:
				for k, s := range b.Succs {
					if !f.isLoopHead(s) {
						continue
					}
					st := p.St.clone()
					if st.Assume(f.term(p.Ctx, in.Cond), k == 0) {
						add(p, b, s, st)
					}
				}
			}
		}, nil)
		if f.done {
			f.edgesC = m
		}
	}
	for _, p := range m[f.headTerm(l.Ctx, l.Head)][kind] {
		q := *p
		q.St = p.St.clone()
		fn(&q)
	}
}

// InBody tells whether the point is in the loop body, including functions called from it
func (l *Loop) InBody(p *Point) bool {
	c, in := p.Ctx, p.Instr
	for c != nil {
		if c == l.Ctx {
			return l.Blocks[in.Block()]
		}
		in = c.Call
		c = c.Parent
	}
	return false
}

var _ = token.ADD
