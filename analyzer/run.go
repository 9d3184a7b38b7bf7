package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	n  node
	st *State
}

const maxDisjuncts = 96

// Run computes the fixpoint
func (f *Flow) Run() {
	st := &State{f: f, facts: map[string]*Atom{}, pend: map[string]*Pend{}, corr: map[*Term]*Term{}}
	if f.Opt.Init != nil {
		f.Opt.Init(st)
	}
	var wl []workItem
	inWL := map[string]bool{}
	push := func(n node, s *State) {
		m := f.in[n]
		if m == nil {
			m = map[string]*State{}
			f.in[n] = m
		}
		k := s.key()
		if len(m) >= maxDisjuncts {
			if _, ok := m[k]; !ok {
				// too many disjuncts: fall back to a single one without correlations
				f.Capped = true
				s = s.clone()
				for c, v := range s.corr {
					if f.splitting(v) {
						delete(s.corr, c)
					}
				}
				k = ""
			}
		}
		old, ok := m[k]
		if !ok {
			m[k] = s.clone()
			wl = append(wl, workItem{n, m[k]})
			return
		}
		if old.merge(s) {
			wl = append(wl, workItem{n, old})
		}
	}
	_ = inWL
	run := func() {
		for len(wl) > 0 {
			it := wl[len(wl)-1]
			wl = wl[:len(wl)-1]
			f.Steps++
			if f.Steps > 400000 {
				fatal("analysis of %s does not terminate in the step limit", fname(f.Entry))
			}
			f.step(it.n, it.st.clone(), push, nil, nil)
		}
	}
	push(node{f.Root, f.Entry.Blocks[0], 0, 0}, st.clone())
	run()
	// once more from the invariants of the loops: other states may have been merged with those of too early iterations
	heads := map[node]map[string]*State{}
	for n, m := range f.in {
		if n.i == 0 && n.stage == 0 && f.isLoopHead(n.b) {
			heads[n] = m
		}
	}
	if len(heads) > 0 {
		f.in = heads
		var ns []node
		for n := range heads {
			ns = append(ns, n)
		}
		sortNodes(ns)
		for _, n := range ns {
			for _, k := range sortedKeys(heads[n]) {
				wl = append(wl, workItem{n, heads[n][k]})
			}
		}
		push(node{f.Root, f.Entry.Blocks[0], 0, 0}, st)
		run()
	}
	f.done = true
}

// Visit runs over the fixpoint: visit is called before each instruction, exit at each return of the entry and each panic
func (f *Flow) Visit(visit func(p *Point), exit func(e *Exit)) {
	var ns []node
	for n := range f.in {
		ns = append(ns, n)
	}
	sortNodes(ns)
	for _, n := range ns {
		for _, k := range sortedKeys(f.in[n]) {
			f.step(n, f.in[n][k].clone(), func(node, *State) {}, visit, exit)
		}
	}
}

// step executes from the node until the control leaves the straight line
func (f *Flow) step(n node, st *State, push func(node, *State), visit func(*Point), exit func(*Exit)) {
	ctx, b := n.ctx, n.b
	final := visit != nil || exit != nil
	stage := n.stage
	for i := n.i; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		p := &Point{F: f, Ctx: ctx, Instr: in, St: st, Final: final}
		if stage == 0 {
			// values redefined by the instruction
			if v, ok := in.(ssa.Value); ok {
				if _, isPhi := in.(*ssa.Phi); !isPhi {
					t := f.term(ctx, v)
					if t.isUnique() && t.V == v && t.Ctx == ctx {
						st.kill(p, t)
					}
				}
			}
			if f.Opt.Transfer != nil {
				f.Opt.Transfer(p)
			}
			if visit != nil {
				visit(p)
			}
		}
		switch in := in.(type) {
		case *ssa.Call:
			if f.doCall(n, i, stage, p, in, in.Common(), push) {
				return
			}
		case *ssa.Defer:
			st.AddEvent("defer", f.deferTerm(ctx, in))
		case *ssa.RunDefers:
			if f.runDefers(n, i, stage, p, push) {
				return
			}
		case *ssa.Alloc:
			if f.accumulates(in) {
				T := derefT(in.Type())
				zero := f.constBool(false)
				if isInt(T) {
					zero = f.constInt(0, T)
				}
				f.storeTo(st, f.term(ctx, in), zero, T)
			}
		case *ssa.Store:
			f.doStore(p, in)
		case *ssa.MapUpdate:
			m := f.term(ctx, in.Map)
			f.killMap(st, m)
		case *ssa.If:
			c := f.term(ctx, in.Cond)
			for k, succ := range b.Succs {
				s2 := st.clone()
				if !s2.Assume(c, k == 0) {
					continue
				}
				f.edge(ctx, b, succ, k, s2, push)
			}
			return
		case *ssa.Jump:
			f.edge(ctx, b, b.Succs[0], 0, st, push)
			return
		case *ssa.Return:
			f.doReturn(p, in, push, exit)
			return
		case *ssa.Panic:
			if exit != nil {
				exit(&Exit{Kind: "panic", P: p})
			}
			return
		}
		stage = 0
	}
}

func (f *Flow) killMap(st *State, m *Term) {
	st.killIf(func(t *Term) bool {
		return (t.Op == "lookup" || t.Op == "lookupok" || t.Op == "len") && len(t.Args) > 0 && mayAliasT(t.Args[0], m)
	})
}

func mayAliasT(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.T == nil || b.T == nil {
		return true
	}
	if !types.Identical(a.T.Underlying(), b.T.Underlying()) {
		return false
	}
	if a.Op == "makemap" && b.Op == "makemap" {
		return false
	}
	if madeBefore(b, a) || madeBefore(a, b) {
		return false
	}
	fa, fb := privateRoot(a), privateRoot(b)
	if fa != nil && fb != nil {
		return fa == fb
	}
	// private memory is not reachable through a parameter or a global
	if fa != nil && rootedOutside(b) || fb != nil && rootedOutside(a) {
		return false
	}
	return true
}

// madeBefore: the value x existed before the memory of y was allocated
func madeBefore(x, y *Term) bool {
	for y.Op == "slice" || y.Op == "arr" || y.Op == "ia" || y.Op == "fa" {
		y = y.Args[0]
	}
	if y.Op != "makeslice" && y.Op != "makemap" && y.Op != "alloc" {
		return false
	}
	for x.Op == "slice" || x.Op == "arr" {
		x = x.Args[0]
	}
	if x.Op == "res" {
		x = x.Args[0]
	}
	if x.Op == "param" {
		return true
	}
	if x.Op != "call" && x.Op != "makeslice" && x.Op != "makemap" || !x.isUnique() || x.Ctx == nil || y.Ctx == nil {
		return false
	}
	xi, ok1 := x.V.(ssa.Instruction)
	yi, ok2 := y.V.(ssa.Instruction)
	if !ok1 || !ok2 {
		return false
	}
	// common context
	for c := x.Ctx; c != nil; c = c.Parent {
		yj := yi
		for d := y.Ctx; d != nil; d = d.Parent {
			if d == c {
				if xi.Block() == yj.Block() {
					return instrIndex(xi) < instrIndex(yj)
				}
				return xi.Block().Dominates(yj.Block())
			}
			if d.Call == nil || d.IsCB {
				break
			}
			yj = d.Call
		}
		if c.Call == nil || c.IsCB {
			break
		}
		xi = c.Call
	}
	return false
}

// privateRoot: the slice or map made locally, if it is never stored anywhere
func privateRoot(t *Term) *Term {
	for t.Op == "slice" || t.Op == "arr" || t.Op == "ia" || t.Op == "fa" {
		t = t.Args[0]
	}
	switch t.Op {
	case "makeslice", "makemap", "alloc":
		if t.f.isPrivate(t.V) {
			return t
		}
	}
	return nil
}

// rootedOutside: path of loads which starts from a parameter or a global
func rootedOutside(t *Term) bool {
	for {
		switch t.Op {
		case "param", "global":
			return true
		case "sel", "idx", "ld", "slice", "lookup", "fa", "ia", "as", "str":
			t = t.Args[0]
		default:
			return false
		}
	}
}

// isPrivate: the value is not stored in memory reachable by others
func (f *Flow) isPrivate(v ssa.Value) bool {
	if p, ok := f.private[v]; ok {
		return p
	}
	f.private[v] = true // for recursion
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return true
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val == v {
					return false
				}
			case *ssa.MapUpdate:
				if r.Value == v {
					return false
				}
			case *ssa.Slice, *ssa.Phi, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.ChangeType:
				if !ok(r.(ssa.Value)) {
					return false
				}
			case *ssa.MakeInterface:
				if !ok(r) {
					return false
				}
			case *ssa.MakeClosure, *ssa.Send:
				return false
			case ssa.CallInstruction:
				c := r.Common()
				fn := c.StaticCallee()
				if fn == nil || !f.W.inMod[fn] {
					continue
				}
				for i, a := range c.Args {
					if a == v && i < len(fn.Params) && !ok(fn.Params[i]) {
						return false
					}
				}
			}
		}
		return true
	}
	r := ok(v)
	f.private[v] = r
	return r
}

// accumulates: a local flag set captured by closures: only constants are assigned and bits added, so its values are finitely many
func (f *Flow) accumulates(al *ssa.Alloc) bool {
	if r, ok := f.accum[al]; ok {
		return r
	}
	if f.accum == nil {
		f.accum = map[*ssa.Alloc]bool{}
	}
	b, ok := derefT(al.Type()).Underlying().(*types.Basic)
	r := ok && (b.Kind() == types.Bool || b.Kind() == types.Uint8)
	var scan func(v ssa.Value) bool
	scan = func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				switch x := u.Val.(type) {
				case *ssa.Const:
				case *ssa.BinOp:
					if x.Op != token.OR {
						return false
					}
				default:
					if b.Kind() != types.Bool {
						return false
					}
				}
				if u.Val == v {
					return false
				}
			case *ssa.MakeClosure:
				for i, w := range u.Bindings {
					if w == v && !scan(u.Fn.(*ssa.Function).FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	r = r && scan(al)
	f.accum[al] = r
	return r
}

func (f *Flow) doStore(p *Point, in *ssa.Store) {
	a := p.St.Resolve(f.term(p.Ctx, in.Addr))
	v := p.St.Resolve(f.term(p.Ctx, in.Val))
	f.storeTo(p.St, a, v, in.Val.Type())
}

func (f *Flow) storeTo(st *State, a, v *Term, T types.Type) {
	ld := f.mkLoadNoFwd(a, T)
	if v == ld {
		return
	}
	if v != nil && v.Any(func(x *Term) bool { return x == ld }) {
		v = nil
	}
	switch a.Op {
	case "fa":
		// the struct as a whole is no longer the one it was copied from
		if b := a.Args[0]; b.Op == "alloc" {
			if w := f.intern("ld", "", nil, b); st.corr[w] != nil {
				delete(st.corr, w)
			}
		}
		st.killIf(func(t *Term) bool {
			if t.Op != "sel" || t.Name != a.Name {
				return false
			}
			b1, b2 := t.Args[0], a.Args[0]
			if b1 == b2 {
				return true
			}
			if b1.Op == "alloc" && b2.Op == "alloc" {
				return false
			}
			return b1.T == nil || b2.T == nil || types.Identical(derefT(b1.T), derefT(b2.T))
		})
	case "ia":
		st.killIf(func(t *Term) bool {
			return t.Op == "idx" && (t.Args[0] == a.Args[0] || mayAliasT(t.Args[0], a.Args[0]))
		})
		return
	default:
		st.killIf(func(t *Term) bool { return t == ld || t.Op == "sel" && t.Args[0] == a })
	}
	if v == nil {
		return
	}
	if f.splitting(v) && !(v.Op == "const" && (v.IsNil() || v.Name == "true" || v.Name == "false" || v.Name == "NONNIL")) && v.Op == "const" {
		// numeric constants: tracked but only if local
		if root := rootOf(a); root.Op != "alloc" {
			return
		}
	}
	if rootOf(a).Op == "alloc" {
		if f.Opt.NonNilStores && isErrT(T) && st.nonNilIn(v) {
			v = f.constNonNil()
		}
		st.corr[ld] = v
	}
}

func derefT(T types.Type) types.Type {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return T
}

func (f *Flow) mkLoadNoFwd(a *Term, T types.Type) *Term {
	switch a.Op {
	case "fa":
		return f.intern("sel", a.Name, T, a.Args[0])
	case "ia":
		return f.mkIdx(a.Args[0], a.Args[1], T)
	}
	return f.intern("ld", "", T, a)
}

// rootOf an address path
func rootOf(a *Term) *Term {
	for a.Op == "fa" || a.Op == "ia" {
		a = a.Args[0]
	}
	return a
}

func (f *Flow) deferTerm(ctx *Ctx, d *ssa.Defer) *Term {
	for i, b := range ctx.Fn.Blocks {
		for j, x := range b.Instrs {
			if x == d {
				return f.constInt(int64(ctx.ID)*1000000+int64(i)*1000+int64(j), types.Typ[types.Int])
			}
		}
	}
	return f.constInt(0, nil)
}

func (f *Flow) defers(fn *ssa.Function) []*ssa.Defer {
	var r []*ssa.Defer
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			if d, ok := x.(*ssa.Defer); ok {
				r = append([]*ssa.Defer{d}, r...)
			}
		}
	}
	return r
}

// runDefers inlines deferred calls which were registered on all paths
func (f *Flow) runDefers(n node, i, stage int, p *Point, push func(node, *State)) bool {
	ds := f.defers(p.Ctx.Fn)
	for k := stage; k < len(ds); k++ {
		d := ds[k]
		dt := f.deferTerm(p.Ctx, d)
		reg := false
		for _, e := range p.St.Events("defer") {
			if e.Args[0] == dt {
				reg = true
			}
		}
		if !reg {
			continue
		}
		ch := f.child(p.Ctx, d, d.Common())
		if ch == nil {
			continue
		}
		f.enter(ch, p, push)
		// continuation is found by the child: store stage in the defer map
		return true
	}
	return false
}

func (f *Flow) enter(ch *Ctx, p *Point, push func(node, *State)) {
	s := p.St.clone()
	push(node{ch, ch.Fn.Blocks[0], 0, 0}, s)
}

// doCall returns true if the control was passed on
func (f *Flow) doCall(n node, i, stage int, p *Point, in ssa.Instruction, c *ssa.CallCommon, push func(node, *State)) bool {
	ctx, st := p.Ctx, p.St
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "delete":
			f.killMap(st, f.term(ctx, c.Args[0]))
		case "copy":
			d := f.term(ctx, c.Args[0])
			st.killIf(func(t *Term) bool { return t.Op == "idx" && mayAliasT(t.Args[0], d) })
		}
		return false
	}
	if ch := f.child(ctx, in, c); ch != nil {
		// result is redefined
		if v, ok := in.(ssa.Value); ok {
			_ = v
			for j := 0; j < ch.Fn.Signature.Results().Len(); j++ {
				t := f.retTerm(ch, j)
				if t.Op == "ret" && t.Ctx == ch {
					st.kill(p, t)
					delete(st.corr, t)
				}
			}
		}
		f.enter(ch, p, push)
		return true
	}
	// opaque call: may write through pointers to locals passed to it
	for _, a := range c.Args {
		t := f.term(ctx, a)
		if t.Op == "alloc" || t.Op == "fa" {
			st.killIf(func(x *Term) bool {
				return x.Op == "ld" && x.Args[0] == t || x.Op == "sel" && rootOf(x.Args[0]) == t || x.Op == "sel" && f.mkFA(x.Args[0], x.Name, nil) == t
			})
		}
	}
	// callbacks
	if stage == 0 {
		if cbs := f.callbacks(ctx, in, c); len(cbs) > 0 {
			// not called at all
			push(node{ctx, n.b, i + 1, 0}, st.clone())
			for _, cb := range cbs {
				f.enterCB(cb, p, push)
			}
			return true
		}
	}
	return false
}

func (f *Flow) enterCB(cb *Ctx, p *Point, push func(node, *State)) {
	s := p.St.clone()
	for _, t := range cb.Params {
		s.kill(p, t)
	}
	push(node{cb, cb.Fn.Blocks[0], 0, 0}, s)
}

// callbacks are the contexts of module functions passed as arguments to an opaque function
func (f *Flow) callbacks(ctx *Ctx, in ssa.Instruction, c *ssa.CallCommon) []*Ctx {
	var r []*Ctx
	for i, a := range c.Args {
		if _, ok := a.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		fn, free := f.funcOf(f.term(ctx, a))
		if fn == nil || !f.inlinable(ctx, fn) {
			continue
		}
		key := in.(ssa.Value).Name() + "/" + string(rune('0'+i))
		cb := ctx.cbs[key]
		if cb == nil {
			cb = f.newCtx(fn, ctx, in)
			cb.IsCB = true
			cb.Free = free
			for j, prm := range fn.Params {
				t := f.unique("cbparam", cb, prm, "")
				_ = j
				cb.Params = append(cb.Params, t)
			}
			ctx.cbs[key] = cb
		}
		r = append(r, cb)
	}
	return r
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func (f *Flow) doReturn(p *Point, in *ssa.Return, push func(node, *State), exit func(*Exit)) {
	ctx, st := p.Ctx, p.St
	if f.Opt.Discharge != nil {
		f.Opt.Discharge(st)
	}
	var res []*Term
	for _, r := range in.Results {
		res = append(res, st.Resolve(f.term(ctx, r)))
	}
	if ctx.Parent == nil {
		if exit != nil {
			exit(&Exit{Kind: "return", P: p, Results: res})
		}
		return
	}
	call := ctx.Call
	if ctx.IsCB {
		// back to the opaque function, which may call again
		s := st.clone()
		f.leave(ctx, s, nil)
		push(node{ctx.Parent, call.Block(), instrIndex(call) + 1, 0}, s.clone())
		if len(res) == 1 && res[0].T != nil && basicKind(res[0].T) == types.Bool && st.False(res[0]) {
			return // iterators stop
		}
		pp := &Point{F: f, Ctx: ctx.Parent, Instr: call, St: s}
		for _, cb := range ctx.Parent.cbs {
			if cb.Call == call {
				f.enterCB(cb, pp, push)
			}
		}
		return
	}
	if _, isDefer := call.(*ssa.Defer); isDefer {
		s := st.clone()
		f.leave(ctx, s, nil)
		ds := f.defers(ctx.Parent.Fn)
		stage := 0
		for k, d := range ds {
			if ssa.Instruction(d) == call {
				stage = k + 1
			}
		}
		// the RunDefers instruction being executed: any of the parent's; continue at all (usually one per return)
		for _, b := range ctx.Parent.Fn.Blocks {
			for j, x := range b.Instrs {
				if _, ok := x.(*ssa.RunDefers); ok {
					push(node{ctx.Parent, b, j, stage}, s.clone())
				}
			}
		}
		return
	}
	s := st.clone()
	keep := map[*Term]*Term{}
	for j := range res {
		t := f.retTerm(ctx, j)
		if t.Op == "ret" && t.Ctx == ctx {
			v := res[j]
			if s.nonNilIn(v) && v.Op != "alloc" && v.Op != "closure" && v.Op != "makemap" && v.Op != "makeslice" {
				if (v.T == nil || !isInt(v.T)) && !(f.Opt.KeepErrs && isErrT(v.T)) {
					v = f.constNonNil()
				}
			}
			if v != t && f.trackable(v) {
				keep[t] = v
			}
			// facts about the value hold for the result, too
			f.copyFacts(s, res[j], t)
		}
	}
	f.leave(ctx, s, keep)
	push(node{ctx.Parent, call.Block(), instrIndex(call) + 1, 0}, s)
}

// trackable values are remembered for merged values per disjunct
func (f *Flow) trackable(v *Term) bool { return true }

// copyFacts of a value to the merged value
func (f *Flow) copyFacts(s *State, from, to *Term) {
	if from == to || from.Op == "const" {
		return
	}
	nilT := f.constNil()
	for _, pos := range []bool{true, false} {
		k := f.mkEq(from, nilT)
		if k.Op == "const" {
			continue
		}
		if _, ok := s.facts[condKey(k, pos)]; ok {
			k2 := f.mkEq(to, nilT)
			if k2.Op != "const" {
				s.facts[condKey(k2, pos)] = &Atom{Key: condKey(k2, pos), Cond: k2, Pos: pos}
			}
		}
	}
}

// leave a context: forget correlations of its merged values unless they are the result
func (f *Flow) leave(ctx *Ctx, s *State, keep map[*Term]*Term) {
	for k, v := range keep {
		s.corr[k] = v
	}
	// merged values of the context survive only if they are visible through a kept value or a result term
	vis := map[*Term]bool{}
	for j := 0; j < ctx.Fn.Signature.Results().Len(); j++ {
		for l := range f.retTerm(ctx, j).Leaves() {
			vis[l] = true
		}
	}
	for _, v := range keep {
		for l := range v.Leaves() {
			vis[l] = true
		}
	}
	for k, v := range s.corr {
		if _, ok := keep[k]; ok {
			continue
		}
		if k.Ctx != nil && k.Ctx.within(ctx) && !vis[k] && f.splitting(v) {
			delete(s.corr, k)
		}
	}
}

func (f *Flow) isLoopHead(b *ssa.BasicBlock) bool {
	fn := b.Parent()
	m := f.loops[fn]
	if m == nil {
		m = map[*ssa.BasicBlock]bool{}
		for _, x := range fn.Blocks {
			for _, s := range x.Succs {
				if s.Dominates(x) {
					m[s] = true
				}
			}
		}
		f.loops[fn] = m
	}
	return m[b]
}

// edge passes the state along a CFG edge
func (f *Flow) edge(ctx *Ctx, from, to *ssa.BasicBlock, succIdx int, st *State, push func(node, *State)) {
	st = st.clone()
	// which predecessor edge
	pi := -1
	cnt := 0
	for i, pr := range to.Preds {
		if pr == from {
			// parallel edges: the k-th occurrence
			if pi == -1 {
				pi = i
			} else if len(from.Succs) == 2 && from.Succs[0] == from.Succs[1] && succIdx == 1 {
				pi = i
			}
			cnt++
		}
	}
	if f.Opt.Discharge != nil {
		f.Opt.Discharge(st)
	}
	loop := f.isLoopHead(to)
	type upd struct{ t, v *Term }
	var ups []upd
	var lastPhi ssa.Instruction
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		lastPhi = ph
		t := f.term(ctx, ph)
		if t.Op != "phi" || t.V != ssa.Value(ph) {
			continue
		}
		v := st.Resolve(f.term(ctx, ph.Edges[pi]))
		nn := st.nonNilIn(v) || st.corr[v] == f.constNonNil()
		if nn && !isPtrAlloc(v) && (v.T == nil || !isInt(v.T)) {
			if loop {
				v = f.constNonNil()
			}
		}
		ups = append(ups, upd{t, v})
	}
	p := &Point{F: f, Ctx: ctx, Instr: lastPhi, St: st}
	for _, u := range ups {
		if u.v != u.t {
			// the new value may depend on the old one
			st.kill(p, u.t)
			delete(st.corr, u.t)
		}
	}
	if f.Opt.PhiEdge != nil {
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			f.Opt.PhiEdge(st, f.term(ctx, ph), f.term(ctx, ph.Edges[pi]))
		}
	}
	for _, u := range ups {
		if u.v == u.t {
			continue
		}
		dep := false
		for _, u2 := range ups {
			if u.v.Leaves()[u2.t] {
				dep = true
			}
		}
		if dep {
			continue
		}
		if loop {
			if !(u.v.IsNil() || u.v.IsConst("true") || u.v.IsConst("false") || u.v == f.constNonNil()) {
				continue
			}
		}
		st.corr[u.t] = u.v
		f.copyFacts(st, u.v, u.t)
	}
	push(node{ctx, to, 0, 0}, st)
}

func isPtrAlloc(v *Term) bool { return v.Op == "alloc" || v.Op == "makemap" || v.Op == "makeslice" }

// PhiEdges returns the terms merged by a phi or result term
func (f *Flow) PhiEdges(t *Term) []*Term {
	if e, ok := f.phiDef[t]; ok {
		return e
	}
	var r []*Term
	switch t.Op {
	case "phi":
		for _, e := range t.V.(*ssa.Phi).Edges {
			r = append(r, f.term(t.Ctx, e))
		}
	case "ret":
		var j int
		for k := 0; k < t.Ctx.Fn.Signature.Results().Len(); k++ {
			if f.retUnique(t.Ctx, k) == t {
				j = k
			}
		}
		for _, x := range f.returns(t.Ctx.Fn) {
			r = append(r, f.term(t.Ctx, x.Results[j]))
		}
	}
	f.phiDef[t] = r
	return r
}
