package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = checkDef{run: runC13,
		explanation: "Determinism analysis of all functions of the library (generators of random test data and of setups aside): calls of sources of non-determinism (time, randomness, environment, runtime, addresses, goroutines, select) are forbidden; package variables which are written after initialization are not read; and every loop over a map, and every use of a slice filled in the order of a map, is shown to be independent of the order by data-flow over SSA: each effect of an iteration is an update of a place given by the key, a commutative accumulation, a constant, or local to the iteration, nothing is written sequentially or taken from an arbitrary entry, unless the map has one entry or the slice is sorted."}
}

// inLib: the function belongs to the library, the generator of setups aside
func inLib(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath+"/") && !strings.Contains(p.Pkg.Path(), "/examples/") && p.Pkg.Path() != pkgShort["setup"]
}

// randomOnPurpose: functions which generate random data or setups
func randomOnPurpose(fn *ssa.Function) bool {
	n := fname(fn)
	if strings.Contains(n, "RandStreamIterator") {
		return true
	}
	return strings.Contains(strings.ToLower(fn.Name()), "rootofunity")
}

func (w *World) scopeFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range w.Funcs {
		if inLib(fn.Pkg) && (fn.Synthetic == "" || fn.Name() == "init") {
			r = append(r, fn)
		}
	}
	return r
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + c.Value.Type().String() + ")." + c.Method.Name()
	}
	if g := c.StaticCallee(); g != nil {
		if g.Signature.Recv() != nil {
			return "(" + g.Signature.Recv().Type().String() + ")." + g.Name()
		}
		if g.Pkg != nil {
			return g.Pkg.Pkg.Path() + "." + g.Name()
		}
		if g.Object() != nil && g.Object().Pkg() != nil {
			return g.Object().Pkg().Path() + "." + g.Name()
		}
	}
	return ""
}

var randomSources = []string{"time.", "math/rand.", "math/rand/v2.", "crypto/rand.", "runtime.", "hash/maphash.", "go.dedis.ch/kyber/v3/util/random.",
	"os.Getenv", "os.LookupEnv", "os.Environ", "os.Getpid", "os.Getppid", "os.Getuid", "os.Hostname", "os.Getwd", "os.Executable", "os.TempDir", "os.UserHomeDir"}

func nonDeterministic(name string) bool {
	for _, s := range randomSources {
		if strings.HasPrefix(name, s) || strings.HasPrefix(name, "("+s) || strings.HasPrefix(name, "(*"+s) {
			return true
		}
	}
	return strings.HasSuffix(name, ").RandomStream")
}

func runC13(r *Report) {
	w := r.W
	fns := w.scopeFuncs()
	written := map[*ssa.Global]ssa.Instruction{}
	for _, fn := range w.Funcs {
		if fn.Name() == "init" && fn.Synthetic != "" || fn.Parent() == nil && strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if g := globalOf(in.Addr); g != nil {
						written[g] = in
					}
				case *ssa.MapUpdate:
					if g := globalOf(in.Map); g != nil {
						written[g] = in
					}
				}
			}
		}
	}
	for _, fn := range fns {
		r.Analysed(fn)
		random := randomOnPurpose(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				at := w.InstrPos(in)
				switch x := in.(type) {
				case *ssa.Go:
					r.Bad("source", "goroutines in "+fname(fn), at, "a goroutine is started")
				case *ssa.Select:
					if len(x.States) > 1 {
						r.Bad("source", "select in "+fname(fn), at, "the case of a select is arbitrary")
					}
				case *ssa.Convert:
					if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
						if basicKind(x.Type()) == types.Uintptr {
							r.Bad("source", "addresses in "+fname(fn), at, "an address is converted to a number")
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && !random {
					n := calleeName(c.Common())
					r.Check(!nonDeterministic(n) || strings.HasSuffix(n, ".init"), "source", "calls in "+fname(fn), at, "%s depends on more than its arguments", n)
					if strings.HasPrefix(n, "fmt.") {
						for _, a := range c.Common().Args {
							if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") {
								r.Bad("source", "addresses in "+fname(fn), at, "an address is printed")
							}
						}
					}
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if g := globalOf(u.X); g != nil && inLib(g.Pkg) {
						wr := written[g]
						where := ""
						if wr != nil {
							where = w.InstrPos(wr)
						}
						r.Check(wr == nil, "global", "variable "+g.Name()+" read in "+fname(fn), at, "the variable is modified at %s", where)
					}
				}
			}
		}
	}
	r.Min("source", 100)
	r.Min("global", 5)
	o := &orderCheck{r: r, w: w, seen: map[ssa.Value]bool{}}
	n := 0
	for _, fn := range fns {
		if hasConsumer(fn) {
			continue // the order of an iteration over a store is not defined
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				rg, ok := in.(*ssa.Range)
				if !ok {
					continue
				}
				if _, isMap := rg.X.Type().Underlying().(*types.Map); isMap {
					n++
					o.mapLoop(fn, rg)
				}
			}
		}
	}
	for len(o.work) > 0 {
		u := o.work[0]
		o.work = o.work[1:]
		o.unordered(u)
	}
	r.Check(n >= 8, "order", "loops over maps", "", "only %d loops over maps were found", n)
}

func hasConsumer(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if isConsumerT(p.Type()) {
			return true
		}
	}
	return false
}

// globalOf: the address or the map belongs to the package variable itself
func globalOf(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
}

type unorderedVal struct {
	fn *ssa.Function
	v  ssa.Value
}

type orderCheck struct {
	r    *Report
	w    *World
	seen map[ssa.Value]bool
	work []unorderedVal
}

func (o *orderCheck) add(fn *ssa.Function, v ssa.Value) {
	if !o.seen[v] {
		o.seen[v] = true
		o.work = append(o.work, unorderedVal{fn, v})
	}
}

// naturalLoop: blocks of the loop with the head
func naturalLoop(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{head: true}
	var st []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) {
			st = append(st, p)
		}
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if body[b] {
			continue
		}
		body[b] = true
		st = append(st, b.Preds...)
	}
	return body
}

func (o *orderCheck) mapLoop(fn *ssa.Function, rg *ssa.Range) {
	for _, ref := range *rg.Referrers() {
		nx, ok := ref.(*ssa.Next)
		if !ok {
			continue
		}
		keys, vals := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, e := range *nx.Referrers() {
			if ex, ok := e.(*ssa.Extract); ok {
				switch ex.Index {
				case 1:
					keys[ex] = true
				case 2:
					vals[ex] = true
				}
			}
		}
		o.loop(fn, nx.Block(), keys, vals, rg.X, o.w.InstrPos(rg))
	}
}

type orderLoop struct {
	o         *orderCheck
	fn        *ssa.Function
	head      *ssa.BasicBlock
	body      map[*ssa.BasicBlock]bool // blocks of the loop
	region    map[*ssa.BasicBlock]bool // blocks of the loop and those which are reached from inside only
	keys, dep map[ssa.Value]bool
	carried   map[ssa.Value]bool // values which depend on previous iterations
	tainted   map[ssa.Value]bool // elements of curves which are computed from the iteration
	coll      ssa.Value
	nBad      int
}

// loop: the iterations of the loop can be taken in any order
func (o *orderCheck) loop(fn *ssa.Function, head *ssa.BasicBlock, keys, vals map[ssa.Value]bool, coll ssa.Value, at string) {
	l := &orderLoop{o: o, fn: fn, head: head, body: naturalLoop(head), region: map[*ssa.BasicBlock]bool{}, keys: map[ssa.Value]bool{}, dep: map[ssa.Value]bool{}, carried: map[ssa.Value]bool{}, tainted: map[ssa.Value]bool{}, coll: coll}
	in0 := head.Succs[0]
	if len(head.Succs) > 1 && !l.body[in0] && l.body[head.Succs[1]] {
		in0 = head.Succs[1]
	}
	for _, b := range fn.Blocks {
		if l.body[b] || in0 != head && len(in0.Preds) == 1 && in0.Dominates(b) {
			l.region[b] = true
		}
	}
	for k := range keys {
		l.keys[k], l.dep[k] = true, true
	}
	for v := range vals {
		l.dep[v] = true
	}
	var phis []*ssa.Phi
	for _, in := range head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
	for _, ph := range phis {
		l.carried[ph] = true
	}
	for changed := true; changed; {
		changed = false
		for b := range l.region {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || keys[v] || vals[v] || isPhiOf(v, head) {
					continue
				}
				if _, isNext := in.(*ssa.Next); isNext {
					continue
				}
				set := func(m map[ssa.Value]bool) {
					if !m[v] {
						m[v] = true
						changed = true
					}
				}
				if c, ok := in.(*ssa.Call); ok && c.Common().IsInvoke() && isKyber(c.Common().Value.Type()) && mutatesReceiver[c.Common().Method.Name()] && !l.tainted[c.Common().Value] {
					for _, a := range c.Common().Args {
						if l.dep[a] || l.tainted[a] {
							l.tainted[c.Common().Value] = true
							changed = true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if l.dep[*op] {
						set(l.dep)
					}
					if l.keys[*op] {
						if _, isPhi := in.(*ssa.Phi); !isPhi {
							set(l.keys)
						}
					}
					if l.carried[*op] {
						set(l.carried)
					}
				}
				if ph, ok := in.(*ssa.Phi); ok {
					for _, e := range ph.Edges {
						if e != ph.Edges[0] {
							set(l.dep) // which one depends on the iteration
						}
					}
				}
			}
		}
	}
	l.check(phis, at)
}

func (l *orderLoop) bad(in ssa.Instruction, format string, args ...interface{}) {
	l.nBad++
	l.o.r.Bad("order", "loop over a map in "+fname(l.fn), l.o.w.InstrPos(in), format, args...)
}

func isPhiOf(v ssa.Value, b *ssa.BasicBlock) bool {
	ph, ok := v.(*ssa.Phi)
	return ok && ph.Block() == b
}

var commutes = map[token.Token]bool{token.ADD: true, token.MUL: true, token.AND: true, token.OR: true, token.XOR: true, token.SUB: true, token.LAND: true, token.LOR: true}

// accumulates: x is the place combined with a value which does not depend on it
func (l *orderLoop) accumulates(x ssa.Value, isPlace func(ssa.Value) bool) bool {
	b, ok := x.(*ssa.BinOp)
	if !ok || !commutes[b.Op] {
		return false
	}
	if bt, ok := b.Type().Underlying().(*types.Basic); !ok || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return false
	}
	if isPlace(b.X) && !l.carried[b.Y] {
		return true
	}
	if isPlace(b.Y) && !l.carried[b.X] && b.Op != token.SUB {
		return true
	}
	// several steps
	return b.Op != token.MUL && b.Op != token.AND && (l.accumulates(b.X, isPlace) && !l.carried[b.Y])
}

// leaves of a merged value inside the loop
func (l *orderLoop) leaves(v ssa.Value, seen map[ssa.Value]bool, f func(v ssa.Value, ph *ssa.Phi, pred *ssa.BasicBlock), ph *ssa.Phi, pred *ssa.BasicBlock) {
	if x, ok := v.(*ssa.Phi); ok && l.region[x.Block()] && x.Block() != l.head {
		if seen[v] {
			return
		}
		seen[v] = true
		for i, e := range x.Edges {
			l.leaves(e, seen, f, x, x.Block().Preds[i])
		}
		return
	}
	f(v, ph, pred)
}

// appendTo: v = append(place, ...) (possibly several times)
func appendBase(v ssa.Value) (ssa.Value, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	b, ok := c.Common().Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return nil, false
	}
	return c.Common().Args[0], true
}

func (l *orderLoop) check(phis []*ssa.Phi, at string) {
	r := l.o.r
	// values carried from one iteration to the next
	acc := map[*ssa.Phi]bool{}
	for _, ph := range phis {
		if ph.Comment == "rangeindex" || l.indexOf(ph) {
			continue
		}
		var consts []ssa.Value
		for i, e := range ph.Edges {
			if !l.body[l.head.Preds[i]] {
				continue
			}
			l.leaves(e, map[ssa.Value]bool{}, func(v ssa.Value, in *ssa.Phi, pred *ssa.BasicBlock) {
				isPh := func(x ssa.Value) bool {
					ok := true
					l.leaves(x, map[ssa.Value]bool{}, func(y ssa.Value, _ *ssa.Phi, _ *ssa.BasicBlock) {
						ok = ok && (y == ph || l.accumulates(y, func(z ssa.Value) bool { return z == ph }))
					}, nil, nil)
					return ok
				}
				if v == ph {
					return
				}
				if !l.dep[v] && !l.carried[v] {
					for _, c := range consts {
						if !sameConst(c, v) {
							l.bad(ph, "which value %s has after the loop depends on the last iteration", name(ph))
						}
					}
					consts = append(consts, v)
					return
				}
				if l.accumulates(v, isPh) {
					acc[ph] = true
					return
				}
				base := v
				n := 0
				for {
					b, ok := appendBase(base)
					if !ok {
						break
					}
					base, n = b, n+1
				}
				if n > 0 && isPh(base) {
					acc[ph] = true
					l.o.add(l.fn, ph)
					return
				}
				if l.extremum(ph, v, in, pred) {
					acc[ph] = true
					return
				}
				if l.accPoint(v, ph) {
					acc[ph] = true
					return
				}
				if !l.usedAfter(ph) && !l.usedInLoopBesides(ph) {
					return
				}
				l.bad(ph, "%s is carried from one iteration to the next", name(ph))
			}, nil, nil)
		}
	}
	// effects
	var effect, exit ssa.Instruction
	for b := range l.region {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !l.local(x.Addr) && !l.scratch(x.Addr) {
					effect = in
				}
			case *ssa.MapUpdate:
				if !l.local(x.Map) {
					effect = in
				}
			case *ssa.Call:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" && !l.local(x.Common().Args[0]) {
					effect = in
				}
			case *ssa.Return:
				if !l.failing(x) && !l.single(b) && !l.keyGuard(b) {
					exit = in
				}
			}
			if effect == in || effectful(in) {
				if c := l.carriedGuard(b); c != nil {
					l.bad(in, "whether this happens depends on previous iterations")
				}
			}
		}
		if b != l.head && !l.single(b) && !l.keyGuard(b) {
			for _, s := range b.Succs {
				if !l.region[s] && !l.failsAt(s, b) {
					exit = b.Instrs[len(b.Instrs)-1]
				}
			}
		}
	}
	if effect != nil && exit != nil {
		l.bad(exit, "the loop may end early, so which entries are handled depends on the order")
	}
	for b := range l.region {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				l.place(in, in.Addr, in.Val)
			case *ssa.MapUpdate:
				switch {
				case l.local(in.Map), l.keys[in.Key] && !l.carried[in.Key] && !l.carried[in.Value]:
				case l.dep[in.Map] && !l.carried[in.Map]:
				case !l.dep[in.Value] && !l.carried[in.Value] && !l.carried[in.Key]:
				default:
					l.bad(in, "an entry is written which is not given by the key of the iteration")
				}
			case *ssa.Send:
				l.bad(in, "something is sent in the order of the iteration")
			case ssa.CallInstruction:
				l.call(in)
			case *ssa.Return:
				if l.returnsOK(in) {
					continue
				}
				l.bad(in, "what is returned depends on which entry comes first")
			}
		}
	}
	// merged after the loop
	for _, b := range l.fn.Blocks {
		if l.region[b] {
			continue
		}
		fromBody := false
		for _, p := range b.Preds {
			fromBody = fromBody || l.region[p] && p != l.head
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !fromBody {
				continue
			}
			for i, e := range ph.Edges {
				if !l.region[b.Preds[i]] {
					continue
				}
				if p, ok := e.(*ssa.Phi); ok && p.Block() == l.head && acc[p] && !l.single(b.Preds[i]) && b.Preds[i] != l.head {
					l.bad(ph, "the loop may end early, so the accumulated value depends on the order")
				}
				if l.dep[e] && b.Preds[i] != l.head && !l.single(b.Preds[i]) && !isErrT(e.Type()) && !l.keyGuard(b.Preds[i]) {
					l.bad(ph, "%s depends on which entry comes first", name(ph))
				}
			}
		}
	}
	if l.nBad == 0 {
		r.OK("order", "loop over a map in "+fname(l.fn), at)
	}
}

// indexOf: the phi is the index by which the unordered slice is read
func (l *orderLoop) indexOf(ph *ssa.Phi) bool {
	if ph.Referrers() == nil {
		return false
	}
	isIA := func(v ssa.Value) bool {
		for _, ref := range *v.Referrers() {
			if ia, ok := ref.(*ssa.IndexAddr); ok && ia.X == l.coll && ia.Index == v {
				return true
			}
		}
		return false
	}
	if isIA(ph) {
		return true
	}
	for _, ref := range *ph.Referrers() {
		if b, ok := ref.(*ssa.BinOp); ok && isIA(b) {
			return true
		}
	}
	return false
}

func name(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return "a value"
}

func sameConst(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && (x.Value == nil && y.Value == nil || x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString())
}

// extremum: v replaces the phi if it compares less or greater
func (l *orderLoop) extremum(ph *ssa.Phi, v ssa.Value, in *ssa.Phi, pred *ssa.BasicBlock) bool {
	for b := pred; b != nil && l.body[b]; {
		if len(b.Preds) != 1 {
			return false
		}
		p := b.Preds[0]
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
			if c, ok := iff.Cond.(*ssa.BinOp); ok {
				switch c.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					if c.X == v && c.Y == ssa.Value(ph) || c.Y == v && c.X == ssa.Value(ph) {
						return true
					}
				}
			}
		}
		b = p
	}
	return false
}

// accPoint: v = phi.Add(phi, x) for elements of curves
func (l *orderLoop) accPoint(v ssa.Value, ph *ssa.Phi) bool {
	c, ok := v.(*ssa.Call)
	if !ok || !c.Common().IsInvoke() || !isKyber(c.Common().Value.Type()) {
		return false
	}
	return accumulating(c.Common(), func(x ssa.Value) bool { return x == ssa.Value(ph) })
}

func accumulating(c *ssa.CallCommon, isPlace func(ssa.Value) bool) bool {
	switch c.Method.Name() {
	case "Add", "Mul":
		return len(c.Args) == 2 && (isPlace(c.Args[0]) != isPlace(c.Args[1]))
	case "Sub":
		return len(c.Args) == 2 && isPlace(c.Args[0]) && !isPlace(c.Args[1])
	}
	return false
}

func (l *orderLoop) usedAfter(v ssa.Value) bool {
	if v.Referrers() == nil {
		return true
	}
	for _, ref := range *v.Referrers() {
		if !l.region[ref.Block()] {
			return true
		}
	}
	return false
}

func (l *orderLoop) usedInLoopBesides(ph *ssa.Phi) bool {
	for _, ref := range *ph.Referrers() {
		if _, ok := ref.(*ssa.Phi); !ok && l.region[ref.Block()] {
			return true
		}
	}
	return false
}

// local: allocated by the iteration
func (l *orderLoop) local(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return l.region[x.(ssa.Instruction).Block()]
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return false
		}
	}
}

// scratch: a place which is used in the loop only
func (l *orderLoop) scratch(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.IndexAddr:
			v = x.X
			continue
		case *ssa.Slice:
			v = x.X
			continue
		}
		break
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		if !l.onlyInside(v) {
			return false
		}
		if isComposite(x.Type().Underlying().(*types.Pointer).Elem()) {
			return true
		}
		// assigned first
		for _, ref := range *x.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == v && l.before(st, v) {
				return true
			}
		}
	case *ssa.MakeSlice:
		return l.onlyInside(v)
	case *ssa.Call:
		if !l.onlyInside(v) {
			return false
		}
		for _, ref := range *x.Referrers() {
			if c, ok := ref.(*ssa.Call); ok && c.Common().IsInvoke() && c.Common().Value == v && mutatesReceiver[c.Common().Method.Name()] && l.before(c, v) {
				own := false
				for _, a := range c.Common().Args {
					own = own || a == v
				}
				return !own
			}
		}
	}
	return false
}

// before: the instruction is executed before all other uses of the value in the loop
func (l *orderLoop) before(in ssa.Instruction, v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		if ref == in || !l.region[ref.Block()] {
			continue
		}
		if _, ok := ref.(*ssa.DebugRef); ok {
			continue
		}
		if ref.Block() == in.Block() {
			for _, x := range in.Block().Instrs {
				if x == ref {
					return false
				}
				if x == in {
					break
				}
			}
			continue
		}
		if !in.Block().Dominates(ref.Block()) {
			return false
		}
	}
	return true
}

func (l *orderLoop) onlyInside(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, ref := range *v.Referrers() {
		if l.region[ref.Block()] {
			continue
		}
		if _, ok := ref.(*ssa.DebugRef); ok {
			continue
		}
		if s, ok := ref.(*ssa.Slice); ok && l.onlyInside(s) {
			continue
		}
		return false
	}
	return true
}

// place: the store to the address can be made in any order
func (l *orderLoop) place(in ssa.Instruction, addr, val ssa.Value) {
	if l.local(addr) || l.scratch(addr) {
		return
	}
	if l.keyed(addr) {
		if l.carried[val] {
			l.bad(in, "what is stored under the key depends on previous iterations")
		}
		return
	}
	if l.carried[addr] {
		l.bad(in, "the place depends on previous iterations")
		return
	}
	if !l.dep[val] && !l.carried[val] {
		if l.dep[addr] {
			return
		}
		// the same value whatever the order, provided no other is stored there
		for b := range l.region {
			for _, x := range b.Instrs {
				if s, ok := x.(*ssa.Store); ok && s.Addr == addr && !sameConst(s.Val, val) {
					l.bad(in, "the value stored depends on the last iteration")
				}
			}
		}
		return
	}
	if l.accumulates(val, func(x ssa.Value) bool {
		u, ok := x.(*ssa.UnOp)
		return ok && u.Op == token.MUL && samePlace(u.X, addr)
	}) {
		return
	}
	// fields of the entry of the iteration
	if l.dep[addr] && !l.carried[addr] {
		return
	}
	if base, ok := appendBase(val); ok {
		if u, ok := base.(*ssa.UnOp); ok && samePlace(u.X, addr) {
			l.o.addPlace(l.fn, addr, in)
			return
		}
	}
	l.bad(in, "the value stored depends on the last iteration")
}

func samePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return x.Field == y.Field && samePlace(x.X, y.X)
	}
	i, ok1 := a.(*ssa.IndexAddr)
	j, ok2 := b.(*ssa.IndexAddr)
	return ok1 && ok2 && samePlace(i.X, j.X) && sameConst(i.Index, j.Index)
}

// keyed: the address is given by the key of the iteration
func (l *orderLoop) keyed(addr ssa.Value) bool {
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			if l.keys[x.Index] && !l.carried[x.Index] {
				return true
			}
			addr = x.X
		case *ssa.UnOp:
			addr = x.X
		case *ssa.Slice:
			addr = x.X
		case *ssa.Phi:
			return false
		default:
			return false
		}
	}
}

// addPlace: a place which holds a slice in the order of a map
func (o *orderCheck) addPlace(fn *ssa.Function, addr ssa.Value, in ssa.Instruction) {
	a, ok := addr.(*ssa.Alloc)
	if !ok {
		o.r.Bad("order", "loop over a map in "+fname(fn), o.w.InstrPos(in), "entries are appended in the order of the map")
		return
	}
	for _, ref := range *a.Referrers() {
		if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
			o.add(fn, u)
		}
	}
}

func sequential(T types.Type) bool {
	ms := types.NewMethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || f.Name() != "Write" {
			continue
		}
		s := f.Type().(*types.Signature)
		if s.Params().Len() == 1 && isByteSlice(s.Params().At(0).Type()) {
			return true
		}
		if s.Params().Len() == 2 && isByteSlice(s.Params().At(0).Type()) && isByteSlice(s.Params().At(1).Type()) {
			return true
		}
	}
	return false
}

// call: what is called may be called in any order
func (l *orderLoop) call(in ssa.CallInstruction) {
	c := in.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "copy" {
			d := c.Args[0]
			if !l.local(d) && !l.scratch(d) && !l.keyed(d) && (l.dep[c.Args[1]] || l.carried[c.Args[1]]) && !(l.dep[d] && !l.carried[d]) {
				l.bad(in, "what is copied depends on the last iteration")
			}
		}
		return
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	dependent := false
	for _, a := range args {
		dependent = dependent || l.dep[a] || l.carried[a] || l.tainted[a]
	}
	for _, a := range args {
		v := a
		for {
			if m, ok := v.(*ssa.MakeInterface); ok {
				v = m.X
				continue
			}
			if m, ok := v.(*ssa.ChangeInterface); ok {
				v = m.X
				continue
			}
			break
		}
		if l.dep[v] && !l.carried[v] || l.local(v) {
			continue
		}
		if sequential(v.Type()) || sequential(a.Type()) {
			if x, ok := v.(ssa.Instruction); ok && l.region[x.Block()] && !l.carried[v] && l.freshCall(v) {
				continue
			}
			l.bad(in, "something is written in the order of the map")
		}
	}
	if c.IsInvoke() && isKyber(c.Value.Type()) && mutatesReceiver[c.Method.Name()] && !l.dep[c.Value] && !l.definedInside(c.Value) {
		if accumulating(c, func(x ssa.Value) bool { return x == c.Value }) && !l.carried[c.Args[0]] && !l.carried[c.Args[1]] {
			return
		}
		if dependent && !l.scratch(c.Value) {
			l.bad(in, "the element depends on the last iteration")
		}
	}
}

var mutatesReceiver = map[string]bool{"Set": true, "Null": true, "Base": true, "Neg": true, "Add": true, "Sub": true, "Mul": true, "Div": true, "Inv": true, "One": true, "Zero": true, "SetInt64": true, "SetBytes": true, "Pick": true, "Embed": true, "UnmarshalBinary": true, "UnmarshalFrom": true}

func (l *orderLoop) definedInside(v ssa.Value) bool {
	x, ok := v.(ssa.Instruction)
	return ok && l.region[x.Block()]
}

// freshCall: a value made in the iteration
func (l *orderLoop) freshCall(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Call, *ssa.Extract, *ssa.Alloc:
		return true
	}
	return false
}

// single: at the block the collection has one entry
func (l *orderLoop) single(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			return false
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 || d.Preds[0] != p {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		onTrue := p.Succs[0] == d
		isLen := func(v ssa.Value) bool {
			k, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			bi, ok := k.Common().Value.(*ssa.Builtin)
			return ok && bi.Name() == "len" && (k.Common().Args[0] == l.coll || sameLoad(k.Common().Args[0], l.coll))
		}
		isN := func(v ssa.Value, n int64) bool {
			k, ok := v.(*ssa.Const)
			return ok && k.Value != nil && k.Int64() == n
		}
		x, y, op := c.X, c.Y, c.Op
		if isLen(y) {
			x, y = y, x
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
		if !isLen(x) {
			continue
		}
		switch {
		case onTrue && op == token.EQL && isN(y, 1), !onTrue && op == token.NEQ && isN(y, 1),
			onTrue && op == token.LSS && isN(y, 2), onTrue && op == token.LEQ && isN(y, 1),
			!onTrue && op == token.GTR && isN(y, 1), !onTrue && op == token.GEQ && isN(y, 2):
			return true
		}
	}
	return false
}

func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && samePlace(x.X, y.X)
}

// keyGuard: the block is reached for one key only
func (l *orderLoop) keyGuard(b *ssa.BasicBlock) bool {
	for d := b; d != nil && l.region[d]; d = d.Idom() {
		p := d.Idom()
		if p == nil || !l.region[p] || len(d.Preds) != 1 {
			continue
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if c, ok := iff.Cond.(*ssa.BinOp); ok && (c.Op == token.EQL && p.Succs[0] == d || c.Op == token.NEQ && p.Succs[1] == d) {
			if l.keys[c.X] && !l.dep[c.Y] && !l.carried[c.Y] || l.keys[c.Y] && !l.dep[c.X] && !l.carried[c.X] {
				return true
			}
		}
	}
	return false
}

// failing: an error is returned
func (l *orderLoop) failing(ret *ssa.Return) bool {
	for _, x := range ret.Results {
		if isErrT(x.Type()) {
			if k, ok := x.(*ssa.Const); !ok || !k.IsNil() {
				return true
			}
		}
	}
	return false
}

// failsAt: the block reached from the loop returns an error
func (l *orderLoop) failsAt(b, from *ssa.BasicBlock) bool {
	switch last := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Panic:
		return true
	case *ssa.Return:
		return l.failing(last)
	}
	return false
}

func effectful(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Set" && c.Common().Signature().Results().Len() == 0
}

// carriedGuard: a condition which depends on previous iterations decides whether the block is reached
func (l *orderLoop) carriedGuard(b *ssa.BasicBlock) ssa.Value {
	for d := b; d != nil && l.region[d] && d != l.head; d = d.Idom() {
		p := d.Idom()
		if p == nil || p == l.head || !l.region[p] || len(d.Preds) != 1 {
			continue
		}
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && l.carried[iff.Cond] {
			return iff.Cond
		}
	}
	return nil
}

func (l *orderLoop) returnsOK(ret *ssa.Return) bool {
	if l.failing(ret) {
		return true
	}
	for _, x := range ret.Results {
		if l.dep[x] || l.carried[x] {
			return l.single(ret.Block()) || l.keyGuard(ret.Block())
		}
	}
	return true
}

// unordered: a slice whose elements are in the order of a map is only used in ways independent of it
func (o *orderCheck) unordered(u unorderedVal) {
	r, w := o.r, o.w
	if u.v.Referrers() == nil {
		return
	}
	cons := "slice filled in the order of a map in " + fname(u.fn)
	for _, ref := range *u.v.Referrers() {
		if o.sorted(u.v) {
			r.OK("order", cons, w.InstrPos(ref))
			return
		}
	}
	if ph, ok := u.v.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			if _, isApp := appendBase(e); isApp {
				o.add(u.fn, e)
			}
		}
	}
	for _, ref := range *u.v.Referrers() {
		at := w.InstrPos(ref)
		switch x := ref.(type) {
		case *ssa.Phi, *ssa.Slice, *ssa.ChangeType:
			o.add(u.fn, x.(ssa.Value))
		case *ssa.IndexAddr:
			if x.X != u.v {
				continue
			}
			o.elem(u, x)
		case *ssa.Return:
			for i, res := range x.Results {
				if res != u.v {
					continue
				}
				o.returned(u.fn, i, at)
			}
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == u.v {
				o.addPlace(u.fn, a, x)
				continue
			}
			r.Bad("order", cons, at, "it is stored unsorted")
		case *ssa.Call:
			c := x.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
				case "append":
					o.add(u.fn, x)
				default:
					r.Bad("order", cons, at, "it is used unsorted")
				}
				continue
			}
			g := c.StaticCallee()
			if g != nil && w.inMod[g] && len(g.Blocks) > 0 {
				for i, a := range c.Args {
					if a == u.v && i < len(g.Params) {
						o.add(g, g.Params[i])
					}
				}
				continue
			}
			r.Bad("order", cons, at, "it is used unsorted")
		case *ssa.DebugRef, *ssa.BinOp:
		case *ssa.MakeInterface:
			r.Bad("order", cons, at, "it is used unsorted")
		}
	}
	r.OK("order", cons, "")
}

func (o *orderCheck) returned(fn *ssa.Function, i int, at string) {
	cons := "slice filled in the order of a map in " + fname(fn)
	if fn.Object() == nil || fn.Object().Exported() {
		o.r.Bad("order", cons, at, "it is returned unsorted")
		return
	}
	for _, g := range o.w.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Common().StaticCallee() != fn {
					continue
				}
				if fn.Signature.Results().Len() == 1 {
					o.add(g, c)
					continue
				}
				for _, ref := range *c.Referrers() {
					if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
						o.add(g, ex)
					}
				}
			}
		}
	}
}

// sorted: the slice is sorted by the function
func (o *orderCheck) sorted(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Call:
			if n := calleeName(x.Common()); strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") {
				return true
			}
		case *ssa.ChangeType, *ssa.MakeInterface, *ssa.Slice:
			if y := x.(ssa.Value); y.Referrers() != nil && o.sorted(y) {
				return true
			}
		}
	}
	return false
}

// elem: an element of the slice is used
func (o *orderCheck) elem(u unorderedVal, ia *ssa.IndexAddr) {
	w := o.w
	cons := "slice filled in the order of a map in " + fname(u.fn)
	var head *ssa.BasicBlock
	idx := ia.Index
	if b, ok := idx.(*ssa.BinOp); ok {
		if ph, ok := b.X.(*ssa.Phi); ok {
			idx = ph
		}
	}
	ph, ok := idx.(*ssa.Phi)
	if ok {
		head = ph.Block()
	}
	if head == nil || !naturalLoop(head)[ia.Block()] {
		o.r.Bad("order", cons, w.InstrPos(ia), "one element is taken")
		return
	}
	keys := map[ssa.Value]bool{}
	for _, ref := range *ia.Referrers() {
		if l, ok := ref.(*ssa.UnOp); ok && l.Op == token.MUL {
			keys[l] = true
		}
	}
	o.loop(u.fn, head, keys, nil, u.v, w.InstrPos(ia))
}
