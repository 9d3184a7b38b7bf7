package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C06"] = checkDef{run: runC06,
		explanation: "Symbolic comparison of every writer with its reader. Both are analysed path-sensitively; each successful path of the writer is a sequence of typed writes of terms over the written object (with loops as nested sequences), each path of the reader a sequence of typed reads. Every pair of paths which can meet on the same bytes (the conditions of the reader, with what it has read replaced by what was written, do not contradict those of the writer) must agree in kind, order and number of the fields, the ranges of loops, the lengths of raw data, and at the end each field of the object read must be, after the replacement, the same field of the object written; every path of the writer must be met by some path of the reader.",
		assumptions: []string{"decoding of encoded paths and of elements of the group are inverse (C25; the group library)", "written objects are well formed: children are within the arity, points belong to the group they are read into"}}
}

// wireOp is a write to or a read from a stream
type wireOp struct {
	kind string
	obj  string // type of the object which writes or reads itself
	call *Term
	args []*Term // other arguments of the object
	ctx  *Ctx
	in   ssa.Instruction
}

type wire struct {
	f      *Flow
	stream *Term
	reader bool
	ops    map[*Term]*wireOp
	around map[*Term][]*Loop
}

var wirePrim = map[string]string{
	"trie.WriteByte": "byte", "trie.ReadByte": "byte", "trie.WriteUint16": "u16", "trie.ReadUint16": "u16", "trie.WriteUint32": "u32", "trie.ReadUint32": "u32",
	"trie.WriteBytes8": "b8", "trie.ReadBytes8": "b8", fnW16: "b16", fnR16: "b16", fnW32: "b32", fnR32: "b32",
}

// isStreamT: io.Writer, io.Reader and the like
func isStreamT(T types.Type) bool {
	s := T.String()
	return s == "io.Writer" || s == "io.Reader"
}

// wireMethod: the method writes or reads the receiver itself
func wireMethod(name string) string {
	switch name {
	case "Write", "Read":
		return "self"
	case "write", "read":
		return "self'"
	case "MarshalTo", "UnmarshalFrom":
		return "marshal"
	}
	return ""
}

// wireOpOf classifies a call; val is what is written or the place read into
func (w *wire) opOf(p *Point, in *ssa.Call) (op *wireOp, val *Term) {
	f, st := p.F, p.St
	c := in.Common()
	if _, isB := c.Value.(*ssa.Builtin); isB || f.child(p.Ctx, in, c) != nil {
		return
	}
	t := f.term(p.Ctx, in)
	op = &wireOp{call: t, ctx: p.Ctx, in: in}
	arg := func(i int) *Term { return st.Resolve(p.T(c.Args[i])) }
	n := t.CallName()
	if k := wirePrim[n]; k != "" && len(c.Args) > 0 && arg(0) == w.stream {
		op.kind = k
		switch {
		case !w.reader:
			return op, arg(1)
		case len(c.Args) > 1:
			return op, f.mkLoadNoFwd(p.T(c.Args[1]), derefT(c.Args[1].Type()))
		}
		return op, f.intern("res", "0", nil, t)
	}
	if n == "io.ReadFull" && w.reader && arg(0) == w.stream {
		op.kind = "raw"
		return op, placed(st, bytesRoot(arg(1)))
	}
	recv := c.Value
	args := c.Args
	name := ""
	if c.IsInvoke() {
		name = c.Method.Name()
	} else if g := c.StaticCallee(); g != nil && g.Signature.Recv() != nil {
		name, recv, args = g.Name(), c.Args[0], c.Args[1:]
	} else {
		for i := range c.Args {
			if arg(i) == w.stream {
				op.kind = "?" + n
				return op, t
			}
		}
		return nil, nil
	}
	rt := st.Resolve(p.T(recv))
	if rt == w.stream {
		if name == "Write" && !w.reader {
			op.kind = "raw"
			return op, bytesRoot(arg(len(c.Args) - 1))
		}
		op.kind = "?" + n
		return op, t
	}
	found := false
	for _, a := range args {
		at := st.Resolve(p.T(a))
		if at == w.stream {
			found = true
			continue
		}
		op.args = append(op.args, at)
	}
	if !found {
		return nil, nil
	}
	op.kind = wireMethod(name)
	if op.kind == "" {
		op.kind = "?" + n
	}
	op.obj = derefT(recv.Type()).String()
	return op, st.Resolve(unIface(st, rt))
}

// placed: the value which was put into the collection at this place
func placed(st *State, v *Term) *Term {
	if v.Op == "lookup" {
		for _, e := range st.Events("mapset") {
			if st.Resolve(e.Args[0]) == st.Resolve(v.Args[0]) && stripConv(e.Args[1]) == stripConv(v.Args[1]) {
				return bytesRoot(st.Resolve(e.Args[2]))
			}
		}
	}
	return v
}

func (w *wire) trace(p *Point) {
	trace(p)
	f, st := p.F, p.St
	b := p.Instr.Block()
	if f.isLoopHead(b) && firstNonPhi(b) == p.Instr {
		for _, e := range st.Events("op") {
			o := w.ops[e.Args[1]]
			l := &Loop{Ctx: p.Ctx, Head: b, Blocks: f.loopBlocks(p.Ctx, b)}
			if l.InBody(&Point{F: f, Ctx: o.ctx, Instr: o.in, St: st}) {
				st.DelEvent(e)
			}
		}
	}
	if sto, ok := p.Instr.(*ssa.Store); ok {
		if a := p.T(sto.Addr); a.Op == "fa" {
			for _, e := range st.Events("fset") {
				if e.Args[0] == a {
					st.DelEvent(e)
				}
			}
			st.AddEvent("fset", a, st.Resolve(p.T(sto.Val)))
		}
	}
	in, ok := p.Instr.(*ssa.Call)
	if !ok {
		return
	}
	if o, v := w.opOf(p, in); o != nil {
		w.ops[o.call] = o
		if w.reader {
			for _, e := range st.Events("fset") {
				if f.mkLoadNoFwd(e.Args[0], v.T) != v {
					continue
				}
				if o.kind == "raw" || o.obj != "" {
					v = bytesRoot(st.Resolve(e.Args[1])) // the object which was put there
				} else {
					st.DelEvent(e)
				}
			}
		}
		var done []*Term
		for _, e := range st.Events("loop") {
			done = append(done, e.Args[0])
		}
		n := len(st.Events("op"))
		st.AddEvent("op", f.constInt(int64(n), nil), o.call, v, f.intern("done", "", nil, done...))
	}
}

func (f *Flow) loopBlocks(ctx *Ctx, head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	return naturalLoops(ctx.Fn)[head]
}

// loopsOf the operation, from the outermost
func (w *wire) loopsOf(o *wireOp) []*Loop {
	if r, ok := w.around[o.call]; ok {
		return r
	}
	r := w.f.loopsAround(&Point{F: w.f, Ctx: o.ctx, Instr: o.in})
	sort.SliceStable(r, func(i, j int) bool {
		return len(r[i].Blocks) > len(r[j].Blocks) || r[i].Ctx != r[j].Ctx && r[i].Ctx.depthOf() < r[j].Ctx.depthOf()
	})
	w.around[o.call] = r
	return r
}

func (c *Ctx) depthOf() int {
	n := 0
	for c.Parent != nil {
		n++
		c = c.Parent
	}
	return n
}

type wireItem struct {
	op   *wireOp
	val  *Term
	loop *Loop
}

// items: the sequence of operations and loops with operations on the path, in the body of the loop
func (w *wire) items(st *State, body *Loop) []wireItem {
	f := w.f
	inside := func(ls []*Loop) (next *Loop, ok bool) {
		if body == nil {
			if len(ls) > 0 {
				return ls[0], false
			}
			return nil, true
		}
		for i, l := range ls {
			if l == body {
				if i+1 < len(ls) {
					return ls[i+1], false
				}
				return nil, true
			}
		}
		return nil, false
	}
	var loops []*Loop
	for _, l := range f.Loops() {
		if !st.loopDone(f, l) {
			continue
		}
		for _, o := range w.ops {
			if next, _ := inside(w.loopsOf(o)); next == l {
				loops = append(loops, l)
				break
			}
		}
	}
	sort.SliceStable(loops, func(i, j int) bool { return f.loopBefore(loops[i], loops[j]) })
	evs := st.Events("op")
	sort.SliceStable(evs, func(i, j int) bool {
		a, _ := evs[i].Args[0].Int()
		b, _ := evs[j].Args[0].Int()
		return a < b
	})
	var r []wireItem
	for _, e := range evs {
		o := w.ops[e.Args[1]]
		if _, ok := inside(w.loopsOf(o)); !ok {
			continue
		}
		for len(loops) > 0 && e.Args[3].Contains(f.headTerm(loops[0].Ctx, loops[0].Head)) {
			r = append(r, wireItem{loop: loops[0]})
			loops = loops[1:]
		}
		r = append(r, wireItem{op: o, val: e.Args[2]})
	}
	for _, l := range loops {
		r = append(r, wireItem{loop: l})
	}
	return r
}

// loopBefore: a is run before b
func (f *Flow) loopBefore(a, b *Loop) bool {
	type pos struct {
		ctx *Ctx
		b   *ssa.BasicBlock
	}
	chain := func(l *Loop) (r []pos) {
		c, bl := l.Ctx, l.Head
		for c != nil {
			r = append([]pos{{c, bl}}, r...)
			if c.Call != nil {
				bl = c.Call.Block()
			}
			c = c.Parent
		}
		return
	}
	x, y := chain(a), chain(b)
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i].ctx != y[i].ctx {
			// two calls in the same block
			return x[i].ctx.Call.Pos() < y[i].ctx.Call.Pos()
		}
		if x[i].b != y[i].b {
			return x[i].b.Dominates(y[i].b)
		}
	}
	return false
}

// wirePair compares a writer with a reader
type wirePair struct {
	r        *Report
	name     string
	W, R     *wire
	params   map[*Term]*Term // parameters of the reader
	subject  *Term           // what is written, if it is not the fields of an object
	writerFn *ssa.Function
	readerFn *ssa.Function
	flags    map[*Term]flagBuf
	prefix   bool // the reader may stop early
}

func (wp *wirePair) flow(fn *ssa.Function, reader bool) *wire {
	w := &wire{reader: reader, ops: map[*Term]*wireOp{}, around: map[*Term][]*Loop{}}
	opaque := func(g *ssa.Function) bool {
		n := fname(g)
		if g == fn {
			return false
		}
		switch n {
		case "trie.EncodeUnpackedBytes", "trie.DecodeToUnpackedBytes", "trie.PackUnpackedBytes", "trie.UnpackBytes", "trie.Concat":
			return true
		}
		if wirePrim[n] != "" && wirePrim[fname(fn)] != wirePrim[n] {
			return true
		}
		if g.Signature.Recv() != nil && wireMethod(g.Name()) != "" && wirePrim[fname(fn)] == "" {
			for i := 0; i < g.Signature.Params().Len(); i++ {
				if isStreamT(g.Signature.Params().At(i).Type()) {
					// another type writes itself
					return derefT(g.Signature.Recv().Type()).String() != derefT(recvT(fn)).String()
				}
			}
		}
		return false
	}
	opt := FlowOpt{Split: splitAll, NoInline: opaque, Transfer: func(p *Point) {
		if w.f == nil {
			w.f = p.F
			for i, q := range fn.Params {
				if isStreamT(q.Type()) {
					w.stream = p.F.Param(i)
				}
			}
		}
		w.trace(p)
	}}
	f := wp.r.Flow(fn, opt)
	w.f = f
	return w
}

func recvT(fn *ssa.Function) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		return r.Type()
	}
	return types.Typ[types.Int]
}

type wireEnv map[*Term]*Term

func (e wireEnv) with(k, v *Term) wireEnv {
	r := wireEnv{}
	for a, b := range e {
		r[a] = b
	}
	r[k] = v
	return r
}

// pureOfParams: the function computes with its parameters only
func pureOfParams(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.Panic, *ssa.DebugRef, *ssa.MakeInterface:
			case *ssa.Call:
				if g := x.Common().StaticCallee(); g == nil || g == fn || !pureOfParams(g) {
					return false
				}
			default:
				return false
			}
		}
	}
	return len(fn.Blocks) > 0
}

// fieldSet: the value which was stored to the field of the object being read
func (wp *wirePair) fieldSet(sr *State, t *Term) *Term {
	fr := wp.R.f
	if sr == nil || t.Op != "sel" || len(t.Args) != 1 {
		return nil
	}
	a := fr.mkFA(t.Args[0], t.Name, nil)
	for _, e := range sr.Events("fset") {
		if e.Args[0] == a && e.Args[1] != t {
			return e.Args[1]
		}
	}
	return nil
}

// ownField: the field of the object being read is one which is serialized
func (wp *wirePair) ownField(t *Term) bool {
	if wp.readerFn.Signature.Recv() == nil || t.Args[0] != wp.R.f.Param(0) {
		return false
	}
	nm, ok := derefT(recvT(wp.readerFn)).(*types.Named)
	return ok && !notRestored[nm.Obj().Name()+"."+t.Name]
}

// tr translates a term of the reader to one of the writer, as of the state of the writer
func (wp *wirePair) tr(sw *State, sr *State, env wireEnv, t *Term) *Term {
	return wp.trD(sw, sr, env, t, 0)
}

func (wp *wirePair) trD(sw *State, sr *State, env wireEnv, t *Term, d int) *Term {
	fw := wp.W.f
	if t == nil {
		return nil
	}
	if v, ok := env[t]; ok {
		return wp.simp(sw, v)
	}
	if d > 40 {
		return fw.intern("deep", fmt.Sprint(t.ID), t.T)
	}
	if sr != nil {
		if u := sr.Resolve(t); u != t && !u.IsConst("NONNIL") {
			return wp.trD(sw, sr, env, u, d+1)
		}
	}
	fr := wp.R.f
	switch t.Op {
	case "len":
		if v := wp.fieldSet(sr, t.Args[0]); v != nil {
			return wp.trD(sw, sr, env, fr.mkLen(v), d+1)
		}
	case "sel":
		if v := wp.fieldSet(sr, t); v != nil {
			return wp.trD(sw, sr, env, v, d+1)
		}
		if wp.ownField(t) {
			return fw.intern("r:field", t.Name, t.T)
		}
	case "ret":
		for _, c := range fw.ctxs {
			if t.Ctx == nil || c.Fn != t.Ctx.Fn || len(c.Params) != len(t.Ctx.Params) {
				continue
			}
			same := true
			for i, q := range t.Ctx.Params {
				same = same && sw.EQ(c.Params[i], wp.trD(sw, sr, env, q, d+1))
			}
			if same {
				for i := 0; i < c.Fn.Signature.Results().Len(); i++ {
					if wp.R.f.retTerm(t.Ctx, i) == t {
						return sw.Resolve(fw.retTerm(c, i))
					}
				}
			}
		}
	case "phi":
		// the same choice in the same function called with the same parameters
		phi, isP := t.V.(*ssa.Phi)
		if !isP || wp.R.f.isLoopHead(phi.Block()) || !pureOfParams(phi.Parent()) {
			break
		}
		for _, c := range fw.ctxs {
			if c.Fn != t.Ctx.Fn || len(c.Params) != len(t.Ctx.Params) {
				continue
			}
			same := true
			for i, q := range t.Ctx.Params {
				same = same && sw.EQ(c.Params[i], wp.trD(sw, sr, env, q, d+1))
			}
			if same {
				return sw.Resolve(fw.term(c, phi))
			}
		}
	case "const":
		if t.Name == "nil" {
			return fw.constNil()
		}
		if i, ok := t.Int(); ok {
			return fw.constInt(i, t.T)
		}
		return fw.intern("const", t.Name, t.T)
	case "param":
		if v, ok := wp.params[t]; ok {
			return v
		}
	case "lin":
		l := &Lin{C: t.Lin.C}
		for _, m := range t.Lin.M {
			l = linAdd(l, fw.toLin(wp.trD(sw, sr, env, m.T, d+1)), m.K)
		}
		return fw.fromLin(l, t.T)
	case "func", "global":
		return fw.intern(t.Op, t.Name, t.T)
	}
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		as[i] = wp.trD(sw, sr, env, a, d+1)
	}
	if t.Op == "idx" && len(as) == 2 {
		// an element of the buffer
		b := bytesRoot(as[0])
		for _, e := range sw.Events("slot") {
			if (b.Op == "alloc" || b.Op == "makeslice") && bytesRoot(sw.Resolve(e.Args[0])) == b && sw.EQ(e.Args[1], as[1]) {
				return wp.simp(sw, sw.Resolve(e.Args[2]))
			}
		}
	}
	// inverse functions
	if t.Op == "res" && t.Name == "0" && t.Args[0].CallName() == "trie.DecodeToUnpackedBytes" && len(as[0].Args) == 2 {
		x, ar := as[0].Args[0], as[0].Args[1]
		if x.Op == "res" && x.Name == "0" && x.Args[0].CallName() == "trie.EncodeUnpackedBytes" && sw.EQ(x.Args[0].Args[1], ar) {
			return sw.Resolve(x.Args[0].Args[0])
		}
	}
	if n := t.CallName(); strings.HasSuffix(n, "Endian).Uint16") || strings.HasSuffix(n, "Endian).Uint32") || strings.HasSuffix(n, "Endian).Uint64") {
		if len(as) == 2 {
			for _, e := range sw.Events("call") {
				c := e.Args[0]
				put := strings.Replace(n, "Endian).Uint", "Endian).PutUint", 1)
				if c.CallName() == put && len(c.Args) == 3 && bytesRoot(sw.Resolve(c.Args[1])) == bytesRoot(as[1]) {
					return wp.simp(sw, sw.Resolve(c.Args[2]))
				}
			}
		}
	}
	if t.isUnique() || len(t.Args) == 0 {
		return wp.simp(sw, fw.intern(t.Op, "r:"+t.Name, t.T, as...))
	}
	switch t.Op {
	case "eq0", "le0":
		return fw.rebuild(t, as)
	case "conv":
		if t.T != nil && len(as) == 1 && isInt(t.T) {
			lo, hi, ok := intBounds(t.T)
			if ok && sw.LE(fw.constInt(lo, nil), as[0], 0) && sw.LE(as[0], fw.constInt(hi, nil), 0) {
				return as[0]
			}
		}
	}
	return wp.simp(sw, fw.rebuild(t, as))
}

// simp simplifies terms about bits and conversions
func (wp *wirePair) simp(sw *State, t *Term) *Term {
	fw := wp.W.f
	switch t.Op {
	case "conv":
		if t.T != nil && len(t.Args) == 1 && isInt(t.T) {
			x := sw.Resolve(t.Args[0])
			lo, hi, ok := intBounds(t.T)
			if ok && sw.LE(fw.constInt(lo, nil), x, 0) && sw.LE(x, fw.constInt(hi, nil), 0) {
				return x
			}
		}
	case "bin":
		if t.Name == "&" && len(t.Args) == 2 {
			x, m := t.Args[0], t.Args[1]
			if _, ok := x.Int(); ok {
				x, m = m, x
			}
			if c, ok := m.Int(); ok {
				if v := wp.mask(sw, x, c); v != nil {
					return v
				}
			}
		}
	}
	return t
}

// mask: x & m
func (wp *wirePair) mask(sw *State, x *Term, m int64) *Term {
	fw := wp.W.f
	x = sw.Resolve(x)
	if i, ok := x.Int(); ok {
		return fw.constInt(i&m, x.T)
	}
	if x.Op == "bin" && len(x.Args) == 2 {
		switch x.Name {
		case "|":
			a, b := wp.mask(sw, x.Args[0], m), wp.mask(sw, x.Args[1], m)
			if a == nil || b == nil {
				return nil
			}
			if i, ok := a.Int(); ok && i == 0 {
				return b
			}
			if i, ok := b.Int(); ok && i == 0 {
				return a
			}
			return nil
		case "&":
			for k := 0; k < 2; k++ {
				if i, ok := x.Args[k].Int(); ok {
					return wp.mask(sw, x.Args[1-k], m&i)
				}
			}
		}
	}
	y := wp.simp(sw, x)
	for k := uint(0); k < 16; k++ {
		ub := int64(1)<<k - 1
		if sw.LE(fw.constInt(0, nil), y, 0) && sw.LE(y, fw.constInt(ub, nil), 0) {
			switch {
			case m&ub == ub:
				return y
			case m&ub == 0:
				return fw.constInt(0, nil)
			}
			break
		}
	}
	// flags set in a loop
	if x.Op == "phi" {
		init, or, ok := fw.orPhi(x)
		if ok && or&m == 0 {
			return wp.mask(sw, init, m)
		}
	}
	return nil
}

// bitsOf: some of the bits of x & m: 1 set, -1 all are not, 0 unknown
func (wp *wirePair) bitsOf(sw *State, x *Term, m int64) int {
	if v := wp.mask(sw, x, m); v != nil {
		if i, ok := v.Int(); ok {
			if i != 0 {
				return 1
			}
			return -1
		}
		return -sw.Eval(wp.W.f.eq0(wp.W.f.toLin(v)))
	}
	x = sw.Resolve(x)
	if x.Op == "bin" && x.Name == "|" && len(x.Args) == 2 {
		a, b := wp.bitsOf(sw, x.Args[0], m), wp.bitsOf(sw, x.Args[1], m)
		if a == 1 || b == 1 {
			return 1
		}
		if a == -1 && b == -1 {
			return -1
		}
	}
	if x.Op == "bin" && x.Name == "&" && len(x.Args) == 2 {
		for k := 0; k < 2; k++ {
			if i, ok := x.Args[k].Int(); ok {
				return wp.bitsOf(sw, x.Args[1-k], m&i)
			}
		}
	}
	return 0
}

// orPhi: the value is merged in the head of a loop, starting with init; in each iteration the bits are set
func (f *Flow) orPhi(x *Term) (init *Term, bits int64, ok bool) {
	for _, e := range f.PhiEdges(x) {
		if e == x {
			continue
		}
		if e.Op == "bin" && e.Name == "|" && len(e.Args) == 2 && (e.Args[0] == x || e.Args[1] == x) {
			o := e.Args[0]
			if o == x {
				o = e.Args[1]
			}
			c, isC := o.Int()
			if !isC || bits != 0 && bits != c {
				return nil, 0, false
			}
			bits = c
			continue
		}
		if init != nil {
			return nil, 0, false
		}
		init = e
	}
	return init, bits, init != nil && bits != 0
}

// emptyIn: the value is empty in the state of the writer
func (wp *wirePair) emptyIn(sw *State, x *Term) bool {
	fw := wp.W.f
	x = sw.Resolve(x)
	if x.IsNil() || x.Op == "init" || x.Op == "makemap" || x.Op == "r:makemap" {
		return true
	}
	if n, ok := sw.Resolve(fw.mkLen(x)).Int(); ok {
		return n == 0
	}
	if sw.True(fw.mkEq(x, fw.constNil())) || sw.LE(fw.mkLen(x), fw.constInt(0, nil), 0) {
		return true
	}
	// a flag which is set for each element is not set
	for _, a := range sw.Conds() {
		if a.Cond.Op != "eq0" || !a.Pos || len(a.Cond.Args[0].Lin.M) != 1 || a.Cond.Args[0].Lin.C != 0 {
			continue
		}
		b := a.Cond.Args[0].Lin.M[0].T
		if b.Op != "bin" || b.Name != "&" {
			continue
		}
		for k := 0; k < 2; k++ {
			m, isC := b.Args[k].Int()
			phi := b.Args[1-k]
			if !isC || phi.Op != "phi" {
				continue
			}
			init, or, ok := fw.orPhi(phi)
			if !ok || or&m == 0 {
				continue
			}
			if v := wp.mask(sw, init, m); v == nil {
				continue
			}
			for _, l := range fw.Loops() {
				if l.Kind == "map" && l.Ctx == phi.Ctx && fw.phiAt(phi, l.Head) && sw.Resolve(l.Coll) == x && len(l.Exits) == 0 {
					return true
				}
			}
		}
	}
	return false
}

func (f *Flow) phiAt(phi *Term, b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && f.term(phi.Ctx, ph) == phi {
			return true
		}
	}
	return false
}

// flagBuffer: the bits of the buffer are set exactly for the keys of the map which is returned
func (wp *wirePair) flagBuffer(sw *State, buf *Term) *Term {
	buf = bytesRoot(buf)
	if buf.Op != "alloc" && buf.Op != "makeslice" {
		return nil
	}
	fb, known := wp.flags[buf]
	if !known {
		fb.loop, fb.m = wp.flagLoop(buf)
		if wp.flags == nil {
			wp.flags = map[*Term]flagBuf{}
		}
		wp.flags[buf] = fb
	}
	if fb.loop == nil || fb.m == nil || !sw.loopDone(wp.W.f, fb.loop) {
		return nil
	}
	return sw.Resolve(fb.m)
}

type flagBuf struct {
	loop *Loop
	m    *Term
}

// flagLoop: the loop which sets the flags in the buffer for the keys of the map
func (wp *wirePair) flagLoop(buf *Term) (l *Loop, m *Term) {
	fw := wp.W.f
	ok := true
	fw.Visit(func(p *Point) {
		st, isS := p.Instr.(*ssa.Store)
		if !isS {
			return
		}
		ia, isI := st.Addr.(*ssa.IndexAddr)
		if !isI || bytesRoot(p.St.Resolve(p.T(ia.X))) != buf {
			return
		}
		ls := fw.loopsAround(p)
		if len(ls) != 1 || l != nil && ls[0] != l {
			ok = false
			return
		}
		l = ls[0]
	}, nil)
	if !ok || l == nil || len(l.Exits) > 0 {
		return nil, nil
	}
	var key *Term
	switch l.Kind {
	case "map":
		key, m = l.Key, l.Coll
	case "index":
		if l.Step != 1 && l.Step != -1 {
			return nil, nil
		}
		key = l.Idx
	default:
		return nil, nil
	}
	fw.AtBackEdges(l, func(p *Point) {
		set := 0
		for _, e := range p.St.Events("slot") {
			if bytesRoot(p.St.Resolve(e.Args[0])) != buf {
				continue
			}
			set++
			ok = ok && isBitOf(fw, buf, e.Args[1], e.Args[2], key)
		}
		if set > 1 {
			ok = false
		}
		if l.Kind == "map" {
			ok = ok && set == 1
			return
		}
		// the flag is set exactly if the key is there
		found := false
		for _, a := range p.St.Conds() {
			if a.Cond.Op == "lookupok" && stripConv(a.Cond.Args[1]) == key && a.Pos == (set == 1) {
				if m == nil {
					m = p.St.Resolve(a.Cond.Args[0])
				}
				found = found || m == p.St.Resolve(a.Cond.Args[0])
			}
		}
		ok = ok && found
	})
	if !ok {
		return nil, nil
	}
	return l, m
}

// isBitOf: at the position the bit for the key is added
func isBitOf(f *Flow, buf, pos, val, key *Term) bool {
	strip := func(t *Term) *Term { return stripConv(t) }
	div := func(t *Term) bool {
		t = strip(t)
		if t.Op != "bin" || len(t.Args) != 2 || stripConv(t.Args[0]) != stripConv(key) {
			return false
		}
		c, ok := t.Args[1].Int()
		return ok && (t.Name == "/" && c == 8 || t.Name == ">>" && c == 3)
	}
	mod := func(t *Term) bool {
		t = strip(t)
		if t.Op != "bin" || len(t.Args) != 2 {
			return false
		}
		for k := 0; k < 2; k++ {
			c, ok := t.Args[k].Int()
			if ok && stripConv(t.Args[1-k]) == stripConv(key) && (t.Name == "%" && k == 1 && c == 8 || t.Name == "&" && c == 7) {
				return true
			}
		}
		return false
	}
	bit := func(t *Term) bool {
		t = strip(t)
		if t.Op != "bin" || t.Name != "<<" {
			return false
		}
		c, ok := t.Args[0].Int()
		return ok && c == 1 && mod(t.Args[1])
	}
	if !div(pos) || val.Op != "bin" || val.Name != "|" {
		return false
	}
	for k := 0; k < 2; k++ {
		if bit(val.Args[k]) {
			o := val.Args[1-k]
			if o.Op == "idx" || o.Op == "ld" {
				return o.Any(func(x *Term) bool { return bytesRoot(x) == buf })
			}
		}
	}
	return false
}

// holds: the condition of the reader on a path of the writer: 1 true, -1 false, 0 unknown
func (wp *wirePair) holds(sw, sr *State, env wireEnv, c *Term) (int, *Term) {
	fw := wp.W.f
	neg := 1
	for c.Op == "not" {
		c, neg = c.Args[0], -neg
	}
	// the truth of the condition itself is known to the reader: only its parts are replaced
	if v, ok := env[c]; ok {
		return neg * sw.Eval(v), nil
	}
	var t *Term
	switch {
	case (c.Op == "eq0" || c.Op == "le0") && c.Args[0].Lin != nil:
		if c.Op == "eq0" && len(c.Args[0].Lin.M) == 1 && c.Args[0].Lin.C == 0 {
			if v := wp.flagHolds(sw, sr, env, c.Args[0].Lin.M[0].T); v != 0 {
				return -neg * v, nil
			}
		}
		if l := c.Args[0].Lin; c.Op == "eq0" && len(l.M) == 1 && l.C == -l.M[0].K {
			// the last bit is 1
			b := sr.Resolve(l.M[0].T)
			for k := 0; b.Op == "bin" && b.Name == "&" && k < 2; k++ {
				if i, ok := b.Args[k].Int(); ok && i == 1 {
					if v := wp.flagHolds(sw, sr, env, b); v != 0 {
						return neg * v, nil
					}
				}
			}
		}
		l := &Lin{C: c.Args[0].Lin.C}
		for _, m := range c.Args[0].Lin.M {
			l = linAdd(l, fw.toLin(wp.tr(sw, sr, env, m.T)), m.K)
		}
		if c.Op == "eq0" {
			t = fw.eq0(l)
		} else {
			t = fw.le0(l)
		}
	case len(c.Args) == 0 || c.isUnique():
		t = wp.tr(sw, nil, env, c)
	default:
		as := make([]*Term, len(c.Args))
		for i, a := range c.Args {
			as[i] = wp.tr(sw, sr, env, a)
		}
		// decoding what was encoded succeeds
		if c.Op == "eq" {
			for k := 0; k < 2; k++ {
				x := c.Args[k]
				if as[1-k].IsNil() && x.Op == "res" && x.Name == "1" && x.Args[0].CallName() == "trie.DecodeToUnpackedBytes" {
					a := wp.tr(sw, sr, env, x.Args[0].Args[0])
					if a.Op == "res" && a.Args[0].CallName() == "trie.EncodeUnpackedBytes" && sw.EQ(a.Args[0].Args[1], wp.tr(sw, sr, env, x.Args[0].Args[1])) {
						return neg, nil
					}
				}
				// reading what was written succeeds
				if as[1-k].IsNil() {
					y := x
					if y.Op == "res" {
						y = y.Args[0]
					}
					if wp.R.ops[y] != nil {
						return neg, nil
					}
				}
			}
		}
		t = fw.rebuild(c, as)
	}
	v := neg * sw.Eval(t)
	if neg < 0 {
		t = fw.mkNot(t)
	}
	return v, t
}

// flagOf: x & m is not zero exactly if the flag of the key is set in the buffer
func flagOf(f *Flow, x, m *Term) (base, key *Term) {
	x, m = stripConv(x), stripConv(m)
	find := func(t *Term) {
		t.Any(func(y *Term) bool {
			if y.Op == "bin" && (y.Name == "%" || y.Name == "&") && len(y.Args) == 2 {
				key = stripConv(y.Args[0])
				if _, isC := y.Args[0].Int(); isC {
					key = stripConv(y.Args[1])
				}
			}
			return false
		})
	}
	if x.Op == "bin" && x.Name == ">>" {
		// the flag is moved to the last bit
		if i, ok := m.Int(); !ok || i != 1 {
			return nil, nil
		}
		find(x.Args[1])
		m = f.intern("bin", "<<", nil, f.constInt(1, nil), x.Args[1])
		x = stripConv(x.Args[0])
	} else {
		find(m)
	}
	if key == nil || x.Op != "idx" {
		return nil, nil
	}
	base = bytesRoot(x.Args[0])
	if !isBitOf(f, base, x.Args[1], f.intern("bin", "|", nil, x, m), key) {
		return nil, nil
	}
	return base, key
}

// flagHolds: the masked value is not zero: 1 true, -1 false
func (wp *wirePair) flagHolds(sw, sr *State, env wireEnv, b *Term) int {
	b = sr.Resolve(b)
	if b.Op != "bin" || b.Name != "&" || len(b.Args) != 2 {
		return 0
	}
	for k := 0; k < 2; k++ {
		// the flag of an element
		x, m := b.Args[k], b.Args[1-k]
		if base, key := flagOf(wp.R.f, x, m); key != nil {
			mp := wp.flagBuffer(sw, wp.tr(sw, sr, env, base))
			if mp == nil {
				continue
			}
			kw := stripConv(wp.tr(sw, sr, env, key))
			for _, a := range sw.Conds() {
				if a.Cond.Op == "lookupok" && sw.Resolve(a.Cond.Args[0]) == mp && stripConv(a.Cond.Args[1]) == kw {
					if a.Pos {
						return 1
					}
					return -1
				}
			}
			continue
		}
		if c, ok := m.Int(); ok {
			if v := wp.bitsOf(sw, wp.tr(sw, sr, env, x), c); v != 0 {
				return v
			}
		}
	}
	return 0
}

// conflict: the path of the reader is not taken on what the path of the writer wrote
func (wp *wirePair) conflict(sw, sr *State, env wireEnv) bool {
	for _, a := range sr.Conds() {
		v, _ := wp.holds(sw, sr, env, a.Cond)
		if v == 1 && !a.Pos || v == -1 && a.Pos {
			return true
		}
	}
	for t, v := range sr.corr {
		if t.Op == "phi" || t.Op == "ret" || !isCond(t) {
			continue
		}
		if v.IsConst("true") || v.IsConst("false") {
			h, _ := wp.holds(sw, sr, env, t)
			if h == 1 && v.IsConst("false") || h == -1 && v.IsConst("true") {
				return true
			}
		}
	}
	return false
}

// joint: what is known on both paths
func (wp *wirePair) joint(sw, sr *State, env wireEnv) (*State, bool) {
	j := sw.clone()
	for k := 0; k < 2; k++ {
		for _, a := range sr.Conds() {
			if _, t := wp.holds(j, sr, env, a.Cond); t != nil && !t.Any(func(x *Term) bool { return strings.HasPrefix(x.Name, "r:") }) {
				if !j.Assume(t, a.Pos) {
					return j, false
				}
			}
		}
	}
	return j, true
}

type wireMatch struct {
	why      string
	env      wireEnv
	restored [][2]*Term // collections whose elements are read back: of the writer and of the reader
}

// match compares the operations of the two paths; skip: they do not meet
func (wp *wirePair) match(sw, sr *State, lw, lr *Loop, env wireEnv) (skip bool, m *wireMatch) {
	iw, ir := wp.W.items(sw, lw), wp.R.items(sr, lr)
	m = &wireMatch{env: env}
	fail := func(format string, a ...interface{}) (bool, *wireMatch) {
		if wp.conflict(sw, sr, m.env) {
			return true, nil
		}
		m.why = fmt.Sprintf(format, a...)
		return false, m
	}
	for i := 0; i < len(iw) || i < len(ir); i++ {
		if i < len(iw) && iw[i].loop == nil && iw[i].op.kind == "raw" && (i >= len(ir) || ir[i].loop != nil || ir[i].op.kind != "raw") {
			// nothing is written
			j, ok := wp.joint(sw, sr, m.env)
			if !ok {
				return true, nil
			}
			if wp.emptyIn(j, iw[i].val) {
				iw = append(append([]wireItem(nil), iw[:i]...), iw[i+1:]...)
				i--
				continue
			}
		}
		if i >= len(iw) {
			return fail("%s is read but not written", ir[i])
		}
		if i >= len(ir) {
			if wp.prefix {
				break
			}
			return fail("%s is written but not read", iw[i])
		}
		a, b := iw[i], ir[i]
		if (a.loop == nil) != (b.loop == nil) {
			return fail("%s is written, %s is read", a, b)
		}
		if a.loop != nil {
			why, rest := wp.matchLoops(sw, sr, a.loop, b.loop, m.env)
			if why != "" {
				return fail("%s", why)
			}
			m.restored = append(m.restored, rest...)
			continue
		}
		if a.op.kind != b.op.kind || strings.HasPrefix(a.op.kind, "?") {
			return fail("%s is written, %s is read", a, b)
		}
		if a.op.kind == "raw" {
			x, y := wp.W.f.mkLen(a.val), wp.tr(sw, sr, m.env, wp.R.f.mkLen(b.val))
			if n := wp.rawLen(sw, a); n != nil {
				x = n
			}
			if n := wp.rawLenR(sw, sr, m.env, b); n != nil {
				y = n
			}
			if !sw.EQ(x, y) && !(a.val.Op == "param" && wp.params[b.val] == a.val) {
				return fail("%s bytes are written, %s are read", x, y)
			}
		}
		if len(a.op.args) != len(b.op.args) {
			return fail("%s is written, %s is read", a, b)
		}
		for k := range a.op.args {
			y := wp.tr(sw, sr, m.env, b.op.args[k])
			if !sw.EQ(a.op.args[k], y) && !wp.eqv(sw, a.op.args[k], y) {
				return fail("elements are written under %s and read under %s", a.op.args[k], y)
			}
		}
		if x, y := a.op.obj, b.op.obj; x != y && x != "" && y != "" && !ifaceName(x) && !ifaceName(y) {
			return fail("a %s is written, a %s is read", x, y)
		}
		m.env = m.env.with(b.val, a.val)
	}
	if wp.conflict(sw, sr, m.env) {
		return true, nil
	}
	return false, m
}

func ifaceName(s string) bool {
	return strings.HasSuffix(s, "Commitment") && strings.Contains(s, "trie.") || strings.HasSuffix(s, "Serializable")
}

// rawLen: the length of the slice of the buffer which is written
func (wp *wirePair) rawLen(sw *State, a wireItem) *Term {
	c := a.op.call
	if len(c.Args) == 0 {
		return nil
	}
	x := sw.Resolve(c.Args[len(c.Args)-1])
	if x.Op == "slice" || x.Op == "arr" {
		return sw.Resolve(wp.W.f.mkLen(x))
	}
	return nil
}

func (wp *wirePair) rawLenR(sw, sr *State, env wireEnv, b wireItem) *Term {
	c := b.op.call
	if len(c.Args) == 0 {
		return nil
	}
	x := sr.Resolve(c.Args[len(c.Args)-1])
	if x.Op == "slice" || x.Op == "arr" {
		return wp.tr(sw, sr, env, wp.R.f.mkLen(x))
	}
	return nil
}

func (i wireItem) String() string {
	if i.loop != nil {
		return "a loop"
	}
	return i.op.kind + " " + i.val.String()
}

func intConv(t *Term) bool { return t.Op == "conv" && (t.T == nil || isInt(t.T)) }

// eqv: the values are equal as values read back
func (wp *wirePair) eqv(sw *State, x, y *Term) bool {
	x, y = sw.Resolve(x), sw.Resolve(y)
	if x == y || sw.EQ(x, y) || bytesRoot(x) == bytesRoot(y) && x.Op != "slice" && y.Op != "slice" && !intConv(x) && !intConv(y) {
		return true
	}
	if b := wp.simp(sw, y); b == x {
		return true
	}
	if isCond(x) || isCond(y) {
		// a flag
		if a, b := sw.Eval(x), sw.Eval(y); a != 0 && a == b {
			return true
		}
		neg := false
		for y.Op == "not" {
			y, neg = y.Args[0], !neg
		}
		if y.Op == "eq0" && len(y.Args[0].Lin.M) == 1 && y.Args[0].Lin.C == 0 {
			if b := y.Args[0].Lin.M[0].T; b.Op == "bin" && b.Name == "&" {
				for k := 0; k < 2; k++ {
					if m, ok := b.Args[k].Int(); ok {
						if v := wp.bitsOf(sw, b.Args[1-k], m); v != 0 {
							return (sw.Eval(x) == 1) == ((v < 0) != neg) && sw.Eval(x) != 0
						}
					}
				}
			}
		}
	}
	return wp.emptyIn(sw, x) && wp.emptyIn(sw, y)
}

func (wp *wirePair) matchLoops(sw, sr *State, lw, lr *Loop, env wireEnv) (why string, restored [][2]*Term) {
	fw, fr := wp.W.f, wp.R.f
	if lw.Kind != "index" || lr.Kind != "index" {
		return fmt.Sprintf("the elements are written in a %s loop and read in a %s loop", lw.Kind, lr.Kind), nil
	}
	if !fw.loopEnded(sw, lw) {
		return "the writer may leave its loop early", nil
	}
	if !fr.loopEnded(sr, lr) {
		return "the reader may leave its loop early", nil
	}
	if lw.Step != lr.Step {
		return "the elements are written and read in different order", nil
	}
	startR, boundR := wp.tr(sw, sr, env, lr.Start), wp.tr(sw, sr, env, lr.Bound)
	if !sw.EQ(lw.Start, startR) || !sw.EQ(sw.Resolve(lw.Bound), boundR) && !wp.sameLength(sw, sw.Resolve(lw.Bound), boundR) {
		return fmt.Sprintf("elements %s to %s are written, %s to %s are read", lw.Start, sw.Resolve(lw.Bound), startR, boundR), nil
	}
	// the index
	l := fr.toLin(lr.Idx)
	if len(l.M) != 1 || l.M[0].K != 1 {
		return "unknown index of the reader", nil
	}
	env = env.with(l.M[0].T, fw.fromLin(linAdd(fw.toLin(lw.Idx), &Lin{C: -l.C}, 1), nil))
	env[lr.Idx] = lw.Idx
	var bw, br []*State
	fw.AtBackEdges(lw, func(p *Point) { bw = append(bw, p.St) })
	fr.AtBackEdges(lr, func(p *Point) { br = append(br, p.St) })
	if len(bw) == 0 || len(br) == 0 {
		return "a loop without iterations", nil
	}
	for _, x := range bw {
		met := false
		for _, y := range br {
			skip, m := wp.match(x, y, lw, lr, env)
			if skip {
				continue
			}
			if m.why != "" {
				return m.why, nil
			}
			met = true
			ow, or := wp.W.items(x, lw), wp.R.items(y, lr)
			if len(ow) == 0 {
				if !fr.quiet(y, lr) {
					return "an element is set which was not written", nil
				}
				continue
			}
			if len(ow) != 1 || ow[0].op == nil {
				return "more than one value is written for an element", nil
			}
			cw := wp.elemOf(fw, x, ow[0].val, lw.Idx)
			if cw == nil {
				return fmt.Sprintf("%s, which is written, is not an element of a collection", ow[0].val), nil
			}
			cr := wp.placeOf(fr, y, or[0].val, lr)
			if cr == nil {
				return fmt.Sprintf("%s, which is read, does not become the element of a collection", or[0].val), nil
			}
			restored = append(restored, [2]*Term{x.Resolve(cw), y.Resolve(cr)}, [2]*Term{x.Resolve(cw), cr})
		}
		if !met {
			return "the reader does not read an element which is written", nil
		}
		// nothing is left out
		if len(wp.W.items(x, lw)) == 0 {
			out := false
			for _, a := range x.Conds() {
				if a.Cond.Op == "lookupok" && !a.Pos && stripConv(a.Cond.Args[1]) == lw.Idx {
					out = true
				}
			}
			if !out {
				return "an element is not written although it may be there", nil
			}
		}
	}
	return "", restored
}

// sameLength: both are lengths of fields which are made with the same length by the type
func (wp *wirePair) sameLength(sw *State, x, y *Term) bool {
	if !namedIs(derefT(recvT(wp.writerFn)), "kzg", "TrustedSetup") {
		return false
	}
	// LagrangeBasis and Diff2 are as long as D says, in each trusted setup (C22)
	d := sw.Resolve(wp.W.f.field(wp.W.f.Param(0), "D"))
	return x.Op == "len" && x.Args[0].Op == "sel" && x.Args[0].Args[0] == wp.W.f.Param(0) && stripConv(y) == d
}

func (f *Flow) quiet(st *State, l *Loop) bool {
	for _, n := range []string{"mapset", "slot"} {
		for _, e := range st.Events(n) {
			if stripConv(e.Args[1]) == l.Idx {
				return false
			}
		}
	}
	return true
}

// elemOf: the collection whose element at the index it is
func (wp *wirePair) elemOf(f *Flow, st *State, v, idx *Term) *Term {
	v = st.Resolve(v)
	for v.Op == "ld" || v.Op == "res" && v.Args[0].Op == "lookupok" || v.Op == "as" || v.Op == "conv" && len(v.Args) == 1 && !isInt(v.T) {
		v = v.Args[0]
	}
	if (v.Op == "idx" || v.Op == "ia" || v.Op == "lookup" || v.Op == "lookupok") && stripConv(v.Args[1]) == idx {
		return v.Args[0]
	}
	return nil
}

// placeOf: the collection in which the value read becomes the element at the index
func (wp *wirePair) placeOf(f *Flow, st *State, v *Term, l *Loop) *Term {
	idx := l.Idx
	if c := wp.elemOf(f, st, v, idx); c != nil {
		return c
	}
	for _, n := range []string{"mapset", "slot"} {
		for _, e := range st.Events(n) {
			if stripConv(e.Args[1]) == idx && (st.Resolve(e.Args[2]) == st.Resolve(v) || unIface(st, st.Resolve(e.Args[2])) == st.Resolve(v)) {
				return e.Args[0]
			}
		}
	}
	return f.appendedTo(st, v, l)
}

// appendedTo: the list, empty before the loop, to which the value is appended in each iteration
func (f *Flow) appendedTo(st *State, v *Term, l *Loop) *Term {
	v = st.Resolve(v)
	if s, ok := l.Start.Int(); !ok || s != 0 || l.Step != 1 {
		return nil
	}
	isNew := func(x *Term) *Term {
		b, es := f.appended(st, x)
		if len(es) != 1 || es[0] != v && unIface(st, es[0]) != v {
			return nil
		}
		return b
	}
	for _, e := range st.Events("fset") {
		fld := f.mkLoadNoFwd(e.Args[0], e.Args[1].T)
		if isNew(st.Resolve(e.Args[1])) != fld {
			continue
		}
		empty := true
		f.AtEntry(l, func(p *Point) {
			found := false
			for _, x := range p.St.Events("fset") {
				if x.Args[0] == e.Args[0] {
					n, ok := p.St.Resolve(f.mkLen(x.Args[1])).Int()
					found = ok && n == 0 || x.Args[1].IsNil()
				}
			}
			empty = empty && found
		})
		if empty {
			return fld
		}
	}
	for _, in := range l.Head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph := f.term(l.Ctx, phi)
		good := ph.Op == "phi"
		for i, x := range f.PhiEdges(ph) {
			if l.Head.Dominates(l.Head.Preds[i]) {
				good = good && isNew(x) == ph
				continue
			}
			n, isC := f.mkLen(x).Int()
			good = good && (x.IsNil() || isC && n == 0)
		}
		if good {
			return ph
		}
	}
	return nil
}

// notRestored are fields which are not serialized but computed from others
var notRestored = map[string]bool{"TrustedSetup.Suite": true, "TrustedSetup.Domain": true, "TrustedSetup.AprimeDomainI": true, "TrustedSetup.precalc": true, "TrustedSetup.ZeroG1": true, "TrustedSetup.OneG1": true}

// paths: the flows of the pair and the paths on which they succeed, and those on which the reader fails although it could read
func (wp *wirePair) paths() (we, re, failed []*Exit) {
	wp.W, wp.R = wp.flow(wp.writerFn, false), wp.flow(wp.readerFn, true)
	fw, fr := wp.W.f, wp.R.f
	wp.params = map[*Term]*Term{}
	if wp.writerFn.Signature.Recv() == nil {
		wp.subject = fw.Param(1)
	}
	for i, q := range wp.readerFn.Params {
		for j, x := range wp.writerFn.Params {
			if i == 0 && j == 0 && wp.readerFn.Signature.Recv() != nil && wp.writerFn.Signature.Recv() != nil || i > 0 && x.Type().String() == q.Type().String() && x.Name() == q.Name() {
				wp.params[fr.Param(i)] = fw.Param(j)
			}
		}
		if wp.params[fr.Param(i)] == nil {
			for j, x := range wp.writerFn.Params {
				if i > 0 && x.Type().String() == q.Type().String() {
					wp.params[fr.Param(i)] = fw.Param(j)
				}
			}
		}
	}
	fw.Visit(nil, func(e *Exit) {
		if succeeded(e) && wp.feasible(e.P.St) && wp.asCalled(e.P.St) {
			we = append(we, e)
		}
	})
	fr.Visit(nil, func(e *Exit) {
		if succeeded(e) {
			re = append(re, e)
		} else if e.Kind == "return" && !wp.opFailed(e.P.St) {
			failed = append(failed, e)
		}
	})
	return
}

func (wp *wirePair) run() {
	r, w := wp.r, wp.r.W
	we, re, failed := wp.paths()
	cons := "what " + fname(wp.writerFn) + " writes"
	r.Check(len(we) > 0 && len(re) > 0, "paths", cons, w.FuncPos(wp.writerFn), "no successful path of the writer or the reader")
	for _, x := range we {
		met := false
		for _, y := range re {
			skip, m := wp.match(x.P.St, y.P.St, nil, nil, wireEnv{})
			if skip {
				continue
			}
			met = true
			ok := r.Check(m.why == "", "same-format", cons, x.P.Where(), "%s reads it differently (%s): %s", fname(wp.readerFn), y.P.Where(), m.why)
			if ok {
				wp.compare(x, y, m)
			}
		}
		r.Check(met, "readable", cons, x.P.Where(), "%s does not read it", fname(wp.readerFn))
		for _, y := range failed {
			why, rejects := wp.rejects(x.P.St, y.P.St)
			r.Check(!rejects, "accepted", cons, y.P.Where(), "%s rejects what was written: %s", fname(wp.readerFn), why)
		}
	}
}

// asCalled: the parameters about the terminal are only set when there is a terminal (C24 checks the callers)
func (wp *wirePair) asCalled(sw *State) bool {
	if !namedIs(derefT(recvT(wp.writerFn)), "trie", "NodeData") {
		return true
	}
	f := wp.W.f
	t := f.field(f.Param(0), "Terminal")
	if !sw.True(f.mkEq(t, f.constNil())) {
		return true
	}
	for i, q := range wp.writerFn.Params {
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && sw.True(f.Param(i)) {
			return false
		}
	}
	return true
}

// opFailed: something could not be read
func (wp *wirePair) opFailed(sr *State) bool {
	for _, a := range sr.Conds() {
		if a.Cond.Op != "eq" || a.Pos {
			continue
		}
		for k := 0; k < 2; k++ {
			y := a.Cond.Args[k]
			if y.Op == "res" {
				y = y.Args[0]
			}
			if a.Cond.Args[1-k].IsNil() && wp.R.ops[y] != nil {
				return true
			}
		}
	}
	return false
}

// rejects: the path of the reader, which ends in an error, is known to be taken for something which the writer has written
func (wp *wirePair) rejects(sw, sr *State) (string, bool) {
	wp.prefix = true
	skip, m := wp.match(sw, sr, nil, nil, wireEnv{})
	wp.prefix = false
	if skip || m.why != "" {
		return "", false
	}
	j := sw.clone()
	why, formed := "", false
	for _, a := range sr.Conds() {
		v, t := wp.holds(j, sr, m.env, a.Cond)
		if v != 0 {
			continue
		}
		if t == nil || t.Any(func(x *Term) bool { return strings.HasPrefix(x.Name, "r:") || x.Op == "call" || x.Op == "deep" }) {
			return "", false
		}
		if !j.Assume(t, a.Pos) {
			return "", false
		}
		if t.Any(func(x *Term) bool {
			return x.Op == "sel" && (x.Name == "PathArity" || x.Name == "HashSize") || x.Op == "param" && isArityT(x.T)
		}) {
			formed = true // the object is not well formed
			continue
		}
		why += fmt.Sprintf(" %s is %v", t, a.Pos)
	}
	if why == "" && formed {
		return "", false
	}
	return "if" + why, true
}

func isArityT(T types.Type) bool { return T != nil && strings.HasSuffix(T.String(), "PathArity") }

// feasible: the conditions about bits on the path of the writer do not contradict the values
func (wp *wirePair) feasible(sw *State) bool {
	for _, a := range sw.Conds() {
		c := a.Cond
		if c.Op != "eq0" || c.Args[0].Lin == nil || len(c.Args[0].Lin.M) != 1 || c.Args[0].Lin.C != 0 {
			continue
		}
		b := c.Args[0].Lin.M[0].T
		if b.Op != "bin" || b.Name != "&" || len(b.Args) != 2 {
			continue
		}
		for k := 0; k < 2; k++ {
			if m, ok := b.Args[k].Int(); ok {
				if v := wp.mask(sw, b.Args[1-k], m); v != nil {
					if i, isI := v.Int(); isI && (i == 0) != a.Pos {
						return false
					}
				}
			}
		}
	}
	return true
}

// compare the object read with the object written
func (wp *wirePair) compare(x, y *Exit, m *wireMatch) {
	fw, fr := wp.W.f, wp.R.f
	sr := y.P.St
	sw, ok := wp.joint(x.P.St, sr, m.env)
	if !ok {
		return
	}
	check := func(what string, vw, vr *Term) {
		t := sr.Resolve(vr)
		if vr.Op == "sel" {
			for _, e := range sr.Events("fset") {
				if e.Args[0] == fr.mkFA(vr.Args[0], vr.Name, nil) {
					t = sr.Resolve(e.Args[1])
				}
			}
		}
		for _, p := range m.restored {
			if p[0] == sw.Resolve(vw) && (p[1] == t || p[1] == vr) {
				wp.r.OK("same-value", what+" of "+fname(wp.writerFn), x.P.Where())
				return
			}
		}
		var b *Term
		if t == vr && vr.Op == "sel" && vr.Args[0].Op == "param" && m.env[vr] == nil {
			b = fw.intern("init", "", nil) // as before reading
		} else {
			b = wp.tr(sw, sr, m.env, t)
		}
		if t.Op == "makeslice" && m.env[t] == nil && sw.EQ(wp.tr(sw, sr, m.env, fr.mkLen(t)), fw.constInt(0, nil)) {
			b = fw.intern("init", "", nil) // made empty
		}
		if b.CallName() != "" && strings.HasSuffix(b.CallName(), ".CommitToData") || b.Op == "call" && strings.Contains(b.Name, "CommitToData") {
			return // C24
		}
		wp.r.Check(wp.eqv(sw, vw, b), "same-value", what+" of "+fname(wp.writerFn), x.P.Where(), "%s is read back as %s", sw.Resolve(vw), b)
	}
	if wp.subject != nil {
		i := 0
		if wp.readerFn.Signature.Results().Len() > 1 {
			check("value", wp.subject, y.Results[i])
		} else {
			for _, e := range sr.Events("store") {
				if e.Args[0] == fr.Param(1) {
					check("value", wp.subject, e.Args[1])
					return
				}
			}
			check("value", wp.subject, fr.mkLoadNoFwd(fr.Param(1), derefT(wp.readerFn.Params[1].Type())))
		}
		return
	}
	T := derefT(recvT(wp.writerFn))
	s, isS := T.Underlying().(*types.Struct)
	if !isS {
		// the receiver itself is the data
		v := m.env[fr.Param(0)]
		wp.r.Check(v == fw.Param(0), "same-value", "data of "+fname(wp.writerFn), x.P.Where(), "the data is not written and read as a whole")
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		if nm, isN := T.(*types.Named); isN && notRestored[nm.Obj().Name()+"."+n] {
			continue
		}
		check("field "+n, fw.field(fw.Param(0), n), fr.field(fr.Param(0), n))
	}
}

func runC06(r *Report) {
	w := r.W
	type key struct{ T, kind string }
	ws, rs := map[key]*ssa.Function{}, map[key]*ssa.Function{}
	var order []key
	for _, fn := range w.Funcs {
		if fn.Signature.Recv() == nil || fn.Synthetic != "" || fn.Parent() != nil || len(fn.Blocks) == 0 || errIndex(fn.Signature) != 0 {
			continue
		}
		stream := ""
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if s := fn.Signature.Params().At(i).Type(); isStreamT(s) {
				stream = s.String()
			}
		}
		k := wireMethod(fn.Name())
		if stream == "" || k == "" {
			continue
		}
		kk := key{derefT(recvT(fn)).String(), k}
		if stream == "io.Writer" {
			ws[kk] = fn
			order = append(order, kk)
		} else {
			rs[kk] = fn
		}
	}
	n := 0
	for _, k := range order {
		rd := rs[k]
		r.Check(rd != nil, "reader", "reader of "+k.T, w.FuncPos(ws[k]), "%s has no reader", fname(ws[k]))
		if rd == nil {
			continue
		}
		n++
		(&wirePair{r: r, writerFn: ws[k], readerFn: rd}).run()
	}
	for _, x := range []string{"Byte", "Uint16", "Uint32", "Bytes8", "Bytes16", "Bytes32"} {
		wf, rf := w.Must("trie", "Write"+x), w.Must("trie", "Read"+x)
		(&wirePair{r: r, writerFn: wf, readerFn: rf}).run()
	}
	r.Check(n >= 9, "reader", "serializable types", "", "only %d were found", n)
	r.freshTargets()
	nb := r.bytesForm("byte-form", func(*ssa.Function) bool { return true })
	r.Check(nb >= 6, "byte-form", "byte forms of objects", "", "only %d were found", nb)
}
