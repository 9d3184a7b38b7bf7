package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Flow is a forward data-flow analysis of an entry function with the functions of the library it calls inlined into
// one flow graph. The state at a point is a small set of disjuncts, distinguished by the constants known for merged
// values (e.g. 'this error is nil'); each disjunct holds the set of facts established on all paths into it
// (conditions of taken branches and events), and the set of obligations pending on some path.
type Flow struct {
	bounding int // depth of the search for bounds
	W        *World
	Entry    *ssa.Function
	Root     *Ctx
	Opt      FlowOpt
	terms    map[string]*Term
	nctx     int
	ctxs     []*Ctx
	in       map[node]map[string]*State
	inFwd    map[*Term]bool
	Funcs    map[*ssa.Function]bool // inlined functions
	Steps    int
	Capped   bool
	allocSto map[*Term]int
	loops    map[*ssa.Function]map[*ssa.BasicBlock]bool
	phiDef   map[*Term][]*Term
	private  map[ssa.Value]bool
	accum    map[*ssa.Alloc]bool
	proving  int
	done     bool // the fixpoint is reached
	loopsC   []*Loop
	edgesC   map[*Term][2][]*Point // by loop head: edges from outside and back edges
}

type FlowOpt struct {
	MaxDepth int
	NoInline func(fn *ssa.Function) bool
	// Transfer is called before each instruction; may add facts/pendings to the state
	Transfer func(p *Point)
	// AtLost is called if a pending obligation mentions a value which is redefined (next iteration of a loop)
	AtLost func(p *Point, o *Pend)
	// Split: the truth of these conditions distinguishes disjuncts
	Split func(c *Term) bool
	// KeepErrs: the errors returned by functions are told apart
	KeepErrs bool
	// SplitFacts: these facts distinguish disjuncts as long as they are known
	SplitFacts func(a *Atom) bool
	// NoSummary: the bodies of the methods of PathArity are analysed instead of their summaries
	NoSummary bool
	// Discharge is called before a state is merged with others
	Discharge func(st *State)
	// PhiEdge is called for the values assigned to merged values
	PhiEdge func(st *State, phi, val *Term)
	// NonNilStores: of errors stored in local variables only that they are not nil is remembered
	NonNilStores bool
	// Params of the root can be given
	Params []*Term
	// Init gives what is known at the entry
	Init func(st *State)
}

type Atom struct {
	Key  string
	Ev   string // event name or "" for a condition
	Cond *Term  // boolean term
	Pos  bool   // polarity of cond
	Args []*Term
	lv   map[*Term]bool
}

func (a *Atom) leaves() map[*Term]bool {
	if a.lv == nil {
		a.lv = map[*Term]bool{}
		if a.Cond != nil {
			for l := range a.Cond.Leaves() {
				a.lv[l] = true
			}
		}
		for _, t := range a.Args {
			if t != nil {
				for l := range t.Leaves() {
					a.lv[l] = true
				}
			}
		}
	}
	return a.lv
}

func (a *Atom) String() string {
	if a.Ev != "" {
		var s []string
		for _, x := range a.Args {
			s = append(s, x.String())
		}
		return "!" + a.Ev + "(" + strings.Join(s, ", ") + ")"
	}
	if a.Pos {
		return a.Cond.pretty()
	}
	return "not " + a.Cond.pretty()
}

func (t *Term) pretty() string {
	switch t.Op {
	case "eq0":
		return t.Args[0].String() + " == 0"
	case "le0":
		return t.Args[0].String() + " <= 0"
	}
	return t.String()
}

// Pend is an obligation which is not yet discharged on some path
type Pend struct {
	Key  string
	Name string
	Args []*Term
	At   string
}

type State struct {
	f     *Flow
	facts map[string]*Atom
	pend  map[string]*Pend
	corr  map[*Term]*Term
}

func (s *State) clone() *State {
	n := &State{f: s.f, facts: make(map[string]*Atom, len(s.facts)), pend: make(map[string]*Pend, len(s.pend)), corr: make(map[*Term]*Term, len(s.corr))}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.pend {
		n.pend[k] = v
	}
	for k, v := range s.corr {
		n.corr[k] = v
	}
	return n
}

// splitting values distinguish disjuncts
func (f *Flow) splitting(v *Term) bool {
	return v.Op == "const" || v.T != nil && basicKind(v.T) == types.Bool || f.Opt.KeepErrs && isErrT(v.T)
}

func (s *State) key() string {
	var ks []string
	for k, v := range s.corr {
		if s.f.splitting(v) {
			ks = append(ks, fmt.Sprintf("%d=%d", k.ID, v.ID))
		}
	}
	if sf := s.f.Opt.SplitFacts; sf != nil {
		for k, a := range s.facts {
			if a.Ev == "" && sf(a) {
				ks = append(ks, k)
			}
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// merge o into s, report whether s has changed
func (s *State) merge(o *State) bool {
	ch := false
	for k := range s.facts {
		if _, ok := o.facts[k]; !ok {
			delete(s.facts, k)
			ch = true
		}
	}
	for k, v := range o.pend {
		if _, ok := s.pend[k]; !ok {
			s.pend[k] = v
			ch = true
		}
	}
	for k, v := range s.corr {
		if o.corr[k] != v {
			delete(s.corr, k)
			ch = true
		}
	}
	return ch
}

// Point is a program point during the analysis
type Point struct {
	F     *Flow
	Ctx   *Ctx
	Instr ssa.Instruction
	St    *State
	Final bool
}

func (p *Point) T(v ssa.Value) *Term { return p.St.Resolve(p.F.term(p.Ctx, v)) }
func (p *Point) Pos() string         { return p.F.W.InstrPos(p.Instr) }

// Where describes the point with its inlining stack
func (p *Point) Where() string {
	s := p.Pos() + " in " + fname(p.Ctx.Fn)
	for c := p.Ctx; c.Parent != nil; c = c.Parent {
		s += " <- " + fname(c.Parent.Fn)
	}
	return s
}

type node struct {
	ctx   *Ctx
	b     *ssa.BasicBlock
	i     int
	stage int
}

// Exit of the entry function
type Exit struct {
	Kind    string // "return" or "panic"
	P       *Point
	Results []*Term
}

func NewFlow(w *World, entry *ssa.Function, opt FlowOpt) *Flow {
	if opt.MaxDepth == 0 {
		opt.MaxDepth = 8
	}
	f := &Flow{W: w, Entry: entry, Opt: opt, terms: map[string]*Term{}, in: map[node]map[string]*State{},
		inFwd: map[*Term]bool{}, Funcs: map[*ssa.Function]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, phiDef: map[*Term][]*Term{}, private: map[ssa.Value]bool{}}
	f.Root = f.newCtx(entry, nil, nil)
	for i, p := range entry.Params {
		if i < len(opt.Params) && opt.Params[i] != nil {
			f.Root.Params = append(f.Root.Params, opt.Params[i])
			continue
		}
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		f.Root.Params = append(f.Root.Params, f.intern("param", n, p.Type()))
	}
	for i, fv := range entry.FreeVars {
		f.Root.Free = append(f.Root.Free, f.intern("param", fmt.Sprintf("free%d.%s", i, fv.Name()), fv.Type()))
	}
	return f
}

func (f *Flow) newCtx(fn *ssa.Function, parent *Ctx, call ssa.Instruction) *Ctx {
	f.nctx++
	c := &Ctx{ID: f.nctx, Fn: fn, Parent: parent, Call: call, vals: map[ssa.Value]*Term{}, childs: map[ssa.Instruction]*Ctx{}, cbs: map[string]*Ctx{}}
	if parent != nil {
		c.Depth = parent.Depth + 1
	}
	f.ctxs = append(f.ctxs, c)
	f.Funcs[fn] = true
	return c
}

// Param is the term of a parameter of the entry
func (f *Flow) Param(i int) *Term { return f.Root.Params[i] }

// ---------------------------------------------------------------- calls

// callee resolves the function called: static, closure, or method of a value with known dynamic type
func (f *Flow) callee(ctx *Ctx, c *ssa.CallCommon) (*ssa.Function, []*Term) {
	if c.IsInvoke() {
		recv := f.term(ctx, c.Value)
		if recv.T == nil || types.IsInterface(recv.T) || recv.IsNil() {
			return nil, nil
		}
		fn := f.W.Prog.LookupMethod(recv.T, c.Method.Pkg(), c.Method.Name())
		return fn, nil
	}
	if fn := c.StaticCallee(); fn != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			var free []*Term
			for _, b := range mc.Bindings {
				free = append(free, f.term(ctx, b))
			}
			return fn, free
		}
		return fn, nil
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, nil
	}
	t := f.term(ctx, c.Value)
	return f.funcOf(t)
}

func (f *Flow) funcOf(t *Term) (*ssa.Function, []*Term) {
	switch t.Op {
	case "closure":
		mc := t.V.(*ssa.MakeClosure)
		var free []*Term
		for _, b := range mc.Bindings {
			free = append(free, f.term(t.Ctx, b))
		}
		return mc.Fn.(*ssa.Function), free
	case "func":
		return t.V.(*ssa.Function), nil
	}
	return nil, nil
}

func (f *Flow) inlinable(ctx *Ctx, fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil {
		return false
	}
	if !f.W.inMod[fn] && !(fn.Synthetic != "" && fn.Pkg == nil || fn.Synthetic != "" && f.modPkg(fn)) {
		return false
	}
	if ctx.Depth >= f.Opt.MaxDepth {
		return false
	}
	if f.Opt.NoInline != nil && f.Opt.NoInline(fn) {
		return false
	}
	if f.hasSummary(fn) {
		return false
	}
	for c := ctx; c != nil; c = c.Parent {
		if c.Fn == fn {
			return false
		}
	}
	return true
}

func (f *Flow) modPkg(fn *ssa.Function) bool {
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
}

// child returns the context of the inlined call or nil if the call is opaque
func (f *Flow) child(ctx *Ctx, in ssa.Instruction, c *ssa.CallCommon) *Ctx {
	if ch, ok := ctx.childs[in]; ok {
		return ch
	}
	ctx.childs[in] = nil
	fn, free := f.callee(ctx, c)
	if !f.inlinable(ctx, fn) {
		return nil
	}
	ch := f.newCtx(fn, ctx, in)
	ch.Free = free
	if c.IsInvoke() {
		ch.Params = append(ch.Params, f.term(ctx, c.Value))
	}
	for _, a := range c.Args {
		ch.Params = append(ch.Params, f.term(ctx, a))
	}
	if len(ch.Params) != len(fn.Params) {
		return nil
	}
	ctx.childs[in] = ch
	return ch
}

// callName is the canonical name of an opaque callee
func (f *Flow) callName(ctx *Ctx, c *ssa.CallCommon) string {
	if c.IsInvoke() {
		recv := f.term(ctx, c.Value)
		if recv.T != nil && !types.IsInterface(recv.T) {
			if fn, _ := f.callee(ctx, c); fn != nil {
				return fname(fn)
			}
		}
		return ifaceMethod(c)
	}
	if fn, _ := f.callee(ctx, c); fn != nil {
		return fname(fn)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "dynamic"
}

// ifaceMethod names an interface method call "pkg.Iface.Method"; embedding interfaces are resolved to the declaring one
func ifaceMethod(c *ssa.CallCommon) string {
	m := c.Method
	recv := m.Type().(*types.Signature).Recv()
	n := ""
	if recv != nil {
		n = types.TypeString(recv.Type(), func(p *types.Package) string { return shortPkg(p.Path()) })
	}
	return n + "." + m.Name()
}

func shortPkg(path string) string {
	for s, p := range pkgShort {
		if p == path {
			return s
		}
	}
	if i := strings.LastIndexByte(path, '/'); i >= 0 {
		last := path[i+1:]
		if len(last) > 1 && last[0] == 'v' && last[1] >= '0' && last[1] <= '9' {
			p2 := path[:i]
			last = p2[strings.LastIndexByte(p2, '/')+1:]
		}
		return last
	}
	return path
}

// pure opaque calls: same arguments, same result
var pureCalls = map[string]bool{
	"bytes.Equal": true, "bytes.HasPrefix": true, "bytes.HasSuffix": true, "bytes.Compare": true, "errors.Is": true, "strings.HasSuffix": true,
	"errors.New": true, "fmt.Errorf": true, "fmt.Sprintf": true,
	"trie.Node.Key": true, "trie.Node.PathFragment": true, "trie.Node.Terminal": true, "trie.Node.ChildCommitments": true,
	"trie.NodeStore.Model": true, "trie.NodeStore.PathArity": true, "trie.CommitmentModel.PathArity": true,
	"trie.CommitmentModel.EqualCommitments": true, "trie.CommitmentModel.CommitToData": true, "trie.CommitmentModel.ForceStoreTerminalWithNode": true,
	"(*bytes.Reader).Len": true, "encoding/hex.EncodeToString": true, "(*bytes.Buffer).Bytes": true,
	"bn256.Suite.G1": true, "bn256.Suite.G2": true, "(*go.dedis.ch/kyber/v3/pairing/bn256.Suite).G1": true, "(*go.dedis.ch/kyber/v3/pairing/bn256.Suite).G2": true,
	"kyber.Scalar.Equal": true, "kyber.Point.Equal": true,
}

// IsPure can be extended by rules
func (f *Flow) isPure(name string) bool { return pureCalls[name] }

func (f *Flow) callTerm(ctx *Ctx, v *ssa.Call) *Term {
	c := v.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var as []*Term
		for _, a := range c.Args {
			as = append(as, f.term(ctx, a))
		}
		switch b.Name() {
		case "len":
			return f.mkLen(as[0])
		case "cap":
			return f.intern("cap", "", v.Type(), as...)
		case "append":
			return f.intern("append", "", v.Type(), as...)
		case "min", "max":
			return f.intern("call", b.Name(), v.Type(), as...)
		}
		return f.unique("call", ctx, v, ":"+b.Name())
	}
	if ch := f.child(ctx, v, c); ch != nil {
		if tup, ok := v.Type().(*types.Tuple); ok && tup.Len() != 1 {
			return f.unique("tuple", ctx, v, "")
		}
		return f.retTerm(ch, 0)
	}
	name := f.callName(ctx, c)
	var as []*Term
	if c.IsInvoke() {
		as = append(as, f.term(ctx, c.Value))
	}
	for _, a := range c.Args {
		as = append(as, f.term(ctx, a))
	}
	if name == "bytes.Equal" && len(as) == 2 {
		return f.bytesEq(as[0], as[1])
	}
	if fn, _ := f.callee(ctx, c); f.hasSummary(fn) {
		if t := f.summary(fn, as, v.Type()); t != nil {
			return t
		}
	}
	if f.isPure(name) {
		return f.intern("call", name, v.Type(), as...)
	}
	t := f.unique("call", ctx, v, ":"+name)
	t.Args = as
	return t
}

// CallName of a term of an opaque call
func (t *Term) CallName() string {
	if t.Op != "call" {
		return ""
	}
	if t.isUnique() {
		i := strings.IndexByte(t.Name, ':')
		return t.Name[i+1:]
	}
	return t.Name
}

func (f *Flow) returns(fn *ssa.Function) []*ssa.Return {
	var r []*ssa.Return
	for _, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != fn.Recover {
				r = append(r, x)
			}
		}
	}
	return r
}

// retTerm is the i-th result of an inlined call
func (f *Flow) retTerm(ch *Ctx, i int) *Term {
	rs := f.returns(ch.Fn)
	var one *Term
	same := true
	for _, r := range rs {
		t := f.term(ch, r.Results[i])
		if one == nil {
			one = t
		} else if one != t {
			same = false
		}
	}
	if same && one != nil {
		return one
	}
	return f.retUnique(ch, i)
}

func (f *Flow) retUnique(ch *Ctx, i int) *Term {
	var T types.Type
	if res := ch.Fn.Signature.Results(); i < res.Len() {
		T = res.At(i).Type()
	}
	t := f.intern("ret", fmt.Sprintf("%d.%d:%s", ch.ID, i, fname(ch.Fn)), T)
	t.Ctx = ch
	return t
}

func (f *Flow) extractTerm(ctx *Ctx, v *ssa.Extract) *Term {
	switch x := v.Tuple.(type) {
	case *ssa.Call:
		if ch := f.child(ctx, x, x.Common()); ch != nil {
			return f.retTerm(ch, v.Index)
		}
		t := f.term(ctx, x)
		return f.intern("res", fmt.Sprintf("%d", v.Index), v.Type(), t)
	case *ssa.Lookup:
		t := f.term(ctx, x)
		if v.Index == 0 {
			return t
		}
		return f.intern("lookupok", "", v.Type(), t.Args...)
	case *ssa.TypeAssert:
		t := f.term(ctx, x)
		if v.Index == 0 {
			if t.T == nil || types.IsInterface(t.T) {
				return f.intern("as", x.AssertedType.String(), x.AssertedType, t)
			}
			return t
		}
		return f.intern("isa", x.AssertedType.String(), v.Type(), t)
	case *ssa.Next:
		n := f.term(ctx, x)
		switch v.Index {
		case 0:
			return f.intern("rok", "", v.Type(), n)
		case 1:
			return f.intern("rkey", "", v.Type(), n)
		}
		return f.intern("rval", "", v.Type(), n)
	}
	return f.unique("extract", ctx, v, "")
}

// RangeOf returns the collection iterated by the 'next' term
func (f *Flow) RangeOf(n *Term) *Term {
	if n == nil || n.Op != "next" {
		return nil
	}
	nx := n.V.(*ssa.Next)
	if r, ok := nx.Iter.(*ssa.Range); ok {
		return f.term(n.Ctx, r.X)
	}
	return nil
}

// ---------------------------------------------------------------- memory

// forwardCell: variable (captured by closures or with its address taken) which is assigned only once
func (f *Flow) forwardCell(a *Term) *Term {
	al, ok := a.V.(*ssa.Alloc)
	if !ok || f.inFwd[a] {
		return nil
	}
	var val ssa.Value
	n := 0
	var scan func(v ssa.Value) bool
	scan = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != v {
					return false
				}
				n++
				val = r.Val
				if r.Parent() != al.Parent() {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v {
						if !scan(fn.FreeVars[i]) {
							return false
						}
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !scan(al) || n != 1 {
		return nil
	}
	f.inFwd[a] = true
	defer delete(f.inFwd, a)
	t := f.term(a.Ctx, val)
	if t.Any(func(x *Term) bool { return x == a }) {
		return nil
	}
	return t
}

// forwardField: field of a local composite literal which does not escape and is assigned only once
func (f *Flow) forwardField(fa *Term, T types.Type) *Term {
	base := fa.Args[0]
	if base.Op != "alloc" || f.inFwd[fa] {
		return nil
	}
	al, ok := base.V.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var val ssa.Value
	n := 0
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			same := fieldName(r.X.Type(), r.Field) == fa.Name
			for _, q := range *r.Referrers() {
				switch q := q.(type) {
				case *ssa.Store:
					if q.Addr != r {
						return nil
					}
					if same {
						n++
						val = q.Val
					}
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.FieldAddr, *ssa.IndexAddr:
					if same {
						return nil
					}
				default:
					if same {
						return nil
					}
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			return nil
		case *ssa.Return:
			if base.Ctx != f.Root {
				return nil // the caller may assign it
			}
		default:
			return nil
		}
	}
	if n != 1 {
		return nil
	}
	f.inFwd[fa] = true
	defer delete(f.inFwd, fa)
	return f.term(base.Ctx, val)
}

// ---------------------------------------------------------------- state

// Resolve substitutes merged values by what is known about them in this disjunct
func (s *State) Resolve(t *Term) *Term {
	return s.resolve(t, 0)
}

func (s *State) resolve(t *Term, d int) *Term {
	if t == nil || d > 12 {
		return t
	}
	if v, ok := s.corr[t]; ok && v != t {
		if v == s.f.constNonNil() {
			return t
		}
		return s.resolve(v, d+1)
	}
	f := s.f
	switch t.Op {
	case "const", "param", "global", "func", "alloc":
		return t
	case "lin":
		l := &Lin{C: t.Lin.C}
		ch := false
		for _, m := range t.Lin.M {
			r := s.resolve(m.T, d+1)
			if r != m.T {
				ch = true
			}
			l = linAdd(l, f.toLin(r), m.K)
		}
		if ch {
			return f.fromLin(l, t.T)
		}
		return t
	case "sel":
		b := s.resolve(t.Args[0], d+1)
		// field of a struct copied as a whole
		if b.Op == "fa" {
			if v, ok := s.corr[f.intern("sel", b.Name, nil, b.Args[0])]; ok && v.Op != "const" {
				return s.resolve(f.mkSel(v, t.Name, t.T), d+1)
			}
		}
		if b.Op == "alloc" {
			if _, own := s.corr[f.intern("sel", t.Name, nil, b)]; !own {
				if v, ok := s.corr[f.intern("ld", "", nil, b)]; ok && v.Op != "const" && v.T != nil {
					if _, isS := v.T.Underlying().(*types.Struct); isS {
						return s.resolve(f.mkSel(v, t.Name, t.T), d+1)
					}
				}
			}
		}
		if b != t.Args[0] {
			n := f.mkSel(b, t.Name, t.T)
			if v, ok := s.corr[n]; ok && v != n && v != f.constNonNil() {
				return s.resolve(v, d+1)
			}
			return n
		}
		return t
	case "eq0":
		r := s.resolve(t.Args[0], d+1)
		if r != t.Args[0] {
			return f.eq0(f.toLin(r))
		}
		return t
	case "le0":
		r := s.resolve(t.Args[0], d+1)
		if r != t.Args[0] {
			return f.le0(f.toLin(r))
		}
		return t
	}
	if t.isUnique() {
		return t
	}
	ch := false
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		as[i] = s.resolve(a, d+1)
		if as[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return f.rebuild(t, as)
}

// rebuild makes the term of the same kind over other arguments, normalised
func (f *Flow) rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "not":
		return f.mkNot(as[0])
	case "eq":
		return f.mkEq(as[0], as[1])
	case "idx":
		return f.mkIdx(as[0], as[1], t.T)
	case "len":
		return f.mkLen(as[0])
	case "slice":
		return f.mkSlice(as[0], as[1], as[2], t.T)
	case "ld":
		return f.mkLoad(as[0], t.T)
	case "sel":
		return f.mkSel(as[0], t.Name, t.T)
	case "fa":
		return f.mkFA(as[0], t.Name, t.T)
	case "ia":
		return f.mkIA(as[0], as[1], t.T)
	case "eq0":
		return f.eq0(f.toLin(as[0]))
	case "le0":
		return f.le0(f.toLin(as[0]))
	case "bin":
		if len(as) == 2 && t.T != nil && isInt(t.T) {
			if op, ok := binOps[t.Name]; ok {
				return f.mkBin(op, as[0], as[1], t.T, t.T)
			}
		}
	case "call":
		if t.Name == "bytes.Equal" {
			return f.bytesEq(as[0], as[1])
		}
	}
	return f.intern(t.Op, t.Name, t.T, as...)
}

var binOps = map[string]token.Token{"*": token.MUL, "/": token.QUO, "%": token.REM, "<<": token.SHL, ">>": token.SHR, "&": token.AND, "|": token.OR, "^": token.XOR, "&^": token.AND_NOT}

// Subst replaces subterms
func (f *Flow) Subst(t *Term, m map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if v, ok := m[t]; ok {
		return v
	}
	if t.Op == "lin" || t.Op == "const" && t.Lin != nil {
		l := &Lin{C: t.Lin.C}
		for _, x := range t.Lin.M {
			l = linAdd(l, f.toLin(f.Subst(x.T, m)), x.K)
		}
		return f.fromLin(l, t.T)
	}
	if t.isUnique() || len(t.Args) == 0 {
		return t
	}
	as := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		as[i] = f.Subst(a, m)
		ch = ch || as[i] != a
	}
	if !ch {
		return t
	}
	return f.rebuild(t, as)
}

// nonNilIn: known not to be nil in this disjunct
func (s *State) nonNilIn(t *Term) bool {
	if s.f.nonNil(t) || s.corr[t] == s.f.constNonNil() {
		return true
	}
	_, ok := s.facts[condKey(s.f.mkEq(t, s.f.constNil()), false)]
	return ok
}

func condKey(c *Term, pos bool) string {
	if pos {
		return fmt.Sprintf("+%d", c.ID)
	}
	return fmt.Sprintf("-%d", c.ID)
}

// Eval evaluates a boolean term in the state: 1 true, -1 false, 0 unknown
func (s *State) Eval(c *Term) int {
	c = s.Resolve(c)
	return s.eval(c)
}

func (s *State) eval(c *Term) int {
	switch {
	case c.IsConst("true"):
		return 1
	case c.IsConst("false"):
		return -1
	case c.Op == "not":
		return -s.eval(c.Args[0])
	}
	if _, ok := s.facts[condKey(c, true)]; ok {
		return 1
	}
	if _, ok := s.facts[condKey(c, false)]; ok {
		return -1
	}
	if c.CallName() == "errors.Is" && len(c.Args) == 2 {
		return s.errorsIs(c.Args[0], c.Args[1])
	}
	switch c.Op {
	case "eq":
		a, b := c.Args[0], c.Args[1]
		if a.IsNil() {
			a, b = b, a
		}
		if b.IsNil() && s.nonNilIn(a) {
			return -1
		}
		if isErrT(a.T) && isErrT(b.T) {
			if a != b && ioSentinel(a) && ioSentinel(b) {
				return -1
			}
			for _, x := range s.facts {
				if x.Ev == "" && !x.Pos && x.Cond.CallName() == "errors.Is" {
					if y, z := s.Resolve(x.Cond.Args[0]), s.Resolve(x.Cond.Args[1]); y == a && z == b || y == b && z == a {
						return -1
					}
				}
			}
		}
	case "le0":
		l := c.Args[0].Lin
		if s.EntailsLE(l) {
			return 1
		}
		if s.EntailsLE(linAdd(&Lin{C: 1}, l, -1)) {
			return -1
		}
	case "eq0":
		l := c.Args[0].Lin
		if s.EntailsLE(linAdd(&Lin{C: 1}, l, -1)) || s.EntailsLE(linAdd(l, &Lin{C: 1}, 1)) {
			return -1
		}
		if s.EntailsLE(l) && s.EntailsLE(linScale(l, -1)) {
			return 1
		}
	}
	return 0
}

// Assume adds the condition to the facts. Returns false if it contradicts them
func (s *State) Assume(c *Term, pos bool) bool {
	c = s.Resolve(c)
	for c.Op == "not" {
		c = c.Args[0]
		pos = !pos
	}
	e := s.eval(c)
	if e == 1 && !pos || e == -1 && pos {
		return false
	}
	if c.Op == "const" {
		return true
	}
	k := condKey(c, pos)
	s.facts[k] = &Atom{Key: k, Cond: c, Pos: pos}
	if s.f.Opt.Split != nil && s.f.Opt.Split(c) {
		s.corr[c] = s.f.constBool(pos)
	}
	if !s.propagate() {
		return false
	}
	// a comparison with nil also determines the value of a tracked merged value
	if c.Op == "eq" {
		a, b := c.Args[0], c.Args[1]
		if a.IsNil() {
			a, b = b, a
		}
		if b.IsNil() && (a.Op == "phi" || a.Op == "ret" || a.Op == "ld" && s.f.Opt.NonNilStores) {
			if pos {
				s.corr[a] = b
			} else {
				s.corr[a] = s.f.constNonNil()
			}
		}
	}
	return true
}

// ioSentinel: one of the errors of package io, which do not wrap each other
func ioSentinel(t *Term) bool {
	return t.Op == "ld" && t.Args[0].Op == "global" && strings.HasPrefix(t.Args[0].Name, "io.")
}

// errorsIs evaluates errors.Is(a,b)
func (s *State) errorsIs(a, b *Term) int {
	a, b = s.Resolve(a), s.Resolve(b)
	switch {
	case a.IsNil():
		return -1
	case ioSentinel(a) && ioSentinel(b):
		if a == b {
			return 1
		}
		return -1
	case a.CallName() == "errors.New":
		return -1
	case a.CallName() == "fmt.Errorf" && len(a.Args) == 2:
		if a.Args[1].IsNil() {
			return -1
		}
		l := s.f.literal(s, a.Args[1])
		none := l != nil
		for _, x := range l {
			for x.Op == "iface" && len(x.Args) == 1 {
				x = s.Resolve(x.Args[0])
			}
			if isErrT(x.T) && s.errorsIs(x, b) >= 0 {
				none = false
			}
		}
		if none {
			return -1
		}
	}
	for _, x := range s.facts {
		if x.Ev != "" || x.Cond.Op != "eq" && x.Cond.CallName() != "errors.Is" {
			continue
		}
		y, z := s.Resolve(x.Cond.Args[0]), s.Resolve(x.Cond.Args[1])
		switch {
		case x.Cond.Op == "eq" && x.Pos && (y == a && z == b || y == b && z == a):
			return 1
		case x.Cond.Op == "eq" && x.Pos && (y == a && z.IsNil() || z == a && y.IsNil()):
			return -1
		case x.Cond.Op != "eq" && y == a && z == b:
			if x.Pos {
				return 1
			}
			return -1
		}
	}
	return 0
}

func isCond(t *Term) bool {
	return t.Op == "eq0" || t.Op == "le0" || t.Op == "eq" || t.Op == "not"
}

// propagate the comparisons of conditions with each other
func (s *State) propagate() bool {
	var l []*Atom
	for _, a := range s.facts {
		if a.Ev == "" && a.Cond.Op == "eq" && isCond(a.Cond.Args[0]) && isCond(a.Cond.Args[1]) {
			l = append(l, a)
		}
	}
	for _, a := range l {
		x, y := a.Cond.Args[0], a.Cond.Args[1]
		if s.eval(x) == 0 {
			x, y = y, x
		}
		v := s.eval(x)
		if v == 0 {
			continue
		}
		want := v
		if !a.Pos {
			want = -v
		}
		switch s.eval(y) {
		case 0:
			if !s.Assume(y, want == 1) {
				return false
			}
		case -want:
			return false
		}
	}
	return true
}

// AddEvent records an event as happened on all paths into the state
func (s *State) AddEvent(name string, args ...*Term) {
	k := "e" + name
	for _, a := range args {
		k += fmt.Sprintf(",%d", a.ID)
	}
	s.facts[k] = &Atom{Key: k, Ev: name, Args: args}
}

// Events with the name
func (s *State) Events(name string) []*Atom {
	var r []*Atom
	for _, a := range s.facts {
		if a.Ev == name {
			r = append(r, a)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Key < r[j].Key })
	return r
}

func (s *State) DelEvents(name string) {
	for k, a := range s.facts {
		if a.Ev == name {
			delete(s.facts, k)
		}
	}
}

func (s *State) DelEvent(e *Atom) { delete(s.facts, e.Key) }

func (s *State) HasEvent(name string) bool {
	for _, a := range s.facts {
		if a.Ev == name {
			return true
		}
	}
	return false
}

func (s *State) AddPend(name, at string, args ...*Term) {
	k := name
	for _, a := range args {
		k += fmt.Sprintf(",%d", a.ID)
	}
	s.pend[k] = &Pend{Key: k, Name: name, Args: args, At: at}
}

func (s *State) Conds() []*Atom {
	var r []*Atom
	for _, a := range s.facts {
		if a.Ev == "" {
			r = append(r, a)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Key < r[j].Key })
	return r
}

// EntailsLE: facts imply lin <= 0
func (s *State) EntailsLE(l *Lin) bool {
	return s.entailsLE(l, 3)
}

func (s *State) lowerBound(t *Term) (int64, bool) { // t >= b by type or construction
	if t.Op == "len" || t.Op == "cap" {
		return 0, true
	}
	switch t.CallName() {
	case "(*bytes.Reader).Len", "(*bytes.Buffer).Len":
		return 0, true
	}
	if t.T != nil && isInt(t.T) {
		if lo, hi, ok := intRange(t.T); ok {
			if t.Op == "conv" && s.f.bounding < 2 {
				// a conversion which keeps the value keeps its bounds
				s.f.bounding++
				l, ok1 := s.lowerBound(t.Args[0])
				h, ok2 := s.upperBound(t.Args[0])
				s.f.bounding--
				if ok1 && ok2 && l >= lo && h <= hi {
					return l, true
				}
			}
			return lo, true
		}
		switch basicKind(t.T) {
		case types.Uint, types.Uint64, types.Uintptr:
			return 0, true
		}
	}
	if t.Op == "phi" && s.f.nonNegPhi(t) {
		return 0, true
	}
	if t.Op == "rkey" && isWideT(t.T) {
		return 0, true
	}
	if t.Op == "bin" && len(t.Args) == 2 {
		// non-negative operands
		if t.Name == "&" {
			for _, a := range t.Args {
				if c, ok := a.Int(); ok && c >= 0 {
					return 0, true
				}
			}
		}
		switch t.Name {
		case "/", "%", "&", ">>":
			a, ok := s.lowerBound(t.Args[0])
			if ok && a >= 0 {
				return 0, true
			}
			if t.Args[0].Lin != nil && s.f.bounding < 2 {
				s.f.bounding++
				ok = s.entailsLE(linScale(s.f.toLin(t.Args[0]), -1), 1)
				s.f.bounding--
				if ok {
					return 0, true
				}
			}
		}
	}
	return 0, false
}

func isWideT(T types.Type) bool { return T != nil && isInt(T) }

func (s *State) upperBound(t *Term) (int64, bool) {
	if t.Op == "bin" && len(t.Args) == 2 {
		if c, ok := t.Args[1].Int(); ok {
			switch t.Name {
			case "%":
				if c > 0 {
					return c - 1, true
				}
			case "&":
				if c >= 0 {
					return c, true
				}
			case "/":
				if b, ok := s.upperBound(t.Args[0]); ok && c > 0 && b >= 0 {
					return b / c, true
				}
			case ">>":
				if b, ok := s.upperBound(t.Args[0]); ok && c >= 0 && c < 32 && b >= 0 {
					return b >> uint(c), true
				}
			}
		}
		if c, ok := t.Args[0].Int(); ok && t.Name == "&" && c >= 0 {
			return c, true
		}
	}
	if t.T != nil && isInt(t.T) {
		if lo, hi, ok := intRange(t.T); ok {
			if t.Op == "conv" && s.f.bounding < 2 {
				s.f.bounding++
				l, ok1 := s.lowerBound(t.Args[0])
				h, ok2 := s.upperBound(t.Args[0])
				s.f.bounding--
				if ok1 && ok2 && l >= lo && h <= hi {
					return h, true
				}
			}
			return hi, true
		}
	}
	return 0, false
}

func (s *State) entailsLE(l *Lin, depth int) bool {
	if len(l.M) == 0 {
		return l.C <= 0
	}
	// bounds of the atoms by their types
	sum := l.C
	all := true
	for _, m := range l.M {
		if m.K < 0 {
			if b, ok := s.lowerBound(m.T); ok {
				sum += m.K * b
				continue
			}
		} else if b, ok := s.upperBound(m.T); ok {
			sum += m.K * b
			continue
		}
		all = false
	}
	if all && sum <= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	vs := map[*Term]bool{}
	for _, m := range l.M {
		vs[m.T] = true
	}
	for _, a := range s.facts {
		if a.Cond == nil {
			continue
		}
		var ls []*Lin
		switch {
		case a.Cond.Op == "le0" && a.Pos:
			ls = append(ls, a.Cond.Args[0].Lin)
		case a.Cond.Op == "le0": // l > 0: -l+1 <= 0
			ls = append(ls, linAdd(&Lin{C: 1}, a.Cond.Args[0].Lin, -1))
		case a.Cond.Op == "eq0" && a.Pos:
			ls = append(ls, a.Cond.Args[0].Lin, linScale(a.Cond.Args[0].Lin, -1))
		case a.Cond.Op == "eq0": // l != 0: with a non-negative l, l >= 1
			x := a.Cond.Args[0].Lin
			if len(x.M) > 0 {
				if s.nonNegLin(x) {
					ls = append(ls, linAdd(&Lin{C: 1}, x, -1))
				} else if s.nonNegLin(linScale(x, -1)) {
					ls = append(ls, linAdd(&Lin{C: 1}, x, 1))
				}
			}
		default:
			continue
		}
		for _, x := range ls {
			rel := false
			for _, m := range x.M {
				if vs[m.T] {
					rel = true
				}
			}
			if !rel {
				continue
			}
			// l <= 0 follows from x <= 0 and l - x <= 0
			d := linAdd(l, x, -1)
			if len(d.M) < len(l.M) || len(d.M) == len(l.M) && depth > 1 {
				if s.entailsLE(d, depth-1) {
					return true
				}
			}
		}
	}
	return false
}

func (s *State) nonNegLin(l *Lin) bool {
	sum := l.C
	for _, m := range l.M {
		if m.K > 0 {
			b, ok := s.lowerBound(m.T)
			if !ok {
				return false
			}
			sum += m.K * b
		} else {
			b, ok := s.upperBound(m.T)
			if !ok {
				return false
			}
			sum += m.K * b
		}
	}
	return sum >= 0
}

// nonNegPhi: loop counter which starts from a non-negative value and only grows
func (f *Flow) nonNegPhi(t *Term) bool {
	ph, ok := t.V.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range ph.Edges {
		et := f.term(t.Ctx, e)
		if et == t {
			continue
		}
		if i, ok := et.Int(); ok {
			if i >= 0 {
				continue
			}
			// range loops over slices start from -1 and increment before use
			return false
		}
		if et.Op == "lin" {
			g := true
			base := false
			if et.Lin.C < 0 {
				g = false
			}
			for _, m := range et.Lin.M {
				if m.T == t && m.K == 1 {
					base = true
				} else if m.K < 0 || m.T.Op != "len" && !isUnsigned(m.T) {
					g = false
				}
			}
			if g && base || g {
				continue
			}
		}
		return false
	}
	return true
}

func isUnsigned(t *Term) bool {
	if t.T == nil || !isInt(t.T) {
		return false
	}
	lo, _, ok := intRange(t.T)
	return ok && lo == 0
}

// kill facts and obligations which depend on a redefined value
func (s *State) kill(p *Point, t *Term) {
	for k, a := range s.facts {
		if a.leaves()[t] {
			delete(s.facts, k)
		}
	}
	for k, v := range s.corr {
		if k != t && k.Leaves()[t] || v.Leaves()[t] {
			delete(s.corr, k)
		}
	}
	for k, o := range s.pend {
		if s.f.Opt.PhiEdge != nil && len(o.Args) > 1 {
			// the arguments are aliases
			var left []*Term
			for _, a := range o.Args {
				if !a.Leaves()[t] {
					left = append(left, a)
				}
			}
			if len(left) > 0 {
				if len(left) < len(o.Args) {
					delete(s.pend, k)
					s.AddPend(o.Name, o.At, left...)
				}
				continue
			}
		}
		for _, a := range o.Args {
			if a.Leaves()[t] {
				if s.f.Opt.AtLost != nil {
					s.f.Opt.AtLost(p, o)
				}
				delete(s.pend, k)
				break
			}
		}
	}
}

// killIf removes facts which contain a matching subterm
func (s *State) killIf(pred func(*Term) bool) {
	for k, a := range s.facts {
		if a.Ev != "" {
			continue
		}
		if a.Cond.Any(pred) {
			delete(s.facts, k)
		}
	}
	for k, v := range s.corr {
		if k.Any(pred) || v.Any(pred) {
			delete(s.corr, k)
		}
	}
}
