package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C08"] = checkDef{run: runC08,
		explanation: "Data-flow analysis of the decoders and verifiers: at each instruction of the functions reachable from them which can panic (index, slice, division, shift, allocation, write to a map, type assertion, explicit panic, assertion, fixed-width number read from a slice), the conditions known on each path, as linear inequalities over the values of the program, imply that it does not. Verifiers are analysed for each arity and hash size a decoder accepts; that decoders accept no other, and make only children in the range of the arity, is checked on their successful paths. What a recursive function needs of its parameters is an obligation at each of its calls.",
		assumptions: []string{
			"writing to a hash or to a buffer in memory, and marshalling a group element which was unmarshalled, do not fail",
			"functions of the standard library and of kyber do not panic except for numbers read from too short slices",
			"proofs given to verifiers come from a decoder: their elements are not nil; running out of memory is not considered",
		}}
}

// goal is something which must hold for an instruction not to panic: a linear form is not positive, or a condition is true
type goal struct {
	le   *Lin
	cond *Term
	what string
}

func (g goal) term(f *Flow) *Term {
	if g.cond != nil {
		return g.cond
	}
	return f.le0(g.le)
}

func (g goal) String() string {
	if g.cond != nil {
		return g.what + ": " + g.cond.pretty()
	}
	return g.what
}

func arrayLen(T types.Type) (int64, bool) {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	if a, ok := T.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

func (f *Flow) lenOf(x *Term, T types.Type) *Term {
	if n, ok := arrayLen(T); ok {
		return f.constInt(n, nil)
	}
	return f.mkLen(x)
}

// goals of the instruction
func (f *Flow) goals(p *Point) []goal {
	lin := func(t *Term) *Lin { return f.toLin(t) }
	nonNeg := func(t *Term, what string) goal {
		return goal{le: linScale(lin(t), -1), what: what + " is not negative: " + t.String()}
	}
	less := func(a, b *Term, k int64, what string) goal {
		l := linAdd(lin(a), lin(b), -1)
		return goal{le: linAdd(l, &Lin{C: k}, 1), what: what + fmt.Sprintf(": %s and %s", a, b)}
	}
	index := func(i *Term, l *Term) []goal {
		return []goal{nonNeg(i, "index"), less(i, l, 1, "index is less than the length")}
	}
	switch in := p.Instr.(type) {
	case *ssa.IndexAddr:
		return index(p.T(in.Index), f.lenOf(p.T(in.X), in.X.Type()))
	case *ssa.Index:
		return index(p.T(in.Index), f.lenOf(p.T(in.X), in.X.Type()))
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			return index(p.T(in.Index), f.mkLen(p.T(in.X)))
		}
	case *ssa.Slice:
		l := f.lenOf(p.T(in.X), in.X.Type())
		lo, hi := f.constInt(0, nil), l
		var gs []goal
		if in.Low != nil {
			lo = p.T(in.Low)
			gs = append(gs, nonNeg(lo, "lower bound of the slice"))
		}
		if in.High != nil {
			hi = p.T(in.High)
			gs = append(gs, less(hi, l, 0, "upper bound of the slice is not more than the length"))
		}
		if in.Low != nil || in.High != nil {
			gs = append(gs, less(lo, hi, 0, "bounds of the slice are in order"))
		}
		return gs
	case *ssa.TypeAssert:
		if !in.CommaOk {
			return []goal{{cond: f.intern("asserted", in.AssertedType.String(), nil, p.T(in.X)), what: "type assertion"}}
		}
	case *ssa.MakeSlice:
		return []goal{nonNeg(p.T(in.Len), "length of the slice made")}
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM:
			if isInt(in.Y.Type()) {
				return []goal{{cond: f.mkNot(f.eq0(lin(p.T(in.Y)))), what: "divisor is not zero"}}
			}
		case token.SHL, token.SHR:
			if !isUnsigned(p.T(in.Y)) {
				return []goal{nonNeg(p.T(in.Y), "shift count")}
			}
		}
	case *ssa.MapUpdate:
		return []goal{{cond: f.intern("nonnil", "", nil, p.T(in.Map)), what: "map is not nil"}}
	case ssa.CallInstruction:
		c := in.Common()
		if fn := c.StaticCallee(); fn != nil {
			switch fname(fn) {
			case "trie.Assert":
				return []goal{{cond: p.T(c.Args[0]), what: "assertion"}}
			}
			n, ok := map[string]int64{"(encoding/binary.littleEndian).Uint16": 2, "(encoding/binary.littleEndian).PutUint16": 2,
				"(encoding/binary.littleEndian).Uint32": 4, "(encoding/binary.littleEndian).PutUint32": 4}[fn.String()]
			if ok {
				return []goal{less(f.constInt(n, nil), f.mkLen(p.T(c.Args[1])), 0, "enough bytes for the number")}
			}
		}
	case *ssa.Panic:
		if fname(p.Ctx.Fn) != "trie.Assert" {
			return []goal{{cond: f.constBool(false), what: "panic is not reached"}}
		}
	}
	return nil
}

// crashes analyses the functions reachable from an entry
type crashes struct {
	r      *Report
	what   string
	init   func(st *State)
	skip   func(p *Point, g goal) bool
	needs  map[*ssa.Function][]goal // of the parameters of functions which are not inlined
	needsF map[*ssa.Function]*Flow
	opaque func(fn *ssa.Function) bool // analysed on their own
	child  func(p *Point)
	busy   map[*ssa.Function]bool
	failed map[string]bool
}

func (c *crashes) holds(p *Point, g goal) bool {
	st := p.St
	f := st.f
	if g.cond == nil {
		return st.proves(g.le, 1) || st.contradictory()
	}
	switch t := st.Resolve(g.cond); {
	case st.True(t):
		return true
	case t.Op == "le0":
		if st.proves(t.Args[0].Lin, 1) {
			return true
		}
	case t.Op == "not" && t.Args[0].Op == "le0":
		if st.proves(linAdd(&Lin{C: 1}, t.Args[0].Args[0].Lin, -1), 1) {
			return true
		}
	case t.Op == "not" && t.Args[0].Op == "eq0":
		l := t.Args[0].Args[0].Lin
		if st.proves(linAdd(&Lin{C: 1}, l, -1), 1) || st.proves(linAdd(l, &Lin{C: 1}, 1), 1) {
			return true
		}
	case t.Op == "nonnil":
		m := t.Args[0]
		if m.Op == "makemap" || st.nonNilIn(m) || st.True(f.mkNot(f.mkEq(m, f.constNil()))) {
			return true
		}
		if m.Op == "sel" || m.Op == "ld" {
			// assigned on this path
			set, nilSet := false, false
			for _, e := range st.Events("store") {
				if a := e.Args[0]; a.Op == "fa" && a.Name == m.Name && m.Op == "sel" || m.Op == "ld" && a == m.Args[0] {
					v := st.Resolve(e.Args[1])
					set = set || v.Op == "makemap" || st.nonNilIn(v)
					nilSet = nilSet || !(v.Op == "makemap" || st.nonNilIn(v))
				}
			}
			if set && !nilSet {
				return true
			}
		}
	case t.Op == "isarity":
		for _, v := range []int64{255, 15, 1} {
			if st.EQ(t.Args[0], f.constInt(v, nil)) {
				return true
			}
		}
	case t.Op == "asserted":
		x := unIface(st, t.Args[0])
		if x.T != nil && x.T.String() == t.Name {
			return true
		}
	}
	return st.contradictory()
}

// infallible: the panic is reached only if an operation which does not fail has failed
func infallible(p *Point) bool {
	for _, a := range p.St.Conds() {
		if a.Pos || a.Cond.Op != "eq" || !a.Cond.Args[0].IsNil() && !a.Cond.Args[1].IsNil() {
			continue
		}
		x := a.Cond.Args[0]
		if x.IsNil() {
			x = a.Cond.Args[1]
		}
		x = p.St.Resolve(x)
		if x.Op == "res" {
			x = x.Args[0]
		}
		n := x.CallName()
		if n == "" || !isErrOf(a.Cond) {
			continue
		}
		if strings.HasPrefix(n, "golang.org/x/crypto/blake2b.New") && x.Args[len(x.Args)-1].IsNil() {
			// fails for a wrong size or a too long key
			sz, ok := x.Args[0].Int()
			if !strings.HasSuffix(n, ".New") || ok && sz >= 1 && sz <= 64 {
				return true
			}
		}
		n = n[strings.LastIndex(n, ".")+1:]
		switch n {
		case "Write", "MarshalTo", "MarshalBinary", "WriteByte":
			return true
		}
	}
	return false
}

func isErrOf(c *Term) bool {
	return isErrT(c.Args[0].T) || isErrT(c.Args[1].T)
}

// run analyses a function; goals which only concern its parameters become its needs if it is called by others
func (c *crashes) run(fn *ssa.Function, lift bool) {
	if c.busy[fn] {
		return
	}
	c.busy[fn] = true
	for round := 0; ; round++ {
		all := map[string]*crashGoal{}
		var order []string
		var remaining map[string]bool // nil: all
		var f *Flow
		// conditions tell disjuncts apart only as far as it is needed: first none, then those about the values of the goals
		// left, then those about the values these are compared with, at last all
		for pass := 0; pass < 4 && (remaining == nil || len(remaining) > 0); pass++ {
			atoms := map[string]bool{}
			for k := range remaining {
				for a := range all[k].atoms {
					atoms[a] = true
				}
			}
			if pass == 2 {
				for _, a := range f.atomsOfConds(atoms) {
					atoms[a] = true
				}
			}
			pass := pass
			f = c.r.Flow(fn, FlowOpt{NoInline: func(g *ssa.Function) bool { return c.opaque != nil && g != fn && c.opaque(g) }, Split: func(t *Term) bool {
				switch pass {
				case 0:
					return false
				case 3:
					return true
				}
				return sharesAtom(t, atoms) || pass == 2 && t.Op == "eq" && isErrOf(t)
			}, Init: func(st *State) {
				if c.init != nil {
					c.init(st)
				}
				for _, g := range c.needs[fn] {
					st.Assume(carry(st.f, g.term(c.needsF[fn]), nil), true)
				}
			}, Transfer: func(p *Point) {
				trace(p)
				if c.child != nil {
					c.child(p)
				}
			}})
			fails := map[string]bool{}
			f.Visit(func(p *Point) {
				for i, g := range c.goalsAt(p) {
					if c.skip != nil && c.skip(p, g) {
						continue
					}
					k := fmt.Sprintf("%s#%d#%d", p.Where(), i, p.Instr.Pos())
					for x := p.Ctx; x != nil; x = x.Parent {
						k += fmt.Sprintf("<%p", x.Call)
					}
					k += fmt.Sprintf("@%p", p.Instr)
					if all[k] == nil {
						all[k] = &crashGoal{construct: fmt.Sprintf("%s: %s in %s", c.what, kindOf(p.Instr), fname(p.Ctx.Fn)), at: p.Where(), atoms: map[string]bool{}}
						order = append(order, k)
						if remaining != nil {
							remaining[k] = true
						}
					}
					if fails[k] || remaining != nil && !remaining[k] || c.holds(p, g) || g.cond != nil && g.cond.IsConst("false") && infallible(p) {
						continue
					}
					fails[k] = true
					x := all[k]
					x.text, x.lift = g.String(), nil
					t := p.St.Resolve(g.term(f))
					if ofParams(t) {
						x.lift = &goal{cond: t, what: g.what}
					}
					for a := range atomsOf(t) {
						x.atoms[a] = true
					}
					if t.Op == "const" {
						// why it is reached
						for _, a := range p.St.Conds() {
							for y := range atomsOf(a.Cond) {
								x.atoms[y] = true
							}
						}
					}
				}
			}, nil)
			for k := range remaining {
				if !fails[k] {
					delete(remaining, k)
				}
			}
			if remaining == nil {
				remaining = fails
			}
		}
		var lifted []goal
		seen := map[string]bool{}
		for _, k := range order {
			if x := all[k]; remaining[k] && lift && x.lift != nil {
				x.lifted = true
				if !seen[x.lift.cond.String()] {
					seen[x.lift.cond.String()] = true
					lifted = append(lifted, *x.lift)
				}
			}
		}
		if len(lifted) > 0 && round < 3 {
			if c.needsF[fn] == nil {
				c.needsF[fn] = f
			}
			for _, g := range lifted {
				g.cond = carry(c.needsF[fn], g.cond, nil)
				c.needs[fn] = append(c.needs[fn], g)
			}
			continue
		}
		for _, g := range lifted {
			c.r.Bad("no-panic", fmt.Sprintf("%s: parameters of %s", c.what, fname(fn)), c.r.W.FuncPos(fn), "%s", g.String())
		}
		for _, k := range order {
			if x := all[k]; !x.lifted {
				c.r.Check(!remaining[k], "no-panic", x.construct, x.at, "%s", x.text)
			}
		}
		return
	}
}

type crashGoal struct {
	construct, at, text string
	atoms               map[string]bool
	lift                *goal
	lifted              bool
}

// goalsAt are the goals of an instruction, with what the functions called need
func (c *crashes) goalsAt(p *Point) []goal {
	f := p.F
	gs := f.goals(p)
	if in, ok := p.Instr.(*ssa.Call); ok {
		if g := in.Common().StaticCallee(); g != nil && aritySummaries[fname(g)] != 0 {
			// analysed by C23: panics for anything but an arity
			if fname(g) == "(trie.PathArity).TerminalCommitmentIndex" || fname(g) == "(trie.PathArity).PathFragmentCommitmentIndex" {
				gs = append(gs, goal{cond: f.intern("isarity", "", nil, p.T(in.Common().Args[0])), what: "the arity is one of the three"})
			}
		} else if g != nil && c.r.W.inMod[g] && f.child(p.Ctx, in, in.Common()) == nil && len(g.Blocks) > 0 {
			if !c.busy[g] {
				c.run(g, true)
			}
			m := map[string]*Term{}
			for i, a := range in.Common().Args {
				m[g.Params[i].Name()] = p.T(a)
			}
			for _, n := range c.needs[g] {
				gs = append(gs, goal{cond: carry(f, n.term(c.needsF[g]), m), what: "needed by " + fname(g)})
			}
		}
	}
	return gs
}

// atomsOf are the values a condition is about
func atomsOf(t *Term) map[string]bool {
	r := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Lin != nil {
			for _, m := range t.Lin.M {
				walk(m.T)
			}
			return
		}
		switch t.Op {
		case "le0", "eq0", "not", "conv", "eq":
			for _, a := range t.Args {
				walk(a)
			}
		case "const", "param", "global":
		default:
			r[t.String()] = true
		}
	}
	walk(t)
	return r
}

func sharesAtom(t *Term, atoms map[string]bool) bool {
	if t.Op == "phi" || t.Op == "ret" {
		return true
	}
	for a := range atomsOf(t) {
		if atoms[a] {
			return true
		}
	}
	// calls and others which are about the values
	if t.CallName() != "" || t.Op == "lookupok" {
		for _, x := range t.Args {
			for a := range atoms {
				if a == x.String() || a == "len("+x.String()+")" {
					return true
				}
			}
		}
	}
	return false
}

// atomsOfConds are the values compared with the given ones
func (f *Flow) atomsOfConds(atoms map[string]bool) (r []string) {
	f.Visit(func(p *Point) {
		if in, ok := p.Instr.(*ssa.If); ok {
			t := p.T(in.Cond)
			if t.Op == "const" || !sharesAtom(t, atoms) {
				return
			}
			for a := range atomsOf(t) {
				r = append(r, a)
			}
		}
	}, nil)
	return r
}

func kindOf(in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
		return "index"
	case *ssa.Slice:
		return "slice"
	case *ssa.TypeAssert:
		return "type assertion"
	case *ssa.MakeSlice:
		return "allocation"
	case *ssa.BinOp:
		return "operator " + in.Op.String()
	case *ssa.MapUpdate:
		return "write to a map"
	case *ssa.Panic:
		return "panic"
	case ssa.CallInstruction:
		return "call of " + calleeName(in.Common())
	}
	return "instruction"
}

// ofParams: the condition only concerns the parameters
func ofParams(t *Term) bool {
	if t.Op == "const" && t.Lin == nil {
		return false
	}
	ok := true
	n := 0
	t.Any(func(x *Term) bool {
		switch x.Op {
		case "param":
			n++
		case "lin", "le0", "eq0", "not", "sel", "len", "const":
		default:
			ok = false
		}
		return false
	})
	return ok && n > 0
}

// translate makes the same term in the flow, with the parameters substituted
func carry(f *Flow, t *Term, m map[string]*Term) *Term {
	switch t.Op {
	case "param":
		if x, ok := m[t.Name]; ok {
			return x
		}
		return f.intern("param", t.Name, t.T)
	case "const", "lin":
		if t.Lin != nil {
			l := &Lin{C: t.Lin.C}
			for _, x := range t.Lin.M {
				l = linAdd(l, f.toLin(carry(f, x.T, m)), x.K)
			}
			return f.fromLin(l, t.T)
		}
		if t.IsNil() {
			return f.constNil()
		}
		return f.intern("const", t.Name, t.T)
	}
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		as[i] = carry(f, a, m)
	}
	return f.rebuild(t, as)
}

func runC08(r *Report) {
	w := r.W
	// decoders
	for _, e := range [][2]string{{"trie", "DecodeToUnpackedBytes"}, {"b2", "ProofFromBytes"}, {"b2", "Proof.Read"}, {"kzg", "ProofOfInclusionFromBytes"}, {"kzg", "ProofOfInclusion.Read"},
		{"kzg", "TrustedSetupFromBytes"}} {
		fn := w.Must(e[0], e[1])
		c := &crashes{r: r, what: fname(fn), needs: map[*ssa.Function][]goal{}, needsF: map[*ssa.Function]*Flow{}, busy: map[*ssa.Function]bool{}}
		c.run(fn, false)
	}
	r.verifiersDoNotCrash()
	r.decodedProofs()
	r.kzgDoesNotCrash()

}

func (r *Report) verifiersDoNotCrash() {
	w := r.W
	ar := map[int64]string{}
	for _, n := range []string{"PathArity256", "PathArity16", "PathArity2"} {
		if v, ok := w.constOf("trie", n); ok {
			ar[v] = n
		}
	}
	hs := map[int64]string{}
	for _, n := range []string{"HashSize160", "HashSize256"} {
		if v, ok := w.constOf("b2", n); ok {
			hs[v] = n
		}
	}
	if !r.Check(len(ar) == 3 && len(hs) == 2, "configurations", "constants of the arities and hash sizes", "-", "three arities and two hash sizes expected") {
		return
	}
	for _, a := range []int64{255, 15, 1} {
		for _, h := range []int64{20, 32} {
			if ar[a] == "" || hs[h] == "" {
				r.Bad("configurations", fmt.Sprintf("arity %d and hash size %d", a, h), "-", "not among the constants")
				continue
			}
			validate, withValue, must := w.Must("verify", "Validate"), w.Must("verify", "ValidateWithValue"), w.Must("verify", "MustKeyWithTerminal")
			for _, fn := range []*ssa.Function{validate, withValue, w.Must("verify", "CommitmentToTheTerminalNode")} {
				c := &crashes{r: r, what: fmt.Sprintf("%s(%s, %s)", fname(fn), ar[a], hs[h]), needs: map[*ssa.Function][]goal{}, needsF: map[*ssa.Function]*Flow{}, busy: map[*ssa.Function]bool{}}
				c.init = func(st *State) {
					f := st.f
					for _, p := range f.Root.Params {
						if p.T != nil && isPtrTo(p.T, "b2", "Proof") {
							for n, v := range map[string]int64{"PathArity": a, "HashSize": h} {
								t := f.field(p, n)
								st.corr[t] = f.constInt(v, t.T)
							}
						}
					}
				}
				c.child = func(p *Point) {
					// the keys of the children of a decoded element are in the range of the arity
					x, ok := p.Instr.(*ssa.Extract)
					if !ok || x.Index != 1 {
						return
					}
					nx, ok := x.Tuple.(*ssa.Next)
					if !ok || nx.IsString {
						return
					}
					f := p.F
					if m := p.T(nx.Iter.(*ssa.Range).X); m.Op == "sel" && m.Name == "Children" && m.Args[0].T != nil && isPtrTo(m.Args[0].T, "b2", "ProofElement") {
						p.St.Assume(f.le0(linAdd(f.toLin(f.term(p.Ctx, x)), &Lin{C: a}, -1)), true)
					}
				}
				c.skip = func(p *Point, g goal) bool {
					// panics for what cannot be the last element of a valid proof: see classified
					for x := p.Ctx; x != nil; x = x.Parent {
						if _, ok := p.Instr.(*ssa.Panic); ok && x.Fn == must && fn == withValue {
							return verified(p.St, validate)
						}
					}
					return false
				}
				if fn == withValue {
					rec := map[*ssa.Function]bool{}
					for _, g := range w.recursive(validate) {
						rec[g] = errIndex(g.Signature) >= 0
					}
					c.opaque = func(g *ssa.Function) bool { return g == validate || rec[g] }
				}
				c.run(fn, false)
				if fn == withValue {
					r.classified(c, validate, must)
				}
			}
		}
	}
	r.Min("classified", 6)
}

// verified: the proof has been accepted
func verified(st *State, validate *ssa.Function) bool {
	for _, a := range st.Conds() {
		if !a.Pos || a.Cond.Op != "eq" {
			continue
		}
		for i, x := range a.Cond.Args {
			if !a.Cond.Args[1-i].IsNil() {
				continue
			}
			if x = st.Resolve(x); x.Op == "res" {
				x = x.Args[0]
			}
			if x.CallName() == fname(validate) {
				return true
			}
			for _, fn := range st.f.W.recursive(validate) {
				if x.CallName() == fname(fn) {
					return true
				}
			}
		}
	}
	return false
}

// classified: what is known about the last element of a valid proof excludes each panic of MustKeyWithTerminal
func (r *Report) classified(c *crashes, validate, must *ssa.Function) {
	w := r.W
	opt := FlowOpt{Split: splitAll, Transfer: func(p *Point) { trace(p); c.child(p) }, Init: c.init}
	fm := r.Flow(must, opt)
	type pan struct {
		conds []*Atom
		at    string
	}
	var panics []pan
	fm.Visit(nil, func(e *Exit) {
		if e.Kind == "panic" {
			if aritySummaries[fname(e.P.Ctx.Fn)] == 0 {
				panics = append(panics, pan{e.P.St.Conds(), e.P.Where()})
			}
		}
	})
	for _, fn := range w.recursive(validate) {
		if fn.Pkg != validate.Pkg || errIndex(fn.Signature) < 0 {
			continue
		}
		f := r.Flow(fn, opt)
		var pp *Term
		for _, x := range f.Root.Params {
			if isPtrTo(x.T, "b2", "Proof") {
				pp = x
			}
		}
		if pp == nil {
			continue
		}
		path := f.field(pp, "Path")
		last := f.plus(f.mkLen(path), -1)
		f.Visit(nil, func(e *Exit) {
			if !succeeded(e) {
				return
			}
			st := e.P.St
			for _, x := range st.Events("call") {
				if x.Args[0].CallName() == fname(fn) {
					return // the last element is an element of the rest of the path
				}
			}
			// the elements it speaks about
			var elems []*Term
			for _, a := range st.Conds() {
				a.Cond.Any(func(t *Term) bool {
					if t.Op == "idx" && t.Args[0] == path {
						elems = append(elems, t)
					}
					return false
				})
			}
			m := map[*Term]*Term{}
			for _, x := range elems {
				d := linAdd(f.toLin(x.Args[1]), f.toLin(last), -1)
				if st.proves(d, 1) && st.proves(linScale(d, -1), 1) {
					m[f.mkIdx(path, last, x.T)] = x
				}
			}
			for i, pn := range panics {
				s2 := st.clone()
				excluded := false
				for _, a := range pn.conds {
					t := f.Subst(carry(f, a.Cond, map[string]*Term{must.Params[0].Name(): pp}), m)
					if !s2.Assume(t, a.Pos) {
						excluded = true
						break
					}
					// a child of a decoded element is not nil
					if t.Op == "lookupok" && a.Pos {
						for _, b := range s2.Conds() {
							if b.Pos && b.Cond.Op == "eq" {
								x, y := b.Cond.Args[0], b.Cond.Args[1]
								if x.IsNil() {
									x, y = y, x
								}
								if y.IsNil() && x.Op == "lookup" && x.Args[0] == t.Args[0] && stripConv(x.Args[1]) == stripConv(t.Args[1]) {
									excluded = true
								}
							}
						}
					}
				}
				excluded = excluded || s2.contradictory()
				r.Check(excluded, "classified", fmt.Sprintf("%s: panic %d of %s", c.what, i, fname(must)), e.P.Where(), "the proof is accepted although %s panics at %s", fname(must), pn.at)
			}
		})
	}
}

// decodedProofs: what the verifiers rely on is made by the decoder
func (r *Report) decodedProofs() {
	w := r.W
	fn := w.Must("b2", "ProofFromBytes")
	consts := func(pkg string, names ...string) (vs []int64) {
		for _, n := range names {
			if v, ok := w.constOf(pkg, n); ok {
				vs = append(vs, v)
			}
		}
		return
	}
	arities, sizes := consts("trie", "PathArity256", "PathArity16", "PathArity2"), consts("b2", "HashSize160", "HashSize256")
	f := r.Flow(fn, FlowOpt{Transfer: trace, NoInline: func(g *ssa.Function) bool {
		// what reads and decodes the parts
		return g.Pkg != fn.Pkg && errIndex(g.Signature) >= 0
	}, Split: func(c *Term) bool {
		// the comparisons with the constants
		if c.Op == "eq0" && len(c.Args[0].Lin.M) == 1 {
			for _, v := range append(append([]int64{}, arities...), sizes...) {
				if c.Args[0].Lin.C == -v || c.Args[0].Lin.C == v {
					return true
				}
			}
		}
		return false
	}})
	oneOf := func(st *State, t *Term, vs []int64) (int64, bool) {
		for _, v := range vs {
			if st.EQ(t, f.constInt(v, nil)) {
				return v, true
			}
		}
		return 0, false
	}
	stored := func(st *State, field string, vs []int64) (int64, bool) {
		last, ok := int64(0), false
		for _, e := range st.Events("store") {
			if a := e.Args[0]; a.Op == "fa" && a.Name == field && a.Args[0].T != nil && isPtrTo(a.Args[0].T, "b2", "Proof") {
				v, in := oneOf(st, st.Resolve(e.Args[1]), vs)
				if !in || ok && v != last {
					return 0, false
				}
				last, ok = v, true
			}
		}
		return last, ok
	}
	isElems := func(T types.Type) bool {
		x, ok := T.Underlying().(*types.Slice)
		return ok && isPtrTo(x.Elem(), "b2", "ProofElement")
	}
	accepted := map[int64]bool{}
	// a list which is made empty and grows element by element
	grows, others := false, false
	f.Visit(func(p *Point) {
		switch in := p.Instr.(type) {
		case *ssa.MakeSlice:
			if isElems(in.Type()) {
				n, ok := p.St.Resolve(p.T(in.Len)).Int()
				others = others || !ok || n != 0
			}
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && isElems(in.Type()) {
				_, es := f.appended(p.St, p.T(in))
				grows = true
				others = others || len(es) == 0
				for _, e := range es {
					others = others || e.Op != "alloc" && !p.St.nonNilIn(e)
				}
			}
		}
	}, nil)
	f.Visit(func(p *Point) {
		mu, ok := p.Instr.(*ssa.MapUpdate)
		if !ok {
			return
		}
		m := p.T(mu.Map)
		T, ok := mu.Map.Type().Underlying().(*types.Map)
		if !ok || !isByteSlice(T.Elem()) || !isByteT(T.Key()) || !(m.Op == "sel" && m.Name == "Children" || m.Op == "makemap") {
			return
		}
		a, in := stored(p.St, "PathArity", arities)
		k := p.T(mu.Key)
		r.Check(in && p.St.proves(linAdd(f.toLin(k), &Lin{C: a}, -1), 1), "decoded", "children are in the range of the arity", p.Where(), "a child %s is decoded for arity %d", k, a)
		v := p.T(mu.Value)
		r.Check(v.Op == "makeslice" || p.St.nonNilIn(v), "decoded", "children are not nil", p.Where(), "a child is decoded as %s", v)
	}, func(e *Exit) {
		if !succeeded(e) {
			return
		}
		st := e.P.St
		v, ok := stored(st, "PathArity", arities)
		accepted[v] = accepted[v] || ok
		r.Check(ok, "decoded", "arity of a decoded proof", e.P.Where(), "the arity of a decoded proof may be none of the three")
		v, ok = stored(st, "HashSize", sizes)
		accepted[v] = accepted[v] || ok
		r.Check(ok, "decoded", "hash size of a decoded proof", e.P.Where(), "the hash size of a decoded proof may be none of the two")
		// every element is assigned
		path := f.field(st.Resolve(e.Results[0]), "Path")
		path = st.Resolve(path)
		done := grows && !others
		for _, l := range f.Loops() {
			if !f.loopEnded(st, l) || l.Kind != "index" {
				continue
			}
			n := st.Resolve(f.mkLen(path))
			covers, entered := true, false
			f.AtEntry(l, func(q *Point) {
				entered = true
				x := *l
				x.Start, x.Bound = q.St.Resolve(l.Start), q.St.Resolve(l.Bound)
				covers = covers && x.Covers(f, n)
			})
			if !entered || !covers {
				continue
			}
			all, some := true, false
			f.AtBackEdges(l, func(q *Point) {
				some = true
				set := false
				for _, x := range q.St.Events("slot") {
					v := q.St.Resolve(x.Args[2])
					set = set || x.Args[1] == l.Idx && isPtrTo(v.T, "b2", "ProofElement") && (v.Op == "alloc" || q.St.nonNilIn(v))
				}
				all = all && set
			})
			done = done || all && some
		}
		r.Check(done, "decoded", "elements of a decoded proof are not nil", e.P.Where(), "not every element of %s is assigned", path)
	})
	for _, v := range append(append([]int64{}, arities...), sizes...) {
		r.Check(accepted[v], "decoded", fmt.Sprintf("proofs for %d are decoded", v), w.FuncPos(fn), "no proof with this arity or hash size is decoded")
	}
	r.Min("decoded", 10)
}

func (r *Report) kzgDoesNotCrash() {
	w := r.W
	// the domain of the trusted setup of the package
	bin := w.Must("kzg", "GetTrustedSetupBin")
	d := int64(-1)
	data := func(v ssa.Value) {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			if x := constant.StringVal(k.Value); len(x) > 1000 {
				if v, err := strconv.ParseUint(x[2:4]+x[0:2], 16, 16); err == nil {
					d = int64(v)
				}
			}
		}
	}
	for _, g := range []*ssa.Function{bin, w.Pkgs["kzg"].Func("init")} {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					data(*o)
				}
			}
		}
	}
	if !r.Check(d >= 0, "domain", "size of the domain of the trusted setup", w.FuncPos(bin), "the data of the trusted setup was not found") {
		return
	}
	fn := w.Must("kzg", "ProofOfInclusion.Validate")
	c := &crashes{r: r, what: fname(fn), needs: map[*ssa.Function][]goal{}, needsF: map[*ssa.Function]*Flow{}, busy: map[*ssa.Function]bool{}}
	c.child = func(p *Point) {
		x, ok := p.Instr.(*ssa.IndexAddr)
		if !ok {
			return
		}
		t := p.T(x.X)
		if t.Op == "sel" && (t.Name == "Diff2" || t.Name == "Domain" || t.Name == "LagrangeBasis") && t.Any(func(y *Term) bool { return y.Op == "global" }) {
			p.St.Assume(p.F.eq0(linAdd(p.F.toLin(p.F.mkLen(t)), &Lin{C: d}, -1)), true)
		}
	}
	c.run(fn, false)
	r.OK("domain", fmt.Sprintf("domain of the trusted setup has %d elements", d), w.FuncPos(bin))
}
