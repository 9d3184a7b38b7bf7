package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C20"] = checkDef{run: runC20,
		explanation: "Information flow analysis (interprocedural forward taint analysis over SSA, per function and set of tainted parameters) of the secret and the seed from the parameters of the functions which generate a trusted setup and from the terminal input of the generating program: everything computed from them is tainted, only a multiple of a point of the curve is not; no tainted value may be stored in the setup or a package variable, returned by an exported function, put into an error, printed, logged or written. Typestate analysis of the generating program: on every path, seed, hash and secret are overwritten between the generation and the next call or the end.",
		assumptions: []string{"implicit flows (the outcome of the checks of the secret) are not tracked", "multiples of points of the curve hide the factor"}}
}

type taintKey struct {
	fn   *ssa.Function
	mask uint64
}

type taintSum struct {
	results uint64
	params  uint64 // tainted after the call
}

type taintAn struct {
	r    *Report
	w    *World
	sums map[taintKey]*taintSum
	cur  map[taintKey]bool
	n    int
}

func isSetupPtr(T types.Type) bool {
	return T != nil && namedIs(derefT(T), "kzg", "TrustedSetup")
}

// root of an address or a value inside of an object; setup is set if it is a part of a trusted setup
func taintRoot(v ssa.Value) (root ssa.Value, setup bool) {
	for i := 0; i < 50; i++ {
		if isSetupPtr(v.Type()) {
			setup = true
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Index:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v, setup
			}
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Lookup:
			v = x.X
		default:
			return v, setup
		}
	}
	return v, setup
}

func (t *taintAn) run(fn *ssa.Function, mask uint64) *taintSum {
	k := taintKey{fn, mask}
	if s, ok := t.sums[k]; ok && t.cur[k] {
		return s
	}
	s := t.sums[k]
	if s == nil {
		s = &taintSum{}
		t.sums[k] = s
	}
	if t.cur[k] {
		return s
	}
	t.cur[k] = true
	t.r.Analysed(fn)
	var src []ssa.Value
	for i, p := range fn.Params {
		if mask&(1<<uint(i)) != 0 {
			src = append(src, p)
		}
	}
	for i, v := range fn.FreeVars {
		if mask&(1<<uint(len(fn.Params)+i)) != 0 {
			src = append(src, v)
		}
	}
	tainted := t.flow(fn, src)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				for i, v := range ret.Results {
					if tainted[v] {
						s.results |= 1 << uint(i)
					}
				}
			}
		}
	}
	for i, p := range fn.Params {
		if tainted[p] {
			s.params |= 1 << uint(i)
		}
	}
	for i, v := range fn.FreeVars {
		if tainted[v] {
			s.params |= 1 << uint(len(fn.Params)+i)
		}
	}
	t.report(fn, tainted)
	return s
}

// flow is the set of values of the function computed from src
func (t *taintAn) flow(fn *ssa.Function, src []ssa.Value) map[ssa.Value]bool {
	tainted := map[ssa.Value]bool{}
	for _, v := range src {
		tainted[v] = true
	}
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if v == nil {
				return
			}
			if _, isC := v.(*ssa.Const); isC {
				return
			}
			if !tainted[v] {
				tainted[v] = true
				changed = true
			}
		}
		// what the value refers to becomes tainted
		markRoot := func(v ssa.Value) {
			mark(v)
			root, _ := taintRoot(v)
			mark(root)
			if ph, ok := root.(*ssa.Phi); ok {
				for _, e := range ph.Edges {
					if r, _ := taintRoot(e); r != root {
						mark(r)
					}
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if tainted[x.Val] {
						markRoot(x.Addr)
					}
				case *ssa.MapUpdate:
					if tainted[x.Value] || tainted[x.Key] {
						markRoot(x.Map)
					}
				case *ssa.MakeClosure:
					g := x.Fn.(*ssa.Function)
					mask := uint64(0)
					for i, bd := range x.Bindings {
						if tainted[bd] {
							mask |= 1 << uint(len(g.Params)+i)
						}
					}
					if mask != 0 {
						mark(x)
						s := t.run(g, mask)
						for i, bd := range x.Bindings {
							if s.params&(1<<uint(len(g.Params)+i)) != 0 {
								markRoot(bd)
							}
						}
					}
				case ssa.CallInstruction:
					t.call(x, tainted, mark, markRoot)
				case *ssa.BinOp:
					switch x.Op {
					case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
						continue
					}
					if tainted[x.X] || tainted[x.Y] {
						mark(x)
					}
				case ssa.Value:
					for _, op := range in.Operands(nil) {
						if *op != nil && tainted[*op] {
							mark(x)
						}
					}
				}
			}
		}
	}
	return tainted
}

// quiet calls keep what they are given to themselves and return something computed from it
func quietCall(name string) bool {
	for _, s := range []string{"golang.org/x/crypto/blake2b.", "bytes.", "strings.", "encoding/hex.", "encoding/binary.", "math/big.", "(*math/big.", "(math/big.", "crypto/", "strconv.", "sort.", "unicode"} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	return false
}

func (t *taintAn) call(in ssa.CallInstruction, tainted map[ssa.Value]bool, mark, markRoot func(ssa.Value)) {
	c := in.Common()
	res, _ := in.(ssa.Value)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			if tainted[c.Args[1]] {
				markRoot(c.Args[0])
			}
		case "append":
			for _, a := range c.Args {
				if tainted[a] {
					mark(res)
				}
			}
		}
		return
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	any := false
	for _, a := range args {
		any = any || tainted[a]
	}
	if !any && !tainted[c.Value] {
		return
	}
	if c.IsInvoke() && isKyber(c.Value.Type()) {
		point := strings.HasSuffix(c.Value.Type().String(), "kyber/v3.Point")
		switch c.Method.Name() {
		case "Equal":
			return
		case "Mul":
			if point && !tainted[c.Value] && !(len(c.Args) == 2 && tainted[c.Args[1]]) {
				return // hidden
			}
		}
		argT := false
		for _, a := range c.Args {
			argT = argT || tainted[a]
		}
		if mutatesReceiver[c.Method.Name()] {
			if argT {
				markRoot(c.Value)
			}
			if argT || tainted[c.Value] && c.Method.Name() != "Zero" && c.Method.Name() != "One" {
				mark(res)
			}
			return
		}
		mark(res)
		if argT {
			markRoot(c.Value)
		}
		// what is written to
		if c.Method.Name() == "MarshalTo" && tainted[c.Value] {
			markRoot(c.Args[0])
		}
		return
	}
	if g := c.StaticCallee(); g != nil && len(g.Blocks) > 0 && t.w.inMod[g] {
		mask := uint64(0)
		for i, a := range c.Args {
			if tainted[a] {
				mask |= 1 << uint(i)
			}
		}
		s := t.run(g, mask)
		for i, a := range c.Args {
			if s.params&(1<<uint(i)) != 0 {
				markRoot(a)
			}
		}
		if res == nil {
			return
		}
		if g.Signature.Results().Len() == 1 && s.results&1 != 0 {
			mark(res)
		}
		if res.Referrers() != nil {
			for _, ref := range *res.Referrers() {
				if e, ok := ref.(*ssa.Extract); ok && s.results&(1<<uint(e.Index)) != 0 {
					mark(e)
				}
			}
		}
		return
	}
	mark(res)
	for _, a := range args {
		if !tainted[a] && refType(a.Type()) {
			if _, isC := a.(*ssa.Const); !isC {
				markRoot(a)
			}
		}
	}
}

func (t *taintAn) report(fn *ssa.Function, tainted map[ssa.Value]bool) {
	r, w := t.r, t.w
	cons := "secret in " + fname(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			at := w.InstrPos(in)
			switch x := in.(type) {
			case *ssa.Store:
				if !tainted[x.Val] {
					continue
				}
				root, setup := taintRoot(x.Addr)
				_, isG := root.(*ssa.Global)
				r.Check(!setup, "not-in-setup", cons, at, "a value which reveals the secret is stored in the trusted setup")
				r.Check(!isG, "not-global", cons, at, "a value which reveals the secret is stored in a package variable")
			case *ssa.Panic:
				r.Check(!tainted[x.X], "not-printed", cons, at, "a value which reveals the secret is shown by a panic")
			case *ssa.Send:
				r.Check(!tainted[x.X], "not-printed", cons, at, "a value which reveals the secret is sent")
			case *ssa.Return:
				if fn.Object() == nil || !fn.Object().Exported() {
					continue
				}
				for i, v := range x.Results {
					r.Check(!tainted[v], "not-returned", fmt.Sprintf("result %d of %s", i, fname(fn)), at, "a value which reveals the secret is returned")
				}
			case ssa.CallInstruction:
				c := x.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					for _, a := range c.Args {
						if n := c.Value.Name(); (n == "print" || n == "println") && tainted[a] {
							r.Bad("not-printed", cons, at, "a value which reveals the secret is printed")
						}
					}
					continue
				}
				n := calleeName(c)
				args := c.Args
				if c.IsInvoke() {
					args = append([]ssa.Value{c.Value}, args...)
				}
				for i, a := range args {
					if !tainted[a] {
						continue
					}
					t.n++
					if c.IsInvoke() && isKyber(c.Value.Type()) {
						if i > 0 && mutatesReceiver[c.Method.Name()] && tainted[c.Value] {
							_, setup := taintRoot(c.Value)
							r.Check(!setup, "not-in-setup", cons, at, "an element of the trusted setup is set to a value which reveals the secret")
						}
						r.Check(c.Method.Name() != "MarshalTo", "not-printed", cons, at, "a value which reveals the secret is written")
						continue
					}
					if g := c.StaticCallee(); g != nil && t.w.inMod[g] {
						_, setup := taintRoot(a)
						r.Check(!setup, "not-in-setup", cons, at, "the trusted setup reveals the secret")
						continue
					}
					r.Check(quietCall(n), "not-printed", cons, at, "a value which reveals the secret is given to %s", n)
				}
			}
		}
	}
}

func runC20(r *Report) {
	w := r.W
	t := &taintAn{r: r, w: w, sums: map[taintKey]*taintSum{}, cur: map[taintKey]bool{}}
	n := 0
	for _, fn := range w.Funcs {
		if fn.Object() == nil || !fn.Object().Exported() || fn.Pkg != w.Pkgs["kzg"] || fn.Parent() != nil {
			continue
		}
		ret := false
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			ret = ret || isSetupPtr(fn.Signature.Results().At(i).Type())
		}
		if !ret {
			continue
		}
		mask := uint64(0)
		for i, p := range fn.Params {
			nm := strings.ToLower(p.Name())
			if strings.Contains(nm, "secret") || strings.Contains(nm, "seed") {
				mask |= 1 << uint(i)
			}
		}
		if mask == 0 {
			// the last scalar, if the setup is made from scalars
			for i, p := range fn.Params {
				if strings.HasSuffix(p.Type().String(), "kyber/v3.Scalar") {
					mask = 1 << uint(i)
				}
			}
		}
		if mask != 0 {
			n++
			s := t.run(fn, mask)
			r.Check(s.results == 0, "not-returned", "results of "+fname(fn), w.FuncPos(fn), "a value which reveals the secret is returned")
		}
	}
	r.Check(n >= 3, "sources", "functions which generate a trusted setup from a secret", "", "only %d were found", n)
	// the generating program
	main := w.Must("setup", "main")
	src := 0
	tm := &taintAn{r: r, w: w, sums: t.sums, cur: t.cur}
	for _, fn := range w.Funcs {
		if fn.Pkg != w.Pkgs["setup"] {
			continue
		}
		var in0 []ssa.Value
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && strings.HasSuffix(calleeName(c.Common()), ".ReadPassword") {
					for _, ref := range *c.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && e.Index == 0 {
							in0 = append(in0, e)
						}
					}
				}
			}
		}
		if len(in0) > 0 {
			src++
			tm.runFrom(fn, in0)
		}
	}
	r.Check(src == 1, "sources", "input of the seed", w.FuncPos(main), "the seed is read at %d places", src)
	r.Min("not-printed", 10)
	r.Min("not-returned", 3)
	r.wipeRule(main)
}

// runFrom analyses a function in which the values are secret; functions returning them are followed
func (t *taintAn) runFrom(fn *ssa.Function, src []ssa.Value) {
	if len(src) == 0 {
		return
	}
	t.r.Analysed(fn)
	tainted := t.flow(fn, src)
	t.report(fn, tainted)
	ret := map[int]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Return); ok {
				for i, v := range x.Results {
					if tainted[v] {
						ret[i] = true
					}
				}
			}
		}
	}
	if len(ret) == 0 {
		return
	}
	for _, g := range t.w.Funcs {
		var in0 []ssa.Value
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Common().StaticCallee() != fn || g == fn {
					continue
				}
				if fn.Signature.Results().Len() == 1 {
					in0 = append(in0, c)
					continue
				}
				for _, ref := range *c.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok && ret[e.Index] {
						in0 = append(in0, e)
					}
				}
			}
		}
		t.runFrom(g, in0)
	}
}

// wipeRule: between the generation of the setup and the next call or the end, the seed, its hash and the secret are wiped
func (r *Report) wipeRule(main *ssa.Function) {
	w := r.W
	isGen := func(name string) bool { return strings.Contains(name, ".TrustedSetupFromSe") }
	opt := FlowOpt{Split: splitAll, Transfer: func(p *Point) {
		trace(p)
		f, st := p.F, p.St
		if s, ok := p.Instr.(*ssa.Store); ok {
			addr := bytesRoot(st.Resolve(p.T(s.Addr)))
			if _, isA := s.Val.Type().Underlying().(*types.Array); isA {
				for _, e := range f.filter(st, "cleared", addr) {
					st.DelEvent(e)
				}
				if c, isC := s.Val.(*ssa.Const); isC && c.Value == nil {
					st.AddEvent("cleared", addr)
				}
			} else if ia, isI := s.Addr.(*ssa.IndexAddr); isI {
				base := bytesRoot(st.Resolve(p.T(ia.X)))
				if v, isC := st.Resolve(p.T(s.Val)).Int(); !isC || v != 0 {
					for _, e := range f.filter(st, "cleared", base) {
						st.DelEvent(e)
					}
				}
			}
			return
		}
		in, ok := p.Instr.(*ssa.Call)
		if !ok {
			return
		}
		c := in.Common()
		if b, isB := c.Value.(*ssa.Builtin); isB && b.Name() == "copy" {
			for _, e := range f.filter(st, "cleared", bytesRoot(st.Resolve(p.T(c.Args[0])))) {
				st.DelEvent(e)
			}
		}
		if b, isB := c.Value.(*ssa.Builtin); isB && b.Name() == "clear" {
			st.AddEvent("cleared", bytesRoot(st.Resolve(p.T(c.Args[0]))))
		}
		if _, isB := c.Value.(*ssa.Builtin); isB || f.child(p.Ctx, in, c) != nil {
			return
		}
		t := f.term(p.Ctx, in)
		n := t.CallName()
		if isGen(n) {
			st.AddEvent("made", t)
		}
		if c.IsInvoke() && isKyber(c.Value.Type()) && mutatesReceiver[c.Method.Name()] {
			recv := st.Resolve(p.T(c.Value))
			for _, e := range st.Events("zeroed") {
				if e.Args[0] == recv {
					st.DelEvent(e)
				}
			}
			if c.Method.Name() == "Zero" {
				st.AddEvent("zeroed", recv)
			}
			if c.Method.Name() == "SetBytes" {
				st.AddEvent("from", recv, st.Resolve(p.T(c.Args[0])))
			}
		}
		if isGen(n) || strings.Contains(n, "blake2b.") || c.IsInvoke() && isKyber(c.Value.Type()) {
			for _, a := range c.Args {
				if isByteSlice(a.Type()) {
					st.AddEvent("used", bytesRoot(st.Resolve(p.T(a))))
				}
			}
		}
	}}
	opt.NoInline = func(g *ssa.Function) bool {
		return isGen(fname(g)) || g.Name() == "writeToFile" || w.reaches(g, fname(g)) && g.Pkg != w.Pkgs["setup"]
	}
	f := r.Flow(main, opt)
	nMade := 0
	check := func(p *Point, what string) {
		st := p.St
		ev := st.Events("made")
		if len(ev) == 0 {
			return
		}
		nMade++
		at := p.Where()
		gen := ev[0].Args[0]
		used := st.Events("used")
		seed := false
		for _, e := range used {
			x := e.Args[0]
			if x.Op == "alloc" {
				continue
			}
			seed = true
			r.Check(f.wiped(st, x), "wipe", "seed before "+what, at, "the seed may still be in memory")
		}
		r.Check(seed, "wipe", "seed before "+what, at, "the seed was not found")
		// the scalars given to the generator
		okS, found := true, false
		for _, a := range gen.Args {
			if a.Op == "const" || a.T == nil || !isKyber(a.T) {
				continue
			}
			for _, e := range st.Events("from") {
				if e.Args[0] != a {
					continue
				}
				found = true
				okS = okS && len(f.filter(st, "zeroed", a)) > 0
				h := bytesRoot(e.Args[1])
				r.Check(f.wiped(st, h), "wipe", "hash of the seed before "+what, at, "the hash of the seed may still be in memory: %s is %s", h, st.Content(h))
			}
		}
		r.Check(found && okS, "wipe", "secret before "+what, at, "the secret may still be in memory")
	}
	f.Visit(func(p *Point) {
		in, ok := p.Instr.(*ssa.Call)
		if !ok {
			return
		}
		c := in.Common()
		if _, isB := c.Value.(*ssa.Builtin); isB || f.child(p.Ctx, in, c) != nil || c.IsInvoke() && isKyber(c.Value.Type()) {
			return
		}
		if t := f.term(p.Ctx, in); isGen(t.CallName()) {
			return
		}
		check(p, "call of "+calleeName(c))
	}, func(e *Exit) { check(e.P, "the end") })
	r.Check(nMade >= 2, "wipe", "generation of the setup", w.FuncPos(main), "the program was not recognized")
}

func bytesRoot(t *Term) *Term {
	for t.Op == "slice" || t.Op == "conv" || t.Op == "arr" {
		t = t.Args[0]
	}
	return t
}

func (f *Flow) filter(st *State, ev string, a *Term) (r []*Atom) {
	for _, e := range st.Events(ev) {
		if e.Args[0] == a {
			r = append(r, e)
		}
	}
	return
}

// wiped: all bytes of the buffer are zero
func (f *Flow) wiped(st *State, x *Term) bool {
	x = bytesRoot(st.Resolve(x))
	if len(f.filter(st, "cleared", x)) > 0 {
		return true
	}
	for _, l := range f.Loops() {
		if l.Kind != "index" || !st.loopDone(f, l) || len(l.Exits) > 0 {
			continue
		}
		if !l.Covers(f, f.mkLen(x)) && !(l.Coll != nil && bytesRoot(l.Coll) == x && l.Covers(f, f.mkLen(l.Coll))) {
			continue
		}
		ok := true
		f.AtBackEdges(l, func(p *Point) {
			found := false
			for _, e := range p.St.Events("slot") {
				if v, isI := e.Args[2].Int(); isI && v == 0 && bytesRoot(e.Args[0]) == x && e.Args[1] == l.Idx {
					found = true
				}
			}
			ok = ok && found
		})
		if ok {
			return true
		}
	}
	return false
}
