package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C22"] = checkDef{run: runC22,
		explanation: "Data-flow analysis of loading and generating a trusted setup, with the arithmetic of the curve kept abstract: on every successful path the data is fully read, the root of unity is tested, each element of the domain is computed and then, in a loop over the whole domain, tested to be different from one (and from the secret when generated), the secret is tested not to be weak, and the auxiliary table is computed for each index after the domain is complete; on failing paths no setup is returned. The constants are tested when the program starts."}
}

const (
	fnPowerBig = "trie_kzg_bn256.powerBig"
	fnIsROU    = "trie_kzg_bn256.isRootOfUnity"
)

func runC22(r *Report) {
	r.setupLoad()
	r.setupGenerate("TrustedSetupFromSecretPowers", true)
	r.setupGenerate("TrustedSetupFromSecretNaturalDomain", false)
	r.setupGenerate("TrustedSetupFromSeed", false)
	r.rootOfUnity()
	r.constants()
	r.quasiPrimitive()
}

// theSetup: the setup which is returned
// contradicts: the states are on different paths
func contradicts(q, st *State) bool {
	for _, cd := range q.Conds() {
		if curveCall(cd.Cond, "Equal") {
			if v := st.Eval(cd.Cond); v != 0 && (v > 0) != cd.Pos {
				return true
			}
		}
	}
	return false
}

func theSetup(st *State, t *Term) *Term {
	t = st.Resolve(t)
	if t.Op == "alloc" {
		return t
	}
	return nil
}

// isOne: the scalar is the stored or a fresh one
func (f *Flow) isOne(st *State, sd, t *Term, one string) bool {
	t = st.Resolve(t)
	if curveCall(t, one) {
		return true
	}
	return t == st.Resolve(f.field(sd, one+"G1"))
}

// domainLoop: a loop over all of the table which satisfies the condition for each index
func (f *Flow) tableLoop(st *State, sd *Term, table string, from int64, cond func(q *State, l *Loop, elem *Term) bool) *Loop {
	dom := st.Resolve(f.field(sd, table))
	for _, l := range f.Loops() {
		if l.Kind != "index" || l.Step != 1 || l.Start == nil || l.Bound == nil || !f.loopEnded(st, l) {
			continue
		}
		if s, ok := l.Start.Int(); !ok || s > from || s < 0 {
			continue
		}
		ok, k := true, 0
		f.AtBackEdges(l, func(q *Point) {
			if contradicts(q.St, st) {
				return
			}
			k++
			now := q.St.Resolve(f.field(sd, table))
			if dom.Op != "sel" && now != dom {
				// another table
				ok = false
				return
			}
			if !f.wholeTable(q.St, sd, f.constInt(0, nil), l.Bound, table) {
				ok = false
				return
			}
			ok = ok && cond(q.St, l, f.mkIdx(now, l.Idx, nil))
		})
		if ok && k > 0 {
			return l
		}
	}
	return nil
}

// notEqual: the element was compared after it was computed, and is different
func notEqual(st *State, elem *Term, other func(cell, val *Term) bool) bool {
	for _, e := range st.Events("compared") {
		if e.Args[0] == elem && other(e.Args[3], e.Args[1]) && st.False(e.Args[2]) {
			return true
		}
	}
	return false
}

func setupOpaque(extra ...string) func(*ssa.Function) bool {
	return byName(append([]string{fnPowerBig, fnIsROU}, extra...)...)
}

// tables: the auxiliary table is computed after the domain
func (r *Report) setupTables(f *Flow, e *Exit, sd *Term, what string) {
	st, at := e.P.St, e.P.Where()
	ap := st.Resolve(f.field(sd, "AprimeDomainI"))
	r.Check(f.tableLoop(st, sd, "AprimeDomainI", 0, func(q *State, l *Loop, elem *Term) bool {
		if !hasComputed(q, elem) {
			return false
		}
		// product over all other points of the domain
		for _, in := range f.foldLoop(func(*State) *Term { return elem }, 1, func(q *State, lo, hi *Term) bool { return f.wholeTable(q, sd, lo, hi, "Domain") }, func(q *State, in *Loop, acc *Term) *Term {
			return f.kmul(acc, f.ksub(f.kval(q, f.tabIdx(q, sd, "Domain", l.Idx)), f.kval(q, f.tabIdx(q, sd, "Domain", in.Idx))))
		}, func(q *State, in *Loop) bool { return q.EQ(in.Idx, l.Idx) }) {
			if f.loopEnded(q, in) {
				return true
			}
		}
		return false
	}) != nil, "tables", what+": the auxiliary table is computed for each index", at, "no loop over the whole table %s computes for each element the product of the differences to the other points of the domain", ap)
	for table, group := range map[string]string{"Domain": "G1", "AprimeDomainI": "G1", "LagrangeBasis": "G1", "Diff2": "G2"} {
		table, group := table, group
		kind := "Scalar"
		if table == "LagrangeBasis" || table == "Diff2" {
			kind = "Point"
		}
		r.Check(f.tableLoop(st, sd, table, 0, func(q *State, l *Loop, elem *Term) bool {
			v := f.slotValue(q, elem)
			if v == nil {
				return false
			}
			v = f.kcell(q, v)
			if v.CallName() != "kyber.Group."+kind {
				return false
			}
			g := q.Resolve(v.Args[0]).CallName()
			return g[strings.LastIndexByte(g, '.')+1:] == group
		}) != nil, "tables", what+": table "+table+" is allocated", at, "no loop puts an element of the group %s into each slot", group)
	}
	// order: the domain is complete
	done := true
	n := 0
	f.Visit(func(p *Point) {
		in, isC := p.Instr.(*ssa.Call)
		if !isC || !strings.HasPrefix(f.callName(p.Ctx, in.Common()), "kyber.") {
			return
		}
		t := f.term(p.Ctx, in)
		if len(t.Args) < 2 && !curveCall(t, "One") {
			return
		}
		x := p.St.Resolve(t.Args[0])
		if x.Op != "idx" || p.St.Resolve(x.Args[0]) != p.St.Resolve(f.field(sd, "AprimeDomainI")) {
			return
		}
		n++
		ok := f.tableLoop(p.St, sd, "Domain", 1, func(q *State, l *Loop, elem *Term) bool { return hasComputed(q, elem) }) != nil
		done = done && ok
	}, nil)
	r.Check(done && n > 0, "tables", what+": the auxiliary table is computed from the complete domain", at, "the domain may not be complete when the table is computed")
}

func (r *Report) setupLoad() {
	w := r.W
	fn := w.Must("kzg", "TrustedSetupFromBytes")
	f := r.Flow(fn, FlowOpt{Transfer: curveTrace, Split: splitAll, SplitFacts: splitIdx, NoInline: setupOpaque()})
	kinds := map[string]int{}
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		if !succeeded(e) {
			r.Check(st.Resolve(e.Results[0]).IsNil(), "no-setup", "no setup is returned with an error", at, "%s is returned", e.Results[0])
			return
		}
		sd := theSetup(st, e.Results[0])
		if !r.Check(sd != nil, "setup-new", "a new setup is returned", at, "the result is %s", e.Results[0]) {
			return
		}
		omega := st.Resolve(f.field(sd, "Omega"))
		natural := 0
		rou := false
		for _, cd := range st.Conds() {
			t := cd.Cond
			if curveCall(t, "Equal") && len(t.Args) == 2 {
				a, b := st.Resolve(t.Args[0]), st.Resolve(t.Args[1])
				if b == omega {
					a, b = b, a
				}
				if a == omega && f.isOne(st, sd, b, "Zero") {
					natural = st.Eval(t)
				}
			}
			if t.CallName() == fnIsROU && st.Resolve(t.Args[1]) == omega {
				rou = rou || cd.Pos
			}
		}
		left := false
		for _, cd := range st.Conds() {
			cd.Cond.Any(func(t *Term) bool {
				left = left || t.CallName() == "(*bytes.Reader).Len" && st.LE(t, f.constInt(0, nil), 0)
				return false
			})
		}
		r.Check(left, "all-consumed", "a setup is loaded only if all bytes are consumed", at, "bytes may be left")
		switch natural {
		case 0:
			r.Check(false, "domain-kind", "the kind of the domain is known", at, "it is not known whether the root of unity is zero")
			return
		case 1:
			kinds["natural"]++
			r.Check(f.tableLoop(st, sd, "Domain", 0, func(q *State, l *Loop, elem *Term) bool { return f.naturalElem(q, elem, l.Idx) }) != nil,
				"domain", "the natural domain is computed", at, "no loop sets each element of the domain to its index")
		default:
			kinds["powers"]++
			r.Check(rou, "root-of-unity", "a loaded root of unity is tested", at, "it is not known to be a root of unity")
			r.Check(f.tableLoop(st, sd, "Domain", 1, func(q *State, l *Loop, elem *Term) bool {
				return q.LE(l.Idx, f.constInt(0, nil), 0) || notEqual(q, elem, func(c, v *Term) bool { return isKint(v, 1) })
			}) != nil, "powers", "the powers of a loaded root of unity are tested to be distinct from one", at, "no loop tests each power except the zeroth after it is computed")
			r.Check(f.tableLoop(st, sd, "Domain", 1, func(q *State, l *Loop, elem *Term) bool { return f.powerElem(q, sd, elem, l) }) != nil,
				"domain", "the domain consists of the powers of the root of unity", at, "no loop computes each element")
		}
		r.setupTables(f, e, sd, "loaded")
	})
	r.Check(kinds["natural"] > 0 && kinds["powers"] > 0, "domain-kind", "both kinds of domains", w.FuncPos(fn), "no path for one of the kinds of domains")
}

// naturalElem: the element was set to its index
func (f *Flow) naturalElem(st *State, elem, idx *Term) bool {
	v := f.kval(st, elem)
	return v.Op == "kint" && v.Args[0] == idx
}

func (f *Flow) tabIdx(q *State, sd *Term, table string, i *Term) *Term {
	return f.mkIdx(q.Resolve(f.field(sd, table)), i, nil)
}

// wholeTable: the indices are those of the whole table
func (f *Flow) wholeTable(q *State, sd, lo, hi *Term, table string) bool {
	if n, ok := lo.Int(); !ok || n != 0 {
		return false
	}
	b, n := stripPos(q.Resolve(hi)), stripPos(q.Resolve(f.mkLen(q.Resolve(f.field(sd, table)))))
	return b == n || q.EQ(b, n) || b == stripPos(q.Resolve(f.field(sd, "D"))) || stripPos(hi) == stripPos(f.mkLen(f.field(sd, table)))
}

// powerElem: the element was computed as the power of omega with its index
func (f *Flow) powerElem(st *State, sd, elem *Term, l *Loop) bool {
	if !hasComputed(st, elem) {
		return false
	}
	for _, in := range f.foldLoop(func(*State) *Term { return elem }, 1, func(q *State, lo, hi *Term) bool {
		n := f.subT(stripConv(hi), lo)
		return n == l.Idx || q.EQ(n, l.Idx)
	}, func(q *State, in *Loop, acc *Term) *Term {
		return f.kmul(acc, f.kval(q, f.field(sd, "Omega")))
	}, nil) {
		if f.loopEnded(st, in) {
			return true
		}
	}
	return false
}

func (r *Report) setupGenerate(name string, powers bool) {
	w := r.W
	fn := w.Must("kzg", name)
	f := r.Flow(fn, FlowOpt{Transfer: curveTrace, Split: splitAll, SplitFacts: splitIdx, NoInline: setupOpaque()})
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		if !succeeded(e) {
			r.Check(st.Resolve(e.Results[0]).IsNil(), "no-setup", name+": no setup is returned with an error", at, "%s is returned", e.Results[0])
			return
		}
		n++
		sd := theSetup(st, e.Results[0])
		if !r.Check(sd != nil, "setup-new", name+": a new setup is returned", at, "the result is %s", e.Results[0]) {
			return
		}
		// the secret: the scalar which is hidden
		var secret *Term
		for i, p := range fn.Params {
			if p.Name() == "secret" || namedScalar(p.Type()) && i == len(fn.Params)-1 {
				secret = f.Param(i)
			}
		}
		if secret == nil {
			for _, c := range st.Events("call") {
				if t := c.Args[0]; curveCall(t, "SetBytes") || curveCall(t, "Pick") {
					secret = t
				}
			}
		}
		if !r.Check(secret != nil, "secret", name+": the secret", at, "the secret was not found") {
			return
		}
		secret = f.kcell(st, secret)
		same := func(t *Term) bool { return f.kcell(st, t) == secret }
		weak := false
		for _, cd := range st.Conds() {
			cd.Cond.Any(func(t *Term) bool {
				if t.Op == "len" && curveCall(t.Args[0], "String") && same(t.Args[0].Args[0]) && st.LE(f.constInt(50, nil), t, 0) {
					weak = true
				}
				return weak
			})
		}
		r.Check(weak, "secret-weak", name+": a weak secret is refused", at, "the secret may be weak")
		if powers {
			r.Check(f.tableLoop(st, sd, "Domain", 1, func(q *State, l *Loop, elem *Term) bool {
				return q.LE(l.Idx, f.constInt(0, nil), 0) || notEqual(q, elem, func(c, v *Term) bool { return isKint(v, 1) })
			}) != nil, "powers", name+": the powers of the root of unity are tested to be distinct from one", at, "no loop tests each power except the zeroth after it is computed")
			r.Check(f.tableLoop(st, sd, "Domain", 0, func(q *State, l *Loop, elem *Term) bool {
				return notEqual(q, elem, func(c, v *Term) bool { return c == secret || v == f.kval(st, secret) })
			}) != nil, "secret-domain", name+": the secret is not in the domain", at, "no loop compares each element of the domain with the secret after it is computed")
			r.Check(f.tableLoop(st, sd, "Domain", 1, func(q *State, l *Loop, elem *Term) bool { return f.powerElem(q, sd, elem, l) }) != nil,
				"domain", name+": the domain consists of the powers of the root of unity", at, "no loop computes each element")
			om := f.kval(st, f.field(sd, "Omega"))
			r.Check(om == f.Param(2), "domain", name+": the root of unity is the given one", at, "the root of unity is %s", om)
		} else {
			r.Check(f.tableLoop(st, sd, "Domain", 0, func(q *State, l *Loop, elem *Term) bool { return f.naturalElem(q, elem, l.Idx) }) != nil,
				"domain", name+": the natural domain is computed", at, "no loop sets each element of the domain to its index")
		}
		r.setupTables(f, e, sd, name)
		r.Check(f.tableLoop(st, sd, "LagrangeBasis", 0, func(q *State, l *Loop, elem *Term) bool {
			v := f.kval(q, elem)
			if v.Op != "kpm" || v.Args[1].Op != "kbase" {
				return false
			}
			acc := v.Args[0]
			for _, in := range f.foldLoop(func(*State) *Term { return acc }, 1, func(q *State, lo, hi *Term) bool { return f.wholeTable(q, sd, lo, hi, "Domain") }, func(q *State, in *Loop, acc *Term) *Term {
				dj, di := f.kval(q, f.tabIdx(q, sd, "Domain", in.Idx)), f.kval(q, f.tabIdx(q, sd, "Domain", l.Idx))
				return f.kmul(acc, f.ksub(f.kval(q, secret), dj), f.kinv(f.ksub(di, dj)))
			}, func(q *State, in *Loop) bool { return q.EQ(in.Idx, l.Idx) }) {
				if f.loopEnded(q, in) {
					return true
				}
			}
			return false
		}) != nil, "hidden", name+": each element of the basis is the value of the Lagrange polynomial at the secret times the generator", at, "no loop computes each element of the basis")
		r.Check(f.tableLoop(st, sd, "Diff2", 0, func(q *State, l *Loop, elem *Term) bool {
			v := f.kval(q, elem)
			return v.Op == "kpm" && v.Args[1].Op == "kbase" && v.Args[0] == f.ksub(f.kval(q, secret), f.kval(q, f.tabIdx(q, sd, "Domain", l.Idx)))
		}) != nil, "hidden", name+": each difference of the secret and a point of the domain is a multiple of the generator", at, "no loop computes each difference")
	})
	r.Check(n > 0, "setup-new", name+": successful paths", w.FuncPos(fn), "no successful path")
}

func namedScalar(T types.Type) bool {
	n, ok := T.(*types.Named)
	return ok && n.Obj().Name() == "Scalar"
}

func (r *Report) rootOfUnity() {
	w := r.W
	fn := w.Must("kzg", "isRootOfUnity")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: byName(fnPowerBig)})
	x := f.Param(len(fn.Params) - 1)
	n := 0
	pow := func(st *State, t *Term) bool {
		t = st.Resolve(t)
		if t.CallName() != fnPowerBig || len(t.Args) != 3 || st.Resolve(t.Args[1]) != x {
			return false
		}
		return strings.HasSuffix(st.Resolve(t.Args[2]).String(), ".bigFactor")
	}
	eq := func(st *State, t *Term) bool {
		if !curveCall(t, "Equal") || len(t.Args) != 2 {
			return false
		}
		a, b := st.Resolve(t.Args[0]), st.Resolve(t.Args[1])
		return pow(st, a) && curveCall(b, "One") || pow(st, b) && curveCall(a, "One")
	}
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		n++
		st := e.P.St
		v := st.Resolve(e.Results[0])
		ok := eq(st, v) || v.IsConst("false")
		if !ok && v.IsConst("true") {
			for _, cd := range st.Conds() {
				ok = ok || cd.Pos && eq(st, cd.Cond)
			}
		}
		r.Check(ok, "root-of-unity", "a root of unity to the power of the factor is one", e.P.Where(), "the result is %s", v)
	})
	r.Check(n > 0, "root-of-unity", "the test of roots of unity", w.FuncPos(fn), "no result")
}

func (r *Report) constants() {
	w := r.W
	found := 0
	for _, fn := range w.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != pkgShort["kzg"] || !strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll})
		f.Visit(nil, func(e *Exit) {
			st := e.P.St
			if e.Kind != "return" {
				return
			}
			for _, c := range st.Events("call") {
				t := c.Args[0]
				if t.CallName() != "(*math/big.Int).DivMod" && t.CallName() != "(*math/big.Int).QuoRem" {
					continue
				}
				found++
				m := st.Resolve(t.Args[len(t.Args)-1])
				ok := false
				for _, cd := range st.Conds() {
					if cd.Cond.Op == "eq0" && cd.Pos {
						ok = ok || cd.Cond.Any(func(x *Term) bool {
							return (x.CallName() == "(*math/big.Int).Cmp" || x.CallName() == "(*math/big.Int).Sign" || x.CallName() == "(*math/big.Int).BitLen") && (st.Resolve(x.Args[0]) == m || len(x.Args) > 1 && st.Resolve(x.Args[1]) == m)
						})
					}
				}
				r.Check(ok, "constants", "the order of the group minus one is a multiple of the factor", e.P.Where(), "the remainder %s of the division is not known to be zero", m)
			}
		})
	}
	r.Check(found > 0, "constants", "the test of the constants", "models/trie_kzg_bn256/constants.go", "the constants are not tested when the program starts")
}

// quasiPrimitive: a generated root of unity has only long powers
func (r *Report) quasiPrimitive() {
	w := r.W
	fn := w.Must("kzg", "GenRootOfUnityQuasiPrimitive")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: setupOpaque("trie_kzg_bn256.generateRootOfUnity")})
	d := f.Param(1)
	factor, _ := w.constOf("kzg", "FACTOR")
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		n++
		st, at := e.P.St, e.P.Where()
		r.Check(st.LE(d, f.constInt(factor, nil), 0), "degree", "a degree above the factor is refused", at, "the degree may be greater than %d", factor)
		ok := false
		for _, l := range f.Loops() {
			if l.Kind != "index" || l.Step != 1 || !f.loopEnded(st, l) {
				continue
			}
			if s, isC := l.Start.Int(); !isC || s > 1 {
				continue
			}
			all, k := true, 0
			f.AtBackEdges(l, func(q *Point) {
				k++
				long := q.St.LE(l.Idx, f.constInt(0, nil), 0)
				for _, cd := range q.St.Conds() {
					cd.Cond.Any(func(t *Term) bool {
						if t.Op == "len" && curveCall(t.Args[0], "String") && q.St.LE(f.constInt(2, nil), t, 0) {
							long = true
						}
						return long
					})
				}
				all = all && long
			})
			ok = ok || all && k > 0
		}
		r.Check(ok, "quasi-primitive", "the powers of a generated root of unity are tested", at, "the result may have short powers")
	})
	r.Check(n > 0, "quasi-primitive", "a root of unity is generated", w.FuncPos(fn), "no result")
}
