package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C28"] = checkDef{run: runC28,
		explanation: "Value numbering of the arithmetic of scalars and points over the data-flow of the KZG functions, in the normal form of commutative groups and fields: the commitment to a vector is the sum over the whole vector of element times basis point; the opening at a position is the sum over the whole domain of the values of the quotient polynomial times basis point, where each path of an iteration computes the value by the formula for this position (difference of elements by difference of points, or at the position itself the complete sum by the coefficients of the derivative), absent elements being zero; the precalculated tables, where they exist, hold for each pair of positions what is computed without them, and are made only for the domain of numbers; the verifier compares the two pairings of the scheme. That these formulas are those of the scheme is shown in DESIGN.md.",
		assumptions: []string{"kyber implements the operations of the groups and the pairing correctly", "the points of the domain are distinct (decided under C22 by the tests of the powers)"}}
}

// scheme is the setup of which the functions are methods
type scheme struct {
	f  *Flow
	sd *Term
	// the index stands for the other one
	from, to *Term
}

// norm replaces the index by the equal one
func (s *scheme) norm(t *Term) *Term {
	if s.from == nil {
		return t
	}
	return s.f.replaced(t, s.from, s.to)
}

// replaced: the expression with one term in the place of another one
func (f *Flow) replaced(t, from, to *Term) *Term {
	if t == from {
		return to
	}
	if t.Lin != nil {
		l := &Lin{C: t.Lin.C}
		for _, m := range t.Lin.M {
			l = linAdd(l, f.toLin(f.replaced(m.T, from, to)), m.K)
		}
		return f.fromLin(l, t.T)
	}
	var as []*Term
	same := true
	for _, a := range t.Args {
		b := f.replaced(a, from, to)
		same = same && a == b
		as = append(as, b)
	}
	if same {
		return t
	}
	switch t.Op {
	case "idx":
		return f.mkIdx(as[0], as[1], t.T)
	case "kadd":
		return f.kadd(as...)
	case "kmul":
		return f.kmul(as...)
	case "kneg":
		return f.kneg(as[0])
	case "kinv":
		return f.kinv(as[0])
	case "kpm":
		return f.kpm(as[0], as[1])
	case "kint":
		return f.intern("kint", "", nil, as...)
	}
	return t
}

func (s *scheme) tab(q *State, name string, i *Term) *Term { return s.f.tabIdx(q, s.sd, name, i) }

// precalc: 1 if the precalculated tables exist, -1 if not, 0 if not known
func (s *scheme) precalc(q *State) int {
	return -q.Eval(s.f.mkEq(q.Resolve(s.f.field(s.sd, "precalc")), s.f.constNil()))
}

func (s *scheme) pre(q *State, table string) *Term {
	return q.Resolve(s.f.field(q.Resolve(s.f.field(s.sd, "precalc")), table))
}

// elem: the element of the vector: nil if it is absent; ok is false if this is not known
func (s *scheme) elem(q *State, vect, i *Term) (*Term, bool) {
	x := q.Resolve(s.f.mkIdx(vect, i, nil))
	switch s.absent(q, x) {
	case 1:
		return nil, true
	case -1:
		return s.f.kval(q, x), true
	}
	return nil, false
}

// absent: the element is known to be absent, by a test of any element with the same index
func (s *scheme) absent(q *State, x *Term) int {
	if v := q.Eval(s.f.mkEq(x, s.f.constNil())); v != 0 || x.Op != "idx" {
		return v
	}
	for _, c := range q.Conds() {
		if y := nilTested(c.Cond); y != nil && y != x && y.Op == "idx" && y.Args[0] == x.Args[0] && q.EQ(y.Args[1], x.Args[1]) {
			return q.Eval(c.Cond)
		}
	}
	return 0
}

// impossible: one element is known to be absent and not to be absent
func (s *scheme) impossible(q *State) bool {
	cs := q.Conds()
	for _, c := range cs {
		x := nilTested(c.Cond)
		if !c.Pos || x == nil || x.Op != "idx" {
			continue
		}
		for _, d := range cs {
			if y := nilTested(d.Cond); y != nil && !d.Pos && y.Op == "idx" && y.Args[0] == x.Args[0] && q.EQ(y.Args[1], x.Args[1]) {
				return true
			}
		}
	}
	return false
}

func nilTested(c *Term) *Term {
	if c.Op != "eq" || len(c.Args) != 2 {
		return nil
	}
	if c.Args[0].IsNil() {
		return c.Args[1]
	}
	if c.Args[1].IsNil() {
		return c.Args[0]
	}
	return nil
}

func (f *Flow) kdiff(a, b *Term) *Term {
	switch {
	case a == nil && b == nil:
		return f.kint(0)
	case a == nil:
		return f.kneg(b)
	case b == nil:
		return a
	}
	return f.ksub(a, b)
}

// inv: the forms of 1/(d_a-d_b)
func (s *scheme) inv(q *State, a, b *Term) []*Term {
	f := s.f
	d := f.ksub(f.kval(q, s.tab(q, "Domain", a)), f.kval(q, s.tab(q, "Domain", b)))
	r := []*Term{f.kinv(d)}
	if s.precalc(q) == 1 {
		n := stripPos(q.Resolve(f.field(s.sd, "D")))
		r = append(r, f.mkIdx(s.pre(q, "invsub"), f.plus(f.subT(f.sum(n, a), b), -1), nil))
	}
	return r
}

// ta: the forms of A'(a)/A'(b) / (d_a-d_b)
func (s *scheme) ta(q *State, a, b *Term) []*Term {
	f := s.f
	var r []*Term
	for _, x := range s.inv(q, a, b) {
		r = append(r, f.kmul(x, f.kval(q, s.tab(q, "AprimeDomainI", a)), f.kinv(f.kval(q, s.tab(q, "AprimeDomainI", b)))))
	}
	if s.precalc(q) == 1 {
		r = append(r, f.mkIdx(f.mkIdx(s.pre(q, "ta"), a, nil), b, nil))
	}
	return r
}

// isTk: the value is the sum of the coefficients of the position
func (s *scheme) isTk(q *State, v, a *Term) bool {
	f := s.f
	if s.precalc(q) == 1 && v == f.mkIdx(s.pre(q, "tk"), a, nil) {
		return true
	}
	for _, l := range f.foldLoop(func(*State) *Term { return v }, 0, func(q *State, lo, hi *Term) bool { return f.wholeTable(q, s.sd, lo, hi, "Domain") },
		nil, func(q *State, l *Loop) bool { return q.EQ(l.Idx, a) }, func(q *State, l *Loop, acc, v *Term) bool {
			return isOneOf(s.norm(v), s.ta(q, a, l.Idx), func(x *Term) *Term { return f.kadd(acc, x) })
		}) {
		if f.loopEnded(q, l) {
			return true
		}
	}
	return false
}

func isOneOf(v *Term, forms []*Term, fn func(*Term) *Term) bool {
	for _, x := range forms {
		if fn(x) == v {
			return true
		}
	}
	return false
}

// added: the value is the sum of the accumulator and one more term, nil if it is the accumulator
func (f *Flow) added(v, acc *Term) (*Term, bool) {
	if v == acc {
		return nil, true
	}
	if v.Op != "kadd" {
		return nil, false
	}
	var rest []*Term
	found := false
	for _, a := range v.Args {
		if a == acc && !found {
			found = true
			continue
		}
		rest = append(rest, a)
	}
	if !found || len(rest) == 0 {
		return nil, false
	}
	return f.kadd(rest...), true
}

// isZeroVal: the expression is known to be zero by a comparison
func (s *scheme) isZeroVal(q *State, v *Term) bool {
	if isKint(v, 0) {
		return true
	}
	f := s.f
	for _, e := range q.Events("compared") {
		if q.True(e.Args[2]) && f.kval(q, e.Args[0]) == v && (isKint(e.Args[1], 0) || f.isOne(q, s.sd, e.Args[3], "Zero")) {
			return true
		}
	}
	return false
}

func runC28(r *Report) {
	r.schemeCommit()
	r.schemeProve()
	r.schemeTables()
	r.schemeVerify()
}

func (r *Report) schemeCommit() {
	w := r.W
	fn := w.Must("kzg", "TrustedSetup.commit")
	f := r.Flow(fn, FlowOpt{Transfer: curveTrace, Split: splitAll, SplitFacts: splitScheme})
	s := &scheme{f: f, sd: f.Param(0)}
	vect := f.Param(1)
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		n++
		st := e.P.St
		res := f.kcell(st, e.Results[0])
		ok := false
		for _, l := range f.foldLoop(func(*State) *Term { return res }, 0, func(q *State, lo, hi *Term) bool {
			return f.whole(q, lo, hi, f.mkLen(vect)) || f.wholeTable(q, s.sd, lo, hi, "LagrangeBasis")
		}, nil, func(q *State, l *Loop) bool {
			v, known := s.elem(q, vect, l.Idx)
			return known && v == nil
		}, func(q *State, l *Loop, acc, v *Term) bool {
			x, known := s.elem(q, vect, l.Idx)
			return known && x != nil && v == f.kadd(acc, f.kpm(x, s.tab(q, "LagrangeBasis", l.Idx)))
		}) {
			ok = ok || f.loopEnded(st, l)
		}
		r.Check(ok, "commit", "the commitment is the sum over the vector of element times basis point", e.P.Where(), "no complete loop adds for each element which is not absent the element times the basis point with its index to the result, starting with zero")
	})
	r.Check(n > 0, "commit", "results of commit", w.FuncPos(fn), "no result")
}

// whole: the indices are those below n
func (f *Flow) whole(q *State, lo, hi, n *Term) bool {
	if z, ok := lo.Int(); !ok || z != 0 {
		return false
	}
	hi = stripPos(q.Resolve(hi))
	n = stripPos(q.Resolve(n))
	return hi == n || q.EQ(hi, n)
}

func (r *Report) schemeProve() {
	w := r.W
	fn := w.Must("kzg", "TrustedSetup.prove")
	// the cases of the analysis
	r.schemeProveCase(fn, true, "with precalculated tables")
	r.schemeProveCase(fn, false, "without precalculated tables")
}

func (r *Report) schemeProveCase(fn *ssa.Function, tables bool, what string) {
	w := r.W
	f := r.Flow(fn, FlowOpt{Transfer: curveTrace, Split: splitAll, SplitFacts: splitScheme, Init: func(st *State) {
		f := st.f
		st.Assume(f.mkEq(f.field(f.Param(0), "precalc"), f.constNil()), !tables)
	}})
	s := &scheme{f: f, sd: f.Param(0)}
	vect, pos := f.Param(1), f.Param(2)
	why := ""
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		n++
		st := e.P.St
		res := f.kcell(st, e.Results[0])
		ok := false
		for _, l := range f.foldLoop(func(*State) *Term { return res }, 0, func(q *State, lo, hi *Term) bool {
			return f.wholeTable(q, s.sd, lo, hi, "Domain") || f.wholeTable(q, s.sd, lo, hi, "LagrangeBasis")
		}, nil, nil, func(q *State, l *Loop, acc, v *Term) bool {
			y := s.quotient(q, l, vect, pos, acc, v)
			if y != "" {
				why = y
			}
			return y == ""
		}) {
			ok = ok || f.loopEnded(st, l)
		}
		r.Check(ok, "prove", "the opening is the sum over the domain of quotient value times basis point, "+what, e.P.Where(), "no complete loop adds for each point of the domain the value of the quotient polynomial times the basis point with its index to the result, starting with zero: %s", why)
	})
	r.Check(n > 0, "prove", "results of prove", w.FuncPos(fn), "no result")
}

// quotient: in the iteration the value of the quotient polynomial at the index times the basis point is added; returns the reason if not
func (s *scheme) quotient(q *State, l *Loop, vect, pos, acc, v *Term) string {
	f := s.f
	if s.impossible(q) {
		return ""
	}
	t, ok := f.added(v, acc)
	if !ok {
		return "the sum becomes " + v.String()
	}
	S := f.kint(0)
	if t != nil {
		if t.Op != "kpm" || t.Args[1] != s.tab(q, "LagrangeBasis", l.Idx) {
			return "added is " + t.String()
		}
		S = t.Args[0]
	}
	j := l.Idx
	switch {
	case q.NE(j, pos):
		vj, ok1 := s.elem(q, vect, j)
		vi, ok2 := s.elem(q, vect, pos)
		if !ok1 || !ok2 {
			return "it is not known whether the elements are present"
		}
		num := f.kdiff(vj, vi)
		if isKint(S, 0) && s.isZeroVal(q, num) {
			return ""
		}
		if isOneOf(S, s.inv(q, j, pos), func(x *Term) *Term { return f.kmul(num, x) }) || isOneOf(S, s.inv(q, pos, j), func(x *Term) *Term { return f.kmul(f.kneg(num), x) }) {
			return ""
		}
		return "outside of the position the quotient is " + S.String()
	case q.EQ(j, pos):
		s = &scheme{f: f, sd: s.sd, from: pos, to: j}
		S = s.norm(S)
		vi, known := s.elem(q, vect, j)
		if !known {
			return "it is not known whether the element at the position is present"
		}
		var cs []*Term
		if S.Op == "kadd" {
			cs = S.Args
		} else {
			cs = []*Term{S}
		}
		for _, c := range cs {
			if !s.derivSum(q, c, vect, j) {
				continue
			}
			rest, _ := f.added(S, c)
			if vi == nil {
				if rest == nil {
					return ""
				}
				continue
			}
			if rest == nil {
				continue
			}
			m := f.kneg(rest)
			fs := []*Term{m}
			if m.Op == "kmul" {
				fs = m.Args
			}
			for k, x := range fs {
				if s.isTk(q, x, j) {
					var o []*Term
					o = append(o, fs[:k]...)
					o = append(o, fs[k+1:]...)
					if f.kmul(o...) == vi {
						return ""
					}
				}
			}
		}
		return "at the position the quotient is " + S.String()
	}
	return "the value does not depend on the position"
}

// derivSum: the value is the sum of all other elements times their coefficients
func (s *scheme) derivSum(q *State, c, vect, pos *Term) bool {
	f := s.f
	for _, l := range f.foldLoop(func(*State) *Term { return c }, 0, func(q *State, lo, hi *Term) bool {
		return f.whole(q, lo, hi, f.mkLen(vect)) || f.wholeTable(q, s.sd, lo, hi, "Domain")
	}, nil, func(q *State, l *Loop) bool {
		v, known := s.elem(q, vect, l.Idx)
		return q.EQ(l.Idx, pos) || known && v == nil
	}, func(q *State, l *Loop, acc, v *Term) bool {
		x, known := s.elem(q, vect, l.Idx)
		return known && x != nil && isOneOf(s.norm(v), s.ta(q, pos, l.Idx), func(y *Term) *Term { return f.kadd(acc, f.kmul(x, y)) })
	}) {
		// the sum at an iteration of the loop is over another loop
		if l.Idx != pos && f.loopEnded(q, l) {
			return true
		}
	}
	return false
}

// splitScheme: paths are distinguished by absent elements, positions and comparisons
func splitScheme(a *Atom) bool {
	c := a.Cond
	if c.Op == "eq" && (c.Args[0].IsNil() || c.Args[1].IsNil()) {
		return true
	}
	return c.Op == "eq0" || curveCall(c, "Equal")
}

// schemeTables: where the precalculated tables exist they hold what is computed without them
func (r *Report) schemeTables() {
	w := r.W
	setters := map[*ssa.Function]bool{}
	for _, fn := range w.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != pkgShort["kzg"] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type(), fa.Field) != "precalc" {
					continue
				}
				for _, u := range *fa.Referrers() {
					if s, isS := u.(*ssa.Store); isS && s.Addr == fa {
						setters[fn] = true
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, name := range []string{"TrustedSetupFromSecretPowers", "TrustedSetupFromSecretNaturalDomain", "TrustedSetupFromSeed", "TrustedSetupFromBytes"} {
		fn := w.Must("kzg", name)
		f := r.Flow(fn, FlowOpt{Transfer: curveTrace, Split: splitAll, SplitFacts: splitIdx, NoInline: setupOpaque()})
		n := 0
		sets := false
		f.Visit(func(p *Point) {
			seen[p.Instr.Parent()] = true
			sets = sets || setters[p.Instr.Parent()]
		}, nil)
		f.Visit(nil, func(e *Exit) {
			if e.Kind != "return" || !succeeded(e) {
				return
			}
			n++
			st, at := e.P.St, e.P.Where()
			sd := theSetup(st, e.Results[0])
			if !r.Check(sd != nil, "setup-new", name+": a new setup is returned", at, "the result is %s", e.Results[0]) {
				return
			}
			s := &scheme{f: f, sd: sd}
			P := st.Resolve(f.field(sd, "precalc"))
			if !sets || P.IsNil() || st.True(f.mkEq(P, f.constNil())) {
				r.OK("tables-none", name+": without precalculated tables", at)
				return
			}
			natural := f.tableLoop(st, sd, "Domain", 0, func(q *State, l *Loop, elem *Term) bool { return f.naturalElem(q, elem, l.Idx) }) != nil
			r.Check(natural, "tables-natural", name+": tables are precalculated only for the domain of numbers", at, "the domain is not known to be that of the numbers")
			s.tables(r, name, st, at)
		})
		r.Check(n > 0, "setup-new", name+": successful paths", w.FuncPos(fn), "no successful path")
	}
	for fn := range setters {
		r.Check(seen[fn], "tables-set", "the tables are set only when a setup is made: "+fname(fn), w.FuncPos(fn), "the function sets the tables of a setup, but was not analysed in the context of making one")
	}
}

// pairLoops finds the pairs of complete loops over all pairs of positions which satisfy the condition for each pair of
// different ones
func (s *scheme) pairLoops(st *State, cond func(q *State, a, b *Term) bool) *Loop {
	f := s.f
	fit := func(q *State, l *Loop) bool {
		if l.Kind != "index" || l.Start == nil || l.Bound == nil || l.Step != 1 {
			return false
		}
		return f.wholeTable(q, s.sd, q.Resolve(l.Start), l.Bound, "Domain") || s.wholeRow(q, l)
	}
	for _, lo := range f.Loops() {
		if !f.loopEnded(st, lo) {
			continue
		}
		for _, li := range f.Loops() {
			if li == lo {
				continue
			}
			ok, k := true, 0
			f.AtBackEdges(lo, func(q *Point) {
				k++
				ok = ok && fit(q.St, lo) && f.loopEnded(q.St, li)
			})
			if !ok || k == 0 {
				continue
			}
			k = 0
			f.AtBackEdges(li, func(q *Point) {
				k++
				ok = ok && fit(q.St, li) && (q.St.EQ(lo.Idx, li.Idx) || cond(q.St, lo.Idx, li.Idx) || cond(q.St, li.Idx, lo.Idx))
			})
			if ok && k > 0 {
				return lo
			}
		}
	}
	return nil
}

// wholeRow: the loop runs over the whole of a row of a table of pairs
func (s *scheme) wholeRow(q *State, l *Loop) bool {
	f := s.f
	if n, ok := q.Resolve(l.Start).Int(); !ok || n != 0 {
		return false
	}
	b := q.Resolve(l.Bound)
	if b.Op != "len" {
		return false
	}
	x := b.Args[0]
	P := q.Resolve(f.field(s.sd, "precalc"))
	for _, t := range []string{"invsub", "ta", "tk"} {
		T := q.Resolve(f.field(P, t))
		if x == T {
			return s.isD(q, f.mkLen(T))
		}
		if x.Op == "idx" && x.Args[0] == T {
			return s.rowsWhole(q, T)
		}
	}
	return false
}

func (s *scheme) isD(q *State, n *Term) bool {
	f := s.f
	n = stripPos(q.Resolve(n))
	d := stripPos(q.Resolve(f.field(s.sd, "D")))
	return n == d || q.EQ(n, d) || n == stripPos(q.Resolve(f.mkLen(q.Resolve(f.field(s.sd, "Domain")))))
}

// rowsWhole: each row of the table was made with the size of the domain
func (s *scheme) rowsWhole(q *State, T *Term) bool {
	f := s.f
	for _, l := range f.Loops() {
		if l.Kind != "index" || l.Step != 1 || l.Start == nil || !f.loopEnded(q, l) {
			continue
		}
		ok, k := true, 0
		f.AtBackEdges(l, func(p *Point) {
			k++
			if z, isC := p.St.Resolve(l.Start).Int(); !isC || z != 0 || !s.isD(p.St, l.Bound) && p.St.Resolve(l.Bound) != f.mkLen(T) {
				ok = false
				return
			}
			found := false
			for _, e := range p.St.Events("slot") {
				if e.Args[0] == T {
					v := p.St.Resolve(e.Args[2])
					found = e.Args[1] == l.Idx && v.Op == "makeslice" && s.isD(p.St, f.mkLen(v))
				}
			}
			ok = ok && found
		})
		if ok && k > 0 {
			return true
		}
	}
	return false
}

// stored: the value of the scalar which was put into the slot of the table
func (s *scheme) stored(q *State, T, i *Term) *Term {
	for _, e := range q.Events("kslot") {
		if e.Args[0] == T && e.Args[1] == i {
			return s.f.kval(q, e.Args[2])
		}
	}
	return nil
}

func (s *scheme) tables(r *Report, name string, st *State, at string) {
	f := s.f
	P := func(q *State, t string) *Term { return q.Resolve(f.field(q.Resolve(f.field(s.sd, "precalc")), t)) }
	num := func(q *State, a, b *Term) *Term {
		return f.ksub(f.intern("kint", "", nil, a), f.intern("kint", "", nil, b))
	}
	at0 := func(q *State, a, b *Term) *Term {
		n := stripPos(q.Resolve(f.field(s.sd, "D")))
		return f.plus(f.subT(f.sum(n, a), b), -1)
	}
	invDone := s.pairLoops(st, func(q *State, a, b *Term) bool {
		v := s.stored(q, P(q, "invsub"), at0(q, a, b))
		if v == nil {
			return false
		}
		return v == f.kinv(num(q, a, b)) || v == f.kinv(f.ksub(f.kval(q, s.tab(q, "Domain", a)), f.kval(q, s.tab(q, "Domain", b))))
	})
	r.Check(invDone != nil, "tables-invsub", name+": the table of inverted differences holds 1/(a-b) for each pair", at, "no complete loops over the pairs of positions put the inverted difference of both into the slot in which it is looked up")
	apr := func(q *State) bool {
		return f.tableLoop(q, s.sd, "AprimeDomainI", 0, func(p *State, l *Loop, elem *Term) bool { return hasComputed(p, elem) }) != nil
	}
	taDone := s.pairLoops(st, func(q *State, a, b *Term) bool {
		row := q.Resolve(f.mkIdx(P(q, "ta"), a, nil))
		v := s.stored(q, row, b)
		if v == nil || !apr(q) || invDone == nil || !f.loopEnded(q, invDone) {
			return false
		}
		for _, x := range []*Term{f.mkIdx(P(q, "invsub"), at0(q, a, b), nil), f.kinv(num(q, a, b)), f.kinv(f.ksub(f.kval(q, s.tab(q, "Domain", a)), f.kval(q, s.tab(q, "Domain", b))))} {
			if v == f.kmul(x, f.kval(q, s.tab(q, "AprimeDomainI", a)), f.kinv(f.kval(q, s.tab(q, "AprimeDomainI", b)))) {
				return true
			}
		}
		return false
	})
	r.Check(taDone != nil, "tables-ta", name+": the table of coefficients holds A'(a)/A'(b)/(a-b) for each pair", at, "no complete loops over the pairs of positions, after the tables used are complete, put the coefficient into the slot in which it is looked up")
	T := P(st, "tk")
	ok := false
	for _, l := range f.Loops() {
		if l.Kind != "index" || l.Step != 1 || !f.loopEnded(st, l) {
			continue
		}
		all, k := true, 0
		f.AtBackEdges(l, func(p *Point) {
			q := p.St
			k++
			if !f.wholeTable(q, s.sd, q.Resolve(l.Start), l.Bound, "Domain") && !s.wholeRow(q, l) || taDone == nil || !f.loopEnded(q, taDone) {
				all = false
				return
			}
			var cell *Term
			for _, e := range q.Events("kslot") {
				if e.Args[0] == T && e.Args[1] == l.Idx {
					cell = f.kcell(q, e.Args[2])
				}
			}
			if cell == nil {
				all = false
				return
			}
			done := false
			for _, in := range f.foldLoop(func(*State) *Term { return cell }, 0, func(*State, *Term, *Term) bool { return true }, nil,
				func(x *State, in *Loop) bool { return x.EQ(in.Idx, l.Idx) }, func(x *State, in *Loop, acc, v *Term) bool {
					if !f.wholeTable(x, s.sd, x.Resolve(in.Start), in.Bound, "Domain") && !s.wholeRow(x, in) {
						return false
					}
					return v == f.kadd(acc, f.mkIdx(x.Resolve(f.mkIdx(P(x, "ta"), l.Idx, nil)), in.Idx, nil))
				}) {
				done = done || f.loopEnded(q, in)
			}
			all = all && done
		})
		ok = ok || all && k > 0
	}
	r.Check(ok, "tables-tk", name+": the table of sums holds for each position the sum of its coefficients", at, "no complete loop over the positions, after the table of coefficients is complete, puts their sum into the slot in which it is looked up")
}

// schemeVerify: the verifier accepts if and only if the pairing equation of the scheme holds
func (r *Report) schemeVerify() {
	w := r.W
	fn := w.Must("kzg", "TrustedSetup.verify")
	f := r.Flow(fn, FlowOpt{Transfer: curveTrace, Split: splitAll})
	sd, c, pi, v, at := f.Param(0), f.Param(1), f.Param(2), f.Param(3), f.Param(4)
	equation := func(st *State, a, b *Term) bool {
		if a.Op != "kpair" || b.Op != "kpair" {
			return false
		}
		d := a.Args[1]
		if a.Args[0] != pi || d.Op != "idx" || d.Args[0] != st.Resolve(f.field(sd, "Diff2")) || stripWide(st.Resolve(d.Args[1])) != at {
			return false
		}
		return b.Args[1] == f.kbase("G2") && b.Args[0] == f.ksub(c, f.kpm(v, f.kbase("G1")))
	}
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		n++
		st := e.P.St
		res := st.Resolve(e.Results[0])
		ok := false
		for _, x := range st.Events("compared") {
			a, b := f.kval(st, x.Args[0]), x.Args[1]
			if !equation(st, a, b) && !equation(st, b, a) {
				continue
			}
			known := st.Eval(x.Args[2])
			ok = ok || res == x.Args[2] || known != 0 && known == st.Eval(res)
		}
		if st.False(res) && (st.LE(f.mkLen(f.field(sd, "Diff2")), at, 0) || st.LE(at, f.constInt(-1, nil), 0)) {
			ok = true
		}
		r.Check(ok, "verify", "the verifier compares e(proof, [s-d]2) with e(C-[v]1, [1]2)", e.P.Where(), "the result %s is not the comparison of the two pairings", res)
	})
	r.Check(n > 0, "verify", "results of verify", w.FuncPos(fn), "no result")
}
