package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values of scalars and points. The objects of the group library are mutable: an operation overwrites its receiver with
// a function of the arguments. The flow records for each object the expression of its value ("kval" events). Expressions
// are in a normal form up to the laws of commutative groups and fields, without the distributive one.

var curveOps = map[string]bool{"Set": true, "Zero": true, "One": true, "Null": true, "SetInt64": true, "Add": true, "Sub": true, "Neg": true,
	"Mul": true, "Div": true, "Inv": true, "Base": true, "Pick": true, "SetBytes": true, "Embed": true}

// curveCall: calls of the group library, by the last part of the name
func curveCall(t *Term, method string) bool {
	n := t.CallName()
	return n != "" && strings.HasPrefix(n, "kyber.") && strings.HasSuffix(n, "."+method)
}

func curveMethod(t *Term) string {
	n := t.CallName()
	if n == "" || !strings.HasPrefix(n, "kyber.") {
		return ""
	}
	return n[strings.LastIndexByte(n, '.')+1:]
}

// kcell is the object: operations return their receiver
func (f *Flow) kcell(st *State, t *Term) *Term {
	for i := 0; i < 10; i++ {
		t = st.Resolve(t)
		switch {
		case curveOps[curveMethod(t)]:
			t = t.Args[0]
		case t.Op == "iface" || t.Op == "conv":
			t = t.Args[0]
		case t.Op == "idx" || t.Op == "ld":
			// the slot may hold another object, put there on the way
			if t.Op == "idx" {
				if v := f.slotValue(st, t); v != nil {
					t = v
					continue
				}
			}
			return t
		case t.Op == "phi":
			b := f.phiCell(t)
			if b == nil {
				return t
			}
			t = b
		default:
			return t
		}
	}
	return t
}

// phiCell: the one object which a variable refers to, as operations return their receiver
func (f *Flow) phiCell(t *Term) *Term {
	ph, ok := t.V.(*ssa.Phi)
	if !ok || t.Ctx == nil || !curveT(ph.Type().String()) {
		return nil
	}
	var r *Term
	for _, e := range ph.Edges {
		x := f.term(t.Ctx, e)
		for x.Op == "call" && curveOps[curveMethod(x)] {
			x = x.Args[0]
		}
		if x == t {
			continue
		}
		if r != nil && r != x {
			return nil
		}
		r = x
	}
	if r == nil || r.Op != "call" {
		return nil
	}
	return r
}

// slotValue: what was stored last in the slot
func (f *Flow) slotValue(st *State, t *Term) *Term {
	for _, e := range st.Events("kslot") {
		if e.Args[0] == t.Args[0] && e.Args[1] == t.Args[1] {
			return e.Args[2]
		}
	}
	return nil
}

// kval is the expression of the value of the object
func (f *Flow) kval(st *State, t *Term) *Term {
	if t.IsNil() {
		return t
	}
	c := f.kcell(st, t)
	for _, e := range st.Events("kval") {
		if e.Args[0] == c {
			return e.Args[1]
		}
	}
	// the constants of a setup are not modified after they are made (C21)
	switch {
	case selOf(c, "ZeroG1"):
		return f.kint(0)
	case selOf(c, "OneG1"):
		return f.kint(1)
	}
	return c
}

func (f *Flow) kknown(st *State, t *Term) bool {
	c := f.kcell(st, t)
	for _, e := range st.Events("kval") {
		if e.Args[0] == c {
			return true
		}
	}
	return false
}

func (f *Flow) kint(n int64) *Term { return f.intern("kint", "", nil, f.constInt(n, nil)) }

func isKint(t *Term, n int64) bool {
	if t.Op != "kint" {
		return false
	}
	v, ok := t.Args[0].Int()
	return ok && v == n
}

func (f *Flow) kflat(op string, unit int64, args []*Term) *Term {
	var l []*Term
	for _, a := range args {
		if a.Op == op {
			l = append(l, a.Args...)
		} else if !isKint(a, unit) {
			l = append(l, a)
		}
	}
	switch len(l) {
	case 0:
		return f.kint(unit)
	case 1:
		return l[0]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return f.intern(op, "", nil, l...)
}

func (f *Flow) kadd(args ...*Term) *Term { return f.kflat("kadd", 0, args) }

func (f *Flow) kneg(a *Term) *Term {
	switch a.Op {
	case "kneg":
		return a.Args[0]
	case "kadd":
		var l []*Term
		for _, x := range a.Args {
			l = append(l, f.kneg(x))
		}
		return f.kadd(l...)
	}
	if isKint(a, 0) {
		return a
	}
	return f.intern("kneg", "", nil, a)
}

func (f *Flow) ksub(a, b *Term) *Term { return f.kadd(a, f.kneg(b)) }

func (f *Flow) kmul(args ...*Term) *Term {
	for _, a := range args {
		if isKint(a, 0) {
			return a
		}
	}
	return f.kflat("kmul", 1, args)
}

func (f *Flow) kinv(a *Term) *Term {
	switch a.Op {
	case "kinv":
		return a.Args[0]
	case "kmul":
		var l []*Term
		for _, x := range a.Args {
			l = append(l, f.kinv(x))
		}
		return f.kmul(l...)
	}
	if isKint(a, 1) {
		return a
	}
	return f.intern("kinv", "", nil, a)
}

func (f *Flow) kpm(s, p *Term) *Term {
	if isKint(s, 0) {
		return s
	}
	return f.intern("kpm", "", nil, s, p)
}

func (f *Flow) kbase(group string) *Term { return f.intern("kbase", group, nil) }

// group of a point made on the way
func (f *Flow) kgroup(st *State, c *Term) string {
	if c.CallName() == "kyber.Group.Point" && len(c.Args) > 0 {
		n := st.Resolve(c.Args[0]).CallName()
		return n[strings.LastIndexByte(n, '.')+1:]
	}
	return "?"
}

// curveTrace records the values of scalars and points in addition to what trace records
func curveTrace(p *Point) {
	trace(p)
	f, st := p.F, p.St
	switch in := p.Instr.(type) {
	case *ssa.Store:
		if a := p.T(in.Addr); a.Op == "ia" && curveT(in.Val.Type().String()) {
			b, i := st.Resolve(a.Args[0]), st.Resolve(a.Args[1])
			v := st.Resolve(in0(f, p, in))
			for _, e := range st.Events("kslot") {
				if e.Args[0] == b {
					st.DelEvent(e)
				}
			}
			st.AddEvent("kslot", b, i, v)
		}
		return
	case *ssa.Call:
		c := in.Common()
		if _, isB := c.Value.(*ssa.Builtin); isB || f.child(p.Ctx, in, c) != nil {
			return
		}
		t := f.term(p.Ctx, in)
		n := t.CallName()
		if strings.HasSuffix(n, "bn256.Suite).Pair") && len(t.Args) == 3 {
			f.kwrite(st, t, f.intern("kpair", "", nil, f.kval(st, t.Args[1]), f.kval(st, t.Args[2])))
			return
		}
		m := curveMethod(t)
		if m == "" {
			// other functions may overwrite what they are given
			for _, a := range c.Args {
				x := f.term(p.Ctx, a)
				if curveT(a.Type().String()) {
					f.kwrite(st, f.kcell(st, x), f.intern("kfresh", "", nil, t))
				}
				for _, y := range f.literal(st, x) {
					if y.T != nil && curveT(y.T.String()) {
						f.kwrite(st, f.kcell(st, y), f.intern("kfresh", "", nil, t))
					}
				}
			}
			return
		}
		a := t.Args
		val := func(i int) *Term { return f.kval(st, a[i]) }
		point := strings.HasPrefix(n, "kyber.Point.")
		var v *Term
		switch {
		case m == "Equal" && len(a) == 2:
			x, y := f.kcell(st, a[0]), f.kcell(st, a[1])
			st.AddEvent("compared", x, f.kval(st, y), t, y)
			st.AddEvent("compared", y, f.kval(st, x), t, x)
			return
		case m == "Clone" && len(a) == 1:
			f.kwrite(st, t, val(0))
			return
		case m == "UnmarshalFrom" || m == "UnmarshalBinary":
			v = f.intern("kfresh", "", nil, t)
		case !curveOps[m]:
			return
		case m == "Set" && len(a) == 2:
			v = val(1)
		case m == "Zero" || m == "Null":
			v = f.kint(0)
		case m == "One":
			v = f.kint(1)
		case m == "SetInt64" && len(a) == 2:
			v = f.intern("kint", "", nil, stripPos(st.Resolve(a[1])))
		case m == "Add" && len(a) == 3:
			v = f.kadd(val(1), val(2))
		case m == "Sub" && len(a) == 3:
			v = f.ksub(val(1), val(2))
		case m == "Neg" && len(a) == 2:
			v = f.kneg(val(1))
		case m == "Inv" && len(a) == 2:
			v = f.kinv(val(1))
		case m == "Div" && len(a) == 3:
			v = f.kmul(val(1), f.kinv(val(2)))
		case m == "Base":
			v = f.kbase(f.kgroup(st, f.kcell(st, a[0])))
		case m == "Mul" && len(a) == 3 && point:
			if st.Resolve(a[2]).IsNil() {
				v = f.kpm(val(1), f.kbase(f.kgroup(st, f.kcell(st, a[0]))))
			} else {
				v = f.kpm(val(1), val(2))
			}
		case m == "Mul" && len(a) == 3:
			v = f.kmul(val(1), val(2))
		default:
			v = f.intern("kfresh", "", nil, t)
		}
		f.kwrite(st, f.kcell(st, a[0]), v)
	}
}

func in0(f *Flow, p *Point, in *ssa.Store) *Term { return f.term(p.Ctx, in.Val) }

func curveT(s string) bool {
	return strings.HasSuffix(s, "kyber/v3.Scalar") || strings.HasSuffix(s, "kyber/v3.Point")
}

// kwrite: the object has the value
func (f *Flow) kwrite(st *State, c, v *Term) {
	same := func(x *Term) bool {
		return x == c || x.Op == "idx" && c.Op == "idx" && x.Args[0] == c.Args[0]
	}
	for _, e := range st.Events("kval") {
		if same(e.Args[0]) || e.Args[1].Any(same) {
			st.DelEvent(e)
		}
	}
	for _, e := range st.Events("compared") {
		if same(e.Args[0]) || e.Args[1].Any(same) || same(e.Args[3]) {
			st.DelEvent(e)
		}
	}
	st.AddEvent("kval", c, v)
	st.AddEvent("computed", c)
}

func hasComputed(st *State, c *Term) bool {
	for _, e := range st.Events("computed") {
		if e.Args[0] == c {
			return true
		}
	}
	return false
}

// foldLoop finds a loop in which the object is folded with the operation: it has the unit at the entry, and in each
// iteration it becomes step(value at the begin of the iteration, index), or is left alone if skip holds
//
// fit gets the first index and the one after the last
func (f *Flow) foldLoop(cell func(st *State) *Term, unit int64, fit func(q *State, lo, hi *Term) bool, step func(q *State, l *Loop, acc *Term) *Term, skip func(q *State, l *Loop) bool, stepIs ...func(q *State, l *Loop, acc, v *Term) bool) []*Loop {
	var r []*Loop
	for _, l := range f.Loops() {
		if l.Kind != "index" || l.Start == nil || l.Step != 1 && l.Step != -1 || l.Bound == nil {
			continue
		}
		ok, k, e := true, 0, 0 // k: iterations which are not skipped
		f.AtBackEdges(l, func(q *Point) {
			if !ok {
				return
			}
			lo, hi := q.St.Resolve(l.Start), q.St.Resolve(l.Bound)
			if l.Step < 0 {
				lo, hi = hi, f.plus(lo, 1)
			}
			c := cell(q.St)
			switch {
			case c == nil || !fit(q.St, lo, hi):
				ok = false
			case skip != nil && skip(q.St, l):
				ok = !f.kknown(q.St, c)
			case len(stepIs) > 0:
				k++
				ok = stepIs[0](q.St, l, c, f.kval(q.St, c))
			default:
				k++
				ok = f.kval(q.St, c) == step(q.St, l, c)
			}
		})
		if !ok || k == 0 {
			continue
		}
		f.AtEntry(l, func(q *Point) {
			e++
			c := cell(q.St)
			ok = ok && c != nil && isKint(f.kval(q.St, c), unit)
		})
		if ok && e > 0 {
			r = append(r, l)
		}
	}
	return r
}

// splitIdx: comparisons of loop indices with each other and with parameters, and of scalars which are not in a table
func splitIdx(a *Atom) bool {
	if a.Cond.Op == "eq0" {
		for t := range a.leaves() {
			if t.Op == "phi" {
				return true
			}
		}
	}
	if curveCall(a.Cond, "Equal") {
		for t := range a.leaves() {
			if t.Op == "phi" {
				return false
			}
		}
		return true
	}
	return false
}
