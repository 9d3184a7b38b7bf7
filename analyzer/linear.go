package main

import (
	"golang.org/x/tools/go/ssa"
)

// linear consequences: the linear facts of a state, with the bounds of their atoms, are closed under elimination of
// atoms (a relational domain of linear inequalities over the integers)

type linSys struct {
	st  *State
	f   *Flow
	cs  []*Lin // each: <= 0
	ne  []*Lin // each: != 0
	has map[string]bool
}

func (s *linSys) add(l *Lin) {
	l = tighten(l)
	k := l.key()
	if s.has[k] || len(l.M) == 0 && l.C <= 0 {
		return
	}
	s.has[k] = true
	s.cs = append(s.cs, l)
}

// tighten divides by the common divisor of the coefficients, rounding the constant
func tighten(l *Lin) *Lin {
	var g int64
	for _, m := range l.M {
		g = gcd(g, m.K)
	}
	if g <= 1 {
		return l
	}
	n := &Lin{}
	for _, m := range l.M {
		x := m
		x.K /= g
		n.M = append(n.M, x)
	}
	// sum <= -C  =>  sum/g <= floor(-C/g)
	c := -l.C
	q := c / g
	if c%g != 0 && c < 0 {
		q--
	}
	n.C = -q
	return n
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// atom adds what is known about an atom by its construction
func (s *linSys) atom(t *Term) {
	f, st := s.f, s.st
	if b, ok := st.lowerBound(t); ok {
		s.add(linAdd(&Lin{C: b}, f.toLin(t), -1))
	}
	if b, ok := st.upperBound(t); ok {
		s.add(linAdd(f.toLin(t), &Lin{C: b}, -1))
	}
	switch t.Op {
	case "phi":
		for _, d := range f.monotone(t) {
			e := f.toLin(st.Resolve(d.init))
			if d.up {
				s.add(linAdd(e, f.toLin(t), -1))
			} else {
				s.add(linAdd(f.toLin(t), e, -1))
			}
		}
		for _, l := range f.together(st, t) {
			s.add(l)
			s.add(linScale(l, -1))
		}
	case "bin":
		if len(t.Args) != 2 {
			return
		}
		a := f.toLin(t.Args[0])
		c, ok := t.Args[1].Int()
		if !ok || c <= 0 {
			return
		}
		switch t.Name {
		case "/": // of a non-negative number: c*q <= a <= c*q+c-1
			if st.proves(linScale(a, -1), 2) {
				s.add(linAdd(linScale(f.toLin(t), c), a, -1))
				s.add(linAdd(linAdd(a, f.toLin(t), -c), &Lin{C: c - 1}, -1))
			}
		case ">>":
			if c < 31 && st.proves(linScale(a, -1), 2) {
				c = 1 << uint(c)
				s.add(linAdd(linScale(f.toLin(t), c), a, -1))
				s.add(linAdd(linAdd(a, f.toLin(t), -c), &Lin{C: c - 1}, -1))
			}
		case "%":
			if st.proves(linScale(a, -1), 2) {
				s.add(linScale(f.toLin(t), -1))
				s.add(linAdd(f.toLin(t), &Lin{C: c - 1}, -1))
				s.add(linAdd(f.toLin(t), a, -1))
			}
		}
	case "conv":
		// keeps the value if it is in the range of the type
		if t.T == nil || !isInt(t.T) {
			return
		}
		if lo, hi, ok := intRange(t.T); ok && isInt(t.Args[0].T) {
			a := f.toLin(t.Args[0])
			if st.proves(linAdd(&Lin{C: lo}, a, -1), 2) && st.proves(linAdd(a, &Lin{C: hi}, -1), 2) {
				s.add(linAdd(a, f.toLin(t), -1))
				s.add(linAdd(f.toLin(t), a, -1))
			}
		}
	}
}

type monotone struct {
	init *Term
	up   bool
}

// monotone: a counter which starts from init and only grows, or only shrinks
func (f *Flow) monotone(t *Term) []monotone {
	ph, ok := t.V.(*ssa.Phi)
	if !ok {
		return nil
	}
	up, down := true, true
	var inits []*Term
	for _, e := range ph.Edges {
		et := f.term(t.Ctx, e)
		if et == t {
			continue
		}
		self := false
		if et.Op == "lin" {
			min, max := et.Lin.C, et.Lin.C
			bounded := true
			for _, m := range et.Lin.M {
				switch {
				case m.T == t && m.K == 1:
					self = true
				case m.T == t:
					bounded = false
				case m.K > 0 && (m.T.Op == "len" || isUnsigned(m.T)):
					max = 1 << 40
				case m.K < 0 && (m.T.Op == "len" || isUnsigned(m.T)):
					min = -1 << 40
				default:
					bounded = false
				}
			}
			if self {
				up = up && bounded && min >= 0
				down = down && bounded && max <= 0
			}
		}
		if !self {
			if et.Leaves()[t] {
				return nil
			}
			inits = append(inits, et)
		}
	}
	if len(inits) != 1 {
		// several starting points: only constants are compared
		var lo, hi int64
		for i, x := range inits {
			c, ok := x.Int()
			if !ok {
				return nil
			}
			if i == 0 || c < lo {
				lo = c
			}
			if i == 0 || c > hi {
				hi = c
			}
		}
		if len(inits) == 0 {
			return nil
		}
		var r []monotone
		if up {
			r = append(r, monotone{f.constInt(lo, nil), true})
		}
		if down {
			r = append(r, monotone{f.constInt(hi, nil), false})
		}
		return r
	}
	var r []monotone
	if up {
		r = append(r, monotone{inits[0], true})
	}
	if down {
		r = append(r, monotone{inits[0], false})
	}
	return r
}

// system of what is known about the atoms of the linear forms
func (st *State) system(goals ...*Lin) *linSys {
	f := st.f
	s := &linSys{st: st, f: f, has: map[string]bool{}}
	atoms := map[*Term]bool{}
	var todo []*Term
	note := func(l *Lin) {
		for _, m := range l.M {
			if !atoms[m.T] {
				atoms[m.T] = true
				todo = append(todo, m.T)
			}
		}
	}
	for _, g := range goals {
		note(g)
	}
	type fact struct {
		ls []*Lin
		ne bool
	}
	var facts []fact
	res := func(l *Lin) *Lin { return f.toLin(st.Resolve(f.fromLin(l, nil))) }
	for _, a := range st.Conds() {
		switch {
		case a.Cond.Op == "le0":
			l := res(a.Cond.Args[0].Lin)
			if !a.Pos {
				l = linAdd(&Lin{C: 1}, l, -1)
			}
			facts = append(facts, fact{ls: []*Lin{l}})
		case a.Cond.Op == "eq0":
			l := res(a.Cond.Args[0].Lin)
			if a.Pos {
				facts = append(facts, fact{ls: []*Lin{l, linScale(l, -1)}})
			} else {
				facts = append(facts, fact{ls: []*Lin{l}, ne: true})
			}
		case a.Pos && a.Cond.CallName() == "bytes.HasPrefix":
			x, y := st.Resolve(a.Cond.Args[0]), st.Resolve(a.Cond.Args[1])
			facts = append(facts, fact{ls: []*Lin{linAdd(f.toLin(f.mkLen(y)), f.toLin(f.mkLen(x)), -1)}})
		case a.Pos && a.Cond.CallName() == "bytes.Equal":
			x, y := st.Resolve(a.Cond.Args[0]), st.Resolve(a.Cond.Args[1])
			l := linAdd(f.toLin(f.mkLen(y)), f.toLin(f.mkLen(x)), -1)
			facts = append(facts, fact{ls: []*Lin{l, linScale(l, -1)}})
		}
	}
	used := make([]bool, len(facts))
	for round := 0; round < 4; round++ {
		for len(todo) > 0 {
			t := todo[0]
			todo = todo[1:]
			n := len(s.cs)
			s.atom(t)
			for _, l := range s.cs[n:] {
				note(l)
			}
			if len(atoms) > 24 {
				break
			}
		}
		for i, x := range facts {
			if used[i] {
				continue
			}
			rel := false
			for _, m := range x.ls[0].M {
				rel = rel || atoms[m.T]
			}
			if !rel {
				continue
			}
			used[i] = true
			for _, l := range x.ls {
				if x.ne {
					s.ne = append(s.ne, l)
				} else {
					s.add(l)
				}
				note(l)
			}
		}
		if len(todo) == 0 {
			break
		}
	}
	return s
}

// proves: the facts imply l <= 0
func (st *State) proves(l *Lin, depth int) bool {
	if st.EntailsLE(l) {
		return true
	}
	if depth == 0 || st.f.proving > 2 {
		return false
	}
	st.f.proving++
	defer func() { st.f.proving-- }()
	l = st.f.toLin(st.Resolve(st.f.fromLin(l, nil)))
	s := st.system(l)
	return s.implies(l)
}

func (s *linSys) implies(l *Lin) bool {
	not := linAdd(&Lin{C: 1}, l, -1) // l >= 1
	if infeasible(append(append([]*Lin{}, s.cs...), not)) {
		return true
	}
	// what is different from zero and not above is below, and the other way round
	for round := 0; round < 2; round++ {
		ch := false
		var rest []*Lin
		for _, n := range s.ne {
			switch {
			case infeasible(append(append([]*Lin{}, s.cs...), linAdd(&Lin{C: 1}, n, -1))):
				s.add(linAdd(n, &Lin{C: 1}, 1))
				ch = true
			case infeasible(append(append([]*Lin{}, s.cs...), linAdd(n, &Lin{C: 1}, 1))):
				s.add(linAdd(&Lin{C: 1}, n, -1))
				ch = true
			default:
				rest = append(rest, n)
			}
		}
		s.ne = rest
		if !ch {
			break
		}
		if infeasible(append(append([]*Lin{}, s.cs...), not)) {
			return true
		}
	}
	return false
}

// contradictory: the linear facts cannot hold together
func (st *State) contradictory() bool {
	var all []*Lin
	for _, a := range st.Conds() {
		if a.Cond.Op == "le0" || a.Cond.Op == "eq0" {
			all = append(all, st.f.toLin(st.Resolve(a.Cond.Args[0])))
		}
	}
	for _, l := range all {
		if len(l.M) == 0 {
			continue
		}
		s := st.system(l)
		if s.implies(&Lin{C: 1}) {
			return true
		}
	}
	return false
}

// infeasible: elimination of one atom after the other leaves a contradiction
func infeasible(cs []*Lin) bool {
	for step := 0; step < 30; step++ {
		var live []*Lin
		cnt := map[*Term][2]int{}
		for _, l := range cs {
			if len(l.M) == 0 {
				if l.C > 0 {
					return true
				}
				continue
			}
			live = append(live, l)
			for _, m := range l.M {
				c := cnt[m.T]
				if m.K > 0 {
					c[0]++
				} else {
					c[1]++
				}
				cnt[m.T] = c
			}
		}
		if len(live) == 0 {
			return false
		}
		// the atom which makes the fewest new constraints
		var best *Term
		bc := 0
		for t, c := range cnt {
			k := c[0]*c[1] - c[0] - c[1]
			if best == nil || k < bc || k == bc && t.ID < best.ID {
				best, bc = t, k
			}
		}
		var pos, neg, rest []*Lin
		for _, l := range live {
			switch k := coef(l, best); {
			case k > 0:
				pos = append(pos, l)
			case k < 0:
				neg = append(neg, l)
			default:
				rest = append(rest, l)
			}
		}
		if len(pos)*len(neg) > 600 {
			return false
		}
		seen := map[string]bool{}
		var next []*Lin
		put := func(l *Lin) {
			for _, m := range l.M {
				if m.K > 1<<20 || m.K < -1<<20 {
					return
				}
			}
			l = tighten(l)
			if k := l.key(); !seen[k] {
				seen[k] = true
				next = append(next, l)
			}
		}
		for _, l := range rest {
			put(l)
		}
		for _, p := range pos {
			for _, n := range neg {
				a, b := coef(p, best), -coef(n, best)
				g := gcd(a, b)
				put(linAdd(linScale(p, b/g), n, a/g))
			}
		}
		cs = next
	}
	return false
}

func coef(l *Lin, t *Term) int64 {
	for _, m := range l.M {
		if m.T == t {
			return m.K
		}
	}
	return 0
}

// together: counters of the same loop which are advanced by constant steps. Each form is zero.
func (f *Flow) together(st *State, t *Term) (r []*Lin) {
	ph, ok := t.V.(*ssa.Phi)
	if !ok || !f.isLoopHead(ph.Block()) {
		return nil
	}
	start, step, ok := f.steps(st, t.Ctx, ph)
	if !ok {
		return nil
	}
	for _, in := range ph.Block().Instrs {
		o, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if o == ph || !isInt(o.Type()) {
			continue
		}
		if b, s2, ok := f.steps(st, t.Ctx, o); ok {
			// (t-start)*s2 == (o-b)*step
			l := linScale(linAdd(f.toLin(t), start, -1), s2)
			r = append(r, linAdd(l, linAdd(f.toLin(f.term(t.Ctx, o)), b, -1), -step))
		}
	}
	return r
}

// steps: the counter starts with a value and a constant is added in each iteration
func (f *Flow) steps(st *State, ctx *Ctx, ph *ssa.Phi) (start *Lin, step int64, ok bool) {
	t := f.term(ctx, ph)
	head := ph.Block()
	for i, e := range ph.Edges {
		et := f.term(ctx, e)
		if head.Dominates(head.Preds[i]) {
			d := linAdd(f.toLin(st.Resolve(et)), f.toLin(t), -1)
			if len(d.M) != 0 || d.C == 0 || step != 0 && step != d.C {
				return nil, 0, false
			}
			step = d.C
		} else {
			l := f.toLin(st.Resolve(et))
			if start != nil && start.key() != l.key() {
				return nil, 0, false
			}
			start = l
		}
	}
	return start, step, start != nil && step != 0
}
