package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C05"] = checkDef{run: runC05,
		explanation: "Data-flow analysis with value numbering of scalars and points of ProofOfInclusion.Validate (verification of one opening inlined): at every accepting return the indices of the path elements whose opening is known to hold are collected from the loops which lead there and must cover the whole path; each opening counts only if the pairing equation is the one of the scheme for the commitment, the proof and the index of the element, the index is a child index for all elements but the last and the terminal index for the last, and the value opened is the hash of the commitment of the next element or the terminal of the proof. The first commitment is compared with the root, the terminal with the commitment to the value, and the path is not empty.",
		assumptions: []string{"binding of KZG commitments (discrete logarithm assumptions of the group), collision resistance of blake2b", "the group library computes what its operations are called"}}
}

// opening is a pairing equation known to hold
type opening struct {
	E, x  *Term // the element and its index in the path
	value *Term // cell of the value
	why   string
}

// openings which are known to hold for elements of the path
func (f *Flow) openings(st *State, path *Term) []*opening {
	var r []*opening
	seen := map[*Term]bool{}
	for _, e := range st.Events("compared") {
		if seen[e.Args[2]] || !st.True(e.Args[2]) {
			continue
		}
		seen[e.Args[2]] = true
		a, b := f.kval(st, e.Args[0]), e.Args[1]
		if a.Op != "kpair" || b.Op != "kpair" {
			continue
		}
		o := f.asOpening(st, a, b, path)
		if o.E == nil {
			o = f.asOpening(st, b, a, path)
		}
		r = append(r, o)
	}
	return r
}

// asOpening: pair(proof of E, Diff2[index of E]) == pair(C of E - v*G1, G2)
func (f *Flow) asOpening(st *State, a, b, path *Term) *opening {
	o := &opening{}
	pi, d := a.Args[0], a.Args[1]
	if pi.Op != "sel" || pi.Name != "Proof" || pi.Args[0].Op != "idx" || pi.Args[0].Args[0] != path {
		o.why = fmt.Sprintf("%s is not the proof of an element of the path", pi)
		return o
	}
	E := pi.Args[0]
	if d.Op != "idx" || d.Args[0].Op != "sel" || d.Args[0].Name != "Diff2" || !st.EQ(stripWide(st.Resolve(d.Args[1])), f.mkSel(E, "VectorIndex", nil)) {
		o.why = fmt.Sprintf("the proof is paired with %s", d)
		return o
	}
	if b.Args[1] != f.kbase("G2") {
		o.why = fmt.Sprintf("the commitment is paired with %s", b.Args[1])
		return o
	}
	C := f.mkSel(E, "C", nil)
	D := f.ksub(b.Args[0], C) // - v*G1
	D = f.kcancel(D)
	D = f.kneg(D)
	if D.Op != "kpm" || D.Args[1] != f.kbase("G1") {
		o.why = fmt.Sprintf("the value is paired as %s", b.Args[0])
		return o
	}
	o.E, o.x, o.value = E, E.Args[1], D.Args[0]
	return o
}

// stripWide removes conversions which keep every value
func stripWide(t *Term) *Term {
	for t.Op == "conv" && t.T != nil && t.Args[0].T != nil {
		lo, hi, ok := intRange(t.T)
		l, h, ok2 := intRange(t.Args[0].T)
		switch {
		case basicKind(t.T) == types.Int && ok2, ok && ok2 && lo <= l && h <= hi:
		default:
			return t
		}
		t = t.Args[0]
	}
	return t
}

// kcancel removes terms which cancel each other
func (f *Flow) kcancel(t *Term) *Term {
	if t.Op != "kadd" {
		return t
	}
	l := append([]*Term{}, t.Args...)
	for i := 0; i < len(l); i++ {
		for j := i + 1; j < len(l); j++ {
			if l[i] == f.kneg(l[j]) {
				l = append(append(append([]*Term{}, l[:i]...), l[i+1:j]...), l[j+1:]...)
				return f.kcancel(f.kadd(l...))
			}
		}
	}
	return t
}

func runC05(r *Report) {
	w := r.W
	fn := w.Must("kzg", "ProofOfInclusion.Validate")
	eq, ctd, sfp := w.Must("kzg", "equalCommitments"), w.Must("kzg", "commitToData"), w.Must("kzg", "scalarFromPoint")
	termIdx := int64(256)
	split := func(c *Term) bool {
		return c.Any(func(x *Term) bool {
			return x.Op == "param" && x.Name == fn.Params[2].Name() || x.Op == "sel" && (x.Name == "VectorIndex" || x.Name == "Path")
		}) && (c.Op == "eq0" || c.Op == "le0")
	}
	f := r.Flow(fn, FlowOpt{NoInline: noInline(eq, ctd, sfp), Transfer: curveTrace, Split: split})
	path := f.mkSel(f.Param(0), "Path", nil)
	lenP := f.mkLen(path)
	// the point given to the call
	unchanged := func(st *State, p, call *Term) *Term {
		v := f.kval(st, p)
		if v.Op == "kfresh" && v.Args[0] == call {
			return f.kcell(st, p)
		}
		return v
	}
	// one opening in the state: which element is verified
	element := func(st *State, at string, idx *Term) (*Term, string) {
		why := "no pairing equation of an element of the path is known to hold"
		for _, o := range f.openings(st, path) {
			if o.E == nil {
				why = o.why
				continue
			}
			if idx != nil && f.toLin(o.x) != nil {
				if d := linAdd(f.toLin(o.x), f.toLin(idx), -1); len(d.M) > 0 {
					continue
				}
			}
			vi := f.mkSel(o.E, "VectorIndex", nil)
			v := o.value
			last := st.Eval(f.eq0(linAdd(linAdd(f.toLin(o.x), f.toLin(lenP), -1), &Lin{C: 1}, 1)))
			if last == 0 && st.LE(lenP, o.x, 1) {
				last = 1
			}
			if last == 0 && st.LE(f.plus(o.x, 2), lenP, 0) {
				last = -1
			}
			next := f.mkSel(f.mkIdx(path, f.plus(o.x, 1), nil), "C", nil)
			if v.Op == "kfresh" {
				v = v.Args[0]
			}
			isNext := v.CallName() == fname(sfp) && len(v.Args) == 2 && unchanged(st, v.Args[1], v) == next
			isTerm := v == f.kval(st, f.mkSel(f.Param(0), "Terminal", nil))
			switch {
			case isNext && last == -1 && (st.LE(vi, f.constInt(termIdx, nil), -1) || st.LE(vi, f.constInt(termIdx, nil), 0) && st.NE(vi, f.constInt(termIdx, nil))):
				return o.x, ""
			case isTerm && last == 1 && st.EQ(vi, f.constInt(termIdx, nil)):
				return o.x, ""
			case isNext && last != -1:
				why = "the opening to the next element is not known to be of an element which is not the last one"
			case isNext:
				why = "the index of an element which is not the last one is not known to be the index of a child"
			case isTerm && last != 1:
				why = "the opening to the terminal is not known to be of the last element"
			case isTerm:
				why = "the index of the last element is not known to be the one of the terminal"
			default:
				why = fmt.Sprintf("the value opened is %s", v)
			}
			if debugC05 {
				fmt.Println("FAIL", at, why, last, st.Conds())
			}
		}
		return nil, why
	}
	// loops which verify an element in each iteration
	type ver struct {
		l   *Loop
		off int64
	}
	var vers []ver
	why := ""
	for _, l := range f.Loops() {
		if l.Kind != "index" || l.Start == nil || l.Ctx != f.ctxs[0] || l.Step != 1 && l.Step != -1 {
			continue
		}
		n, ok, off := 0, true, int64(0)
		f.AtBackEdges(l, func(q *Point) {
			x, y := element(q.St, q.Where(), l.Idx)
			if x == nil {
				ok, why = false, y+" in "+q.Where()
				return
			}
			d := linAdd(f.toLin(x), f.toLin(l.Idx), -1)
			if n > 0 && d.C != off {
				ok = false
			}
			off = d.C
			n++
		})
		if ok && n > 0 {
			vers = append(vers, ver{l, off})
		}
	}
	ei := errIndex(fn.Signature)
	if !r.Check(ei >= 0, "accepting-returns", fname(fn), w.FuncPos(fn), "the function returns no error") {
		return
	}
	accepts := 0
	usesKey := false
	value := f.Param(2)
	f.Visit(func(p *Point) {
		if v, ok := p.Instr.(ssa.Value); ok && !usesKey {
			t := f.term(p.Ctx, v)
			usesKey = t.Op == "sel" && t.Name == "Key" && t.Args[0] == f.Param(0)
		}
	}, func(e *Exit) {
		if e.Kind != "return" || e.P.St.nonNilIn(e.Results[ei]) {
			return
		}
		st, at := e.P.St, e.P.Where()
		accepts++
		r.Check(st.LE(f.constInt(1, nil), lenP, 0), "accept-not-empty", "a proof without elements is not accepted", at, "the path may be empty")
		// everything verified
		cur := f.constInt(0, nil)
		done := false
		for k := 0; k < 8 && !done; k++ {
			var nxt *Term
			for _, v := range vers {
				if !v.l.Head.Dominates(e.P.Instr.Block()) {
					continue
				}
				lo, hi := f.plus(st.Resolve(v.l.Start), v.off), f.plus(v.l.Idx, v.off)
				if v.l.Step < 0 {
					lo, hi = f.plus(v.l.Idx, v.off+1), f.plus(st.Resolve(v.l.Start), v.off+1)
				}
				if st.LE(lo, cur, 0) && st.LE(cur, hi, 0) && cur != hi {
					nxt = hi
				}
			}
			if nxt == nil {
				if x, y := element(st, at, nil); x != nil {
					if st.LE(x, cur, 0) {
						nxt = f.plus(x, 1)
					}
				} else if why == "" {
					why = y
				}
			}
			if nxt == nil {
				break
			}
			cur = nxt
			done = st.LE(lenP, cur, 0)
		}
		r.Check(done || st.LE(lenP, cur, 0), "accept-all-elements", "every element of the path opens its commitment to the next one", at, "only the elements below %s are known to be verified: %s", cur, why)
		// root
		same := func(a, b func(*Term) bool) bool {
			for _, c := range st.Conds() {
				t := c.Cond
				if c.Pos && t.CallName() == fname(eq) && len(t.Args) == 2 {
					if a(t.Args[0]) && b(t.Args[1]) || a(t.Args[1]) && b(t.Args[0]) {
						return true
					}
				}
				if c.Pos && curveCall(t, "Equal") {
					if a(t.Args[0]) && b(t.Args[1]) || a(t.Args[1]) && b(t.Args[0]) {
						return true
					}
				}
				if c.Pos && t.CallName() == "bytes.Equal" {
					x, y := bytesSource(t.Args[0]), bytesSource(t.Args[1])
					if a(x) && b(y) || a(y) && b(x) {
						return true
					}
				}
			}
			return false
		}
		wraps := func(field string, v *Term) func(*Term) bool {
			return func(x *Term) bool {
				x = unIface(st, x)
				if x == v {
					return true
				}
				if x.Op != "alloc" {
					return false
				}
				c := st.Resolve(f.mkSel(x, field, nil))
				if c == v {
					return true
				}
				for _, e := range st.Events("store") {
					if a := e.Args[0]; a.Op == "fa" && a.Args[0] == x && st.Resolve(e.Args[1]) == v {
						return true
					}
				}
				return false
			}
		}
		isRoot := func(x *Term) bool {
			x = unIface(st, x)
			for x.Op == "sel" && x.Name == "Point" || x.Op == "as" {
				x = x.Args[0]
			}
			return x == f.Param(1)
		}
		C0 := f.mkSel(f.mkIdx(path, f.constInt(0, nil), nil), "C", nil)
		r.Check(same(isRoot, wraps("Point", C0)), "accept-root", "the first commitment of the path is the root", at, "the commitment of the first element is not known to be equal to the root")
		if !st.EQ(f.mkLen(value), f.constInt(0, nil)) && !st.LE(f.mkLen(value), f.constInt(0, nil), 0) {
			v0 := f.mkIdx(value, f.constInt(0, nil), nil)
			isC := func(x *Term) bool {
				x = unIface(st, x)
				for x.Op == "sel" && x.Name == "Scalar" || x.Op == "as" {
					x = x.Args[0]
				}
				return (x.CallName() == fname(ctd) || strings.HasSuffix(x.CallName(), ".CommitToData")) && (x.Args[0] == v0 || len(x.Args) > 1 && x.Args[1] == v0)
			}
			r.Check(same(isC, wraps("Scalar", f.mkSel(f.Param(0), "Terminal", nil))), "accept-value", "the terminal commits to the value, if one is given", at, "the terminal of the proof is not known to be the commitment to the value")
		} else {
			r.OK("accept-value", "the terminal commits to the value, if one is given", at)
		}
	})
	r.Check(accepts > 0, "accepting-returns", fname(fn), w.FuncPos(fn), "no accepting return found")
	r.equalRule(eq)
	r.scalarOfBytes(sfp, 1, "the value which stands for a commitment is the hash of all of it")
	r.scalarOfBytes(ctd, 0, "the commitment to a value is the hash of all of it")
	r.Check(usesKey, "path-key", "the openings of the path bind the key of the proof", w.FuncPos(fn), "the key of the proof is not used by the validation")
}

// scalarOfBytes: the function makes a scalar of all bytes of what it is given
func (r *Report) scalarOfBytes(fn *ssa.Function, arg int, what string) {
	w := r.W
	f := r.Flow(fn, FlowOpt{Transfer: curveTrace, Split: splitAll})
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		in := f.Param(arg)
		if st.True(f.mkEq(in, f.constNil())) || st.EQ(f.mkLen(in), f.constInt(0, nil)) {
			r.OK("scalar-of-bytes", what, at)
			return
		}
		n++
		res := unIface(st, e.Results[0])
		if res.Op == "alloc" {
			res = st.Resolve(f.mkSel(res, "Scalar", nil))
		}
		v := f.kval(st, res)
		why := fmt.Sprintf("the scalar is %s", v)
		ok := false
		if v.Op == "kfresh" && curveCall(v.Args[0], "SetBytes") && len(v.Args[0].Args) == 2 {
			d := st.Resolve(v.Args[0].Args[1])
			for k := 0; k < 3; k++ {
				size, x, is := f.hashOf(st, d)
				if !is {
					break
				}
				if size < 32 {
					why = "the hash is shortened"
					break
				}
				d = x
				if d == in || d.Op == "res" && d.Name == "0" && strings.HasSuffix(d.Args[0].CallName(), ".MarshalBinary") && st.Resolve(d.Args[0].Args[0]) == in {
					ok = true
				}
			}
			if !ok {
				why = fmt.Sprintf("the bytes hashed are %s", d)
			}
		}
		r.Check(ok, "scalar-of-bytes", what, at, "%s", why)
	})
	r.Check(n > 0, "scalar-of-bytes", what, w.FuncPos(fn), "no scalar is returned")
}

const debugC05 = false

// bytesSource: the object serialized
func bytesSource(t *Term) *Term {
	if strings.HasSuffix(t.CallName(), ".Bytes") && len(t.Args) == 1 {
		return t.Args[0]
	}
	return t
}
