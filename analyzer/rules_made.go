package main

// unpackForm: the unpacked key is all of the key, unpacked for the arity
func (r *Report) unpackForm(ps []arityPack) {
	w := r.W
	fn := w.Must("trie", "UnpackBytes")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: byName(fnUnpack16, fnUnpack2)})
	src, ar := f.Param(0), f.Param(1)
	kinds := map[string]int{}
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		res := st.Resolve(e.Results[0])
		if st.EQ(f.mkLen(src), f.constInt(0, nil)) && emptyBytes(f, st, res) {
			return
		}
		for _, p := range ps {
			if !st.EQ(ar, f.constInt(p.value, nil)) {
				continue
			}
			kinds[p.name]++
			ok := res.CallName() == p.unpack && len(res.Args) == 2 && emptyBytes(f, st, st.Resolve(res.Args[0])) && f.isSlice(st, res.Args[1], src, f.constInt(0, nil), f.mkLen(src))
			r.Check(ok, "unpacked", "the key is unpacked as a whole for arity "+p.name, at, "it is %s", res)
			return
		}
		kinds["256"]++
		ok := f.isCopyOf(st, res, src) || f.isSlice(st, res, src, f.constInt(0, nil), f.mkLen(src))
		r.Check(ok, "unpacked", "for arity 256 the key is not changed", at, "it is %s", res)
	})
	for _, k := range []string{"16", "2", "256"} {
		r.Check(kinds[k] > 0, "unpacked", "case "+k, w.FuncPos(fn), "no path was found")
	}
}

// freshTargets: the commitments which are read into exist, and are of the configured size
func (r *Report) freshTargets() {
	w := r.W
	for _, pkg := range []string{"b2", "kzg"} {
		for _, name := range []string{"NewVectorCommitment", "NewTerminalCommitment"} {
			fn := w.Must(pkg, "CommitmentModel."+name)
			f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll})
			n := 0
			f.Visit(nil, func(e *Exit) {
				if e.Kind != "return" {
					return
				}
				n++
				st, at := e.P.St, e.P.Where()
				v := unIface(st, e.Results[0])
				r.Check(freshObject(v), "fresh-target", "result of "+fname(fn), at, "the result is %s", v)
				if pkg == "b2" && name == "NewVectorCommitment" {
					r.Check(st.EQ(f.mkLen(v), f.field(f.Param(0), "hashSize")), "fresh-target", "size of the result of "+fname(fn), at, "its length is %s", f.mkLen(v))
				}
				if pkg == "kzg" {
					field := "Point"
					if name == "NewTerminalCommitment" {
						field = "Scalar"
					}
					x := st.Resolve(f.field(v, field))
					r.Check(!x.IsNil() && x.Op != "zero" && x.Op != "const" && !x.Contains(v), "fresh-target", "element of the result of "+fname(fn), at, "it is %s", x)
				}
			})
			r.Check(n > 0, "fresh-target", "result of "+fname(fn), w.FuncPos(fn), "it never returns")
		}
	}
}

// freshObject: something which was made here
func freshObject(v *Term) bool {
	switch v.Op {
	case "makeslice", "alloc", "new", "arr":
		return true
	case "slice", "conv":
		return freshObject(v.Args[0])
	}
	return false
}

// modelMade: a model has the parameters it is made with
func (r *Report) modelMade() {
	w := r.W
	fn := w.Must("b2", "New")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll})
	opt := f.Param(2)
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		n++
		st, at := e.P.St, e.P.Where()
		m := unIface(st, e.Results[0])
		r.Check(freshObject(m), "model-made", "a model is made", at, "the result is %s", m)
		for i, name := range []string{"arity", "hashSize"} {
			v := st.Resolve(f.field(m, name))
			r.Check(v == f.Param(i), "model-made", name+" of the model", at, "it is %s", v)
		}
		t := st.Resolve(f.field(m, "valueSizeOptimizationThreshold"))
		given := st.Resolve(f.mkIdx(opt, f.constInt(0, nil), nil))
		ok := t == given || st.EQ(t, given)
		if !ok && st.EQ(f.mkLen(opt), f.constInt(0, nil)) {
			ok = st.EQ(t, f.constInt(0, nil))
		}
		r.Check(ok, "model-made", "threshold of the model", at, "it is %s", t)
	})
	r.Check(n > 1, "model-made", "result of "+fname(fn), w.FuncPos(fn), "it never returns")
}
