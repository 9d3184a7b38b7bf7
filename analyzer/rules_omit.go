package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C24"] = checkDef{run: runC24,
		explanation: "Path-sensitive analysis of the decision to omit the terminal of a node, of its reconstruction and of everything between. For each path of NodeData.Write and each path of NodeData.Read which can read what it wrote, the source of the terminal is determined: the stream, the commitment of the key, the commitment of a stored value. The boolean parameters of the writer which lead the reader to a source must, at each call of the writer, imply what makes the source valid: the terminal equals the commitment to the key of the node with its path fragment, or the model allows to omit it. The reader must derive it from the same key, with the same path fragment and arity, and fail without a value. The nodes of the store are read with the key, arity, model and value store they are written with.",
		assumptions: []string{"the value store holds, under each key, the value which was committed (the user updates both)", "equality of commitments and commitments to data are as C03 has them"}}
}

const (
	fnNodeWrite  = "(*trie.NodeData).Write"
	fnNodeRead   = "(*trie.NodeData).Read"
	fnPackKey    = "trie.PackUnpackedBytes"
	fnEncodeKey  = "trie.EncodeUnpackedBytes"
	fnUnpackKey  = "trie.UnpackBytes"
	fnConcatName = "trie.Concat"
)

func isKVReaderT(T types.Type) bool { return strings.HasSuffix(T.String(), "trie.KVReader") }

func methodOf(t *Term) string {
	n := t.CallName()
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

// paramsOf maps the parameters of a function of the given type
func paramOf(f *Flow, fn *ssa.Function, is func(T types.Type) bool) *Term {
	for i, q := range fn.Params {
		if is(q.Type()) {
			return f.Param(i)
		}
	}
	return nil
}

func isModelT(T types.Type) bool { return strings.HasSuffix(T.String(), "trie.CommitmentModel") }

// isFullKey: the key and the path fragment, nothing else
func (f *Flow) isFullKey(st *State, t *Term, isKey, isPF func(*Term) bool) bool {
	ps := f.concatParts(st, t)
	var r []*Term
	for _, p := range ps {
		r = append(r, bytesRootStr(st.Resolve(p)))
	}
	return len(r) == 2 && isKey(r[0]) && isPF(r[1])
}

func bytesRootStr(t *Term) *Term {
	for t.Op == "conv" && len(t.Args) == 1 && !isInt(t.T) {
		t = t.Args[0]
	}
	return t
}

func runC24(r *Report) {
	w := r.W
	wf, rf := w.Must("trie", "NodeData.Write"), w.Must("trie", "NodeData.Read")
	wp := &wirePair{r: r, writerFn: wf, readerFn: rf}
	we, re, _ := wp.paths()
	fw, fr := wp.W.f, wp.R.f
	arity := paramOf(fr, rf, isArityT)
	model := paramOf(fr, rf, isModelT)
	store := paramOf(fr, rf, isKVReaderT)
	var key *Term
	for i, q := range rf.Params {
		if isByteSlice(q.Type()) {
			key = fr.Param(i)
		}
	}
	if !r.Check(arity != nil && model != nil && store != nil && key != nil, "reader", "parameters of "+fname(rf), w.FuncPos(rf), "the reader does not take the model, key, arity and value store") {
		return
	}
	// the boolean parameters of the writer
	var flags []int
	for i, q := range wf.Params {
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			flags = append(flags, i)
		}
	}
	implies, prefers := w.omitCalls(r, wf, flags)
	n := map[string]int{}
	for _, x := range we {
		sw := x.P.St
		for _, y := range re {
			sr := y.P.St
			skip, m := wp.match(sw, sr, nil, nil, wireEnv{})
			if skip || m.why != "" {
				continue // C06
			}
			var t *Term
			for _, e := range sr.Events("fset") {
				if e.Args[0] == fr.mkFA(fr.Param(0), "Terminal", nil) {
					t = sr.Resolve(e.Args[1])
				}
			}
			if t == nil {
				continue // C06
			}
			if term := fw.field(fw.Param(0), "Terminal"); t.IsNil() && !sw.True(fw.mkEq(term, fw.constNil())) {
				// omitted, and neither reconstructed nor refused
				for _, i := range flags {
					if sw.True(fw.Param(i)) && (sw.NE(term, fw.constNil()) || sw.True(fw.mkNot(fw.mkEq(term, fw.constNil())))) {
						r.Bad("reconstructed", "omitted terminal in "+fname(rf), y.P.Where(), "the terminal is omitted because of %s and is absent after reading", wf.Params[i].Name())
					}
				}
			}
			kind, why := wp.source(sr, t, key, model, store, arity)
			if kind == "" {
				continue // from the stream or nil: C06
			}
			n[kind]++
			if !r.Check(why == "", "reconstructed", "terminal from the "+kind+" in "+fname(rf), y.P.Where(), "%s", why) {
				continue
			}
			if kind == "value" {
				// the commitment to the key goes first
				why := "the terminal may be the commitment to the key"
				for _, k := range flags {
					if implies["key"][k] != "" || !sw.False(fw.Param(k)) {
						continue
					}
					for _, i := range flags {
						if sw.True(fw.Param(i)) && implies["value"][i] == "" {
							why = prefers[[2]int{i, k}]
						}
					}
				}
				r.Check(why == "", "key-first", "terminal taken from the value", x.P.Where(), "the reader takes the terminal from the value: %s", why)
			}
			ok := false
			var has []string
			for _, i := range flags {
				if sw.True(fw.Param(i)) {
					has = append(has, wf.Params[i].Name())
					ok = ok || implies[kind][i] == ""
				}
			}
			why = "no parameter of the writer says so"
			for _, i := range flags {
				if len(has) > 0 && sw.True(fw.Param(i)) {
					why = implies[kind][i]
				}
			}
			r.Check(ok, "omitted", "terminal taken from the "+kind, x.P.Where(), "the reader takes the terminal from the %s if it was written with %v: %s", kind, has, why)
		}
	}
	r.Check(n["key"] > 0 && n["value"] > 0, "sources", "sources of the terminal in "+fname(rf), w.FuncPos(rf), "not all sources were found: %v", n)
	r.readNodes(rf, key)
	r.costRule()
	r.modelMade()
	r.writtenNodes()
}

// source of the terminal on the path of the reader: key, value or "" if it is not derived
func (wp *wirePair) source(sr *State, t, key, model, store, arity *Term) (kind, why string) {
	fr := wp.R.f
	if methodOf(t) != "CommitToData" {
		return "", ""
	}
	pf := func(x *Term) bool {
		if fld := fr.field(fr.Param(0), "PathFragment"); x == sr.Resolve(fld) {
			return true
		}
		for _, e := range sr.Events("fset") {
			if e.Args[0] == fr.mkFA(fr.Param(0), "PathFragment", nil) {
				return sr.EQ(x, sr.Resolve(e.Args[1])) || wp.emptyReader(sr, x) && wp.emptyReader(sr, sr.Resolve(e.Args[1]))
			}
		}
		return false
	}
	isKey := func(x *Term) bool { return x == key }
	if len(t.Args) != 2 || unIface(sr, t.Args[0]) != model {
		return "key", "the commitment is computed by another model"
	}
	data := sr.Resolve(t.Args[1])
	if fr.isFullKey(sr, data, isKey, pf) {
		return "key", ""
	}
	if methodOf(data) != "Get" || len(data.Args) != 2 {
		return "key", fmt.Sprintf("the commitment is to %s, which is neither the key with the path fragment nor a stored value", data)
	}
	if unIface(sr, data.Args[0]) != store {
		return "value", "the value is taken from another store"
	}
	k := bytesRootStr(sr.Resolve(data.Args[1]))
	if k.Op != "res" || k.Name != "0" || k.Args[0].CallName() != fnPackKey {
		return "value", fmt.Sprintf("the value is looked up under %s, which is not a packed key", k)
	}
	pk := k.Args[0]
	if !fr.isFullKey(sr, pk.Args[0], isKey, pf) {
		return "value", "the value is not looked up under the key with the path fragment"
	}
	if !sr.EQ(sr.Resolve(pk.Args[1]), arity) {
		return "value", "the key is packed with another arity"
	}
	if !sr.True(fr.mkEq(fr.intern("res", "1", nil, pk), fr.constNil())) {
		return "value", "it is not checked that the key could be packed"
	}
	if !sr.NE(data, fr.constNil()) && !sr.True(fr.mkNot(fr.mkEq(data, fr.constNil()))) && !sr.LE(fr.constInt(1, nil), fr.mkLen(data), 0) {
		return "value", "it is not checked that there is a value"
	}
	return "value", ""
}

func (wp *wirePair) emptyReader(sr *State, x *Term) bool {
	return x.IsNil() || sr.EQ(wp.R.f.mkLen(x), wp.R.f.constInt(0, nil))
}

// omitCalls: for each source and each flag of the writer, what does not hold at a call although the flag is set
func (w *World) omitCalls(r *Report, wf *ssa.Function, flags []int) (res map[string]map[int]string, prefers map[[2]int]string) {
	res, prefers = map[string]map[int]string{"key": {}, "value": {}}, map[[2]int]string{}
	calls := 0
	for _, g := range w.Funcs {
		if !inLib(g.Pkg) || g == wf || !callsDirectly(g, wf) {
			continue
		}
		fn := g
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: byName(fnNodeWrite, fnConcatName)})
		f.VisitCalls(func(_ string, c *ssa.CallCommon) bool { return c.StaticCallee() == wf }, func(p *Point, in ssa.CallInstruction, _ *Term) {
			c := in.Common()
			calls++
			st := p.St
			node := st.Resolve(p.T(c.Args[0]))
			term := f.field(node, "Terminal")
			isTerm := func(x *Term) bool {
				x = unIface(st, x)
				return x == term || x == st.Resolve(term)
			}
			for _, i := range flags {
				a := st.Resolve(p.T(c.Args[i]))
				if a.IsConst("false") {
					continue
				}
				at := p.Where()
				r.OK("omit-call", fmt.Sprintf("parameter %s of %s", wf.Params[i].Name(), fname(wf)), at)
				j := st.clone()
				if !j.Assume(a, true) {
					continue
				}
				keyOK, valueOK := false, false
				for _, x := range knownTrue(j, a) {
					switch methodOf(x.t) {
					case "EqualCommitments":
						keyOK = keyOK || x.pos && f.isKeyEquality(j, x.t, node, isTerm, true)
					case "ForceStoreTerminalWithNode":
						valueOK = valueOK || !x.pos && isTerm(x.t.Args[len(x.t.Args)-1])
					}
				}
				notNil := j.NE(st.Resolve(term), f.constNil()) || j.True(f.mkNot(f.mkEq(st.Resolve(term), f.constNil()))) || j.True(f.mkNot(f.mkEq(term, f.constNil())))
				// a commitment to the key is not a commitment to the stored value
				for _, k := range flags {
					j2 := j.clone()
					if k != i && j2.Assume(st.Resolve(p.T(c.Args[k])), false) && !f.notKeyCommitment(j2, node, isTerm) {
						prefers[[2]int{i, k}] = fmt.Sprintf("at %s the terminal may be the commitment to the key, but %s is not set", at, wf.Params[k].Name())
					}
				}
				if !keyOK {
					res["key"][i] = fmt.Sprintf("at %s the terminal may differ from the commitment to the key and the path fragment", at)
				}
				if !valueOK {
					res["value"][i] = fmt.Sprintf("at %s the model may require to store the terminal", at)
				} else if !notNil {
					res["value"][i] = fmt.Sprintf("at %s there may be no terminal", at)
				}
			}
		})
	}
	r.Check(calls > 0, "omit-call", "calls of "+fname(wf), w.FuncPos(wf), "none was found")
	return
}

type knownCond struct {
	t   *Term
	pos bool
}

// knownTrue: the conditions which hold, with the term itself
func knownTrue(st *State, a *Term) (r []knownCond) {
	add := func(t *Term, pos bool) {
		for t.Op == "not" {
			t, pos = t.Args[0], !pos
		}
		r = append(r, knownCond{t, pos})
	}
	add(a, true)
	for _, c := range st.Conds() {
		add(c.Cond, c.Pos)
	}
	for t, v := range st.corr {
		if v.IsConst("true") || v.IsConst("false") {
			add(t, v.IsConst("true"))
		}
	}
	return
}

// isKeyEquality: the terminal of the node is compared with the commitment to its non-empty key
func (f *Flow) isKeyEquality(st *State, t, node *Term, isTerm func(*Term) bool, nonEmpty bool) bool {
	n := len(t.Args)
	if n < 2 {
		return false
	}
	for k := 0; k < 2; k++ {
		x, y := t.Args[n-2+k], unIface(st, st.Resolve(t.Args[n-1-k]))
		if !isTerm(x) || methodOf(y) != "CommitToData" {
			continue
		}
		data := st.Resolve(y.Args[len(y.Args)-1])
		isKey, isPF := f.keyOfNode(st, node)
		if f.isFullKey(st, data, isKey, isPF) && (!nonEmpty || st.LE(f.constInt(1, nil), f.mkLen(data), 0) || st.NE(f.mkLen(data), f.constInt(0, nil))) {
			return true
		}
	}
	return false
}

// keyOfNode recognizes the key and the path fragment of the node, which is part of the buffered node with the key
func (f *Flow) keyOfNode(st *State, node *Term) (isKey, isPF func(*Term) bool) {
	var owner *Term
	if node.Op == "fa" && len(node.Args) == 1 {
		owner = node.Args[0]
	}
	isKey = func(x *Term) bool {
		return owner != nil && (x == f.field(owner, "unpackedKey") || x == st.Resolve(f.field(owner, "unpackedKey")))
	}
	isPF = func(x *Term) bool {
		return x == f.field(node, "PathFragment") || x == st.Resolve(f.field(node, "PathFragment"))
	}
	return
}

// notKeyCommitment: the terminal is known not to be a commitment to the key, or they are not optimized
func (f *Flow) notKeyCommitment(st *State, node *Term, isTerm func(*Term) bool) bool {
	for _, x := range knownTrue(st, f.mkEq(f.constNil(), f.constNil())) {
		if !x.pos && methodOf(x.t) == "EqualCommitments" && f.isKeyEquality(st, x.t, node, isTerm, false) {
			return true
		}
		if b, ok := boolT(x.t); ok && b && !x.pos && (x.t.Op == "param" || x.t.Op == "sel") {
			return true // not optimized
		}
	}
	isKey, isPF := f.keyOfNode(st, node)
	for _, e := range st.Events("call") {
		t := e.Args[0]
		if t.CallName() == fnConcatName && f.isFullKey(st, t, isKey, isPF) && st.LE(f.mkLen(t), f.constInt(0, nil), 0) {
			return true
		}
	}
	return false
}

func boolT(t *Term) (bool, bool) {
	if t.T == nil {
		return false, false
	}
	b, ok := t.T.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool, ok
}

func callsDirectly(g, h *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == h {
				return true
			}
		}
	}
	return false
}

// readNodes: the nodes of the store are read with the key they are stored under, and the arity, model and value store of the reader
func (r *Report) readNodes(rf *ssa.Function, key *Term) {
	w := r.W
	fn := w.Must("trie", "nodeStore.getNode")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: byName(fnNodeRead, fnEncodeKey)})
	recv := f.Param(0)
	n := 0
	f.VisitCalls(func(_ string, c *ssa.CallCommon) bool { return c.StaticCallee() == rf }, func(p *Point, in ssa.CallInstruction, _ *Term) {
		c := in.Common()
		n++
		st, at := p.St, p.Where()
		for i, q := range rf.Params {
			a := unIface(st, st.Resolve(p.T(c.Args[i])))
			cons := fmt.Sprintf("%s of a node of the store", q.Name())
			switch {
			case isArityT(q.Type()):
				r.Check(a == st.Resolve(f.field(recv, "arity")), "node-read", cons, at, "the arity of the node is %s", a)
			case isModelT(q.Type()):
				r.Check(a == st.Resolve(f.field(recv, "m")), "node-read", cons, at, "the model is %s", a)
			case isKVReaderT(q.Type()):
				r.Check(a == st.Resolve(f.field(recv, "valueStore")), "node-read", cons, at, "the value store is %s", a)
			case isByteSlice(q.Type()):
				ok := false
				for _, e := range st.Events("call") {
					t := e.Args[0]
					if methodOf(t) != "Get" || len(t.Args) != 2 {
						continue
					}
					k := bytesRootStr(st.Resolve(t.Args[1]))
					ok = ok || k.Op == "res" && k.Name == "0" && k.Args[0].CallName() == fnEncodeKey && bytesRootStr(st.Resolve(k.Args[0].Args[0])) == bytesRootStr(a) &&
						st.EQ(k.Args[0].Args[1], f.field(recv, "arity")) && unIface(st, st.Resolve(t.Args[0])) == st.Resolve(f.field(recv, "trieStore"))
				}
				r.Check(ok, "node-read", cons, at, "the node is read with the key %s, under which it is not stored", a)
			}
		}
	})
	r.Check(n > 0, "node-read", "reading of nodes", w.FuncPos(fn), "%s does not read nodes", fname(fn))
}

// writtenNodes: the nodes are written with the key, model and arity they are read with
func (r *Report) writtenNodes() {
	w := r.W
	fn := w.Must("trie", "nodeStoreBuffered.persistMutations")
	bytesFn := w.Must("trie", "bufferedNode.Bytes")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: byName(fname(bytesFn), fnEncodeKey)})
	recv := f.Param(0)
	n := 0
	f.VisitCalls(func(_ string, c *ssa.CallCommon) bool { return c.StaticCallee() == bytesFn }, func(p *Point, in ssa.CallInstruction, _ *Term) {
		c := in.Common()
		n++
		st, at := p.St, p.Where()
		rd := f.mkFA(recv, "reader", nil)
		for i, q := range bytesFn.Params {
			a := unIface(st, st.Resolve(p.T(c.Args[i])))
			switch {
			case isArityT(q.Type()):
				r.Check(a == st.Resolve(f.field(recv, "arity")) || a == st.Resolve(f.field(rd, "arity")), "node-write", "arity of the nodes written", at, "the arity is %s", a)
			case isModelT(q.Type()):
				r.Check(a == st.Resolve(f.field(rd, "m")), "node-write", "model of the nodes written", at, "the model is %s", a)
			}
		}
	})
	r.Check(n > 0, "node-write", "writing of nodes", w.FuncPos(fn), "%s does not write nodes", fname(fn))

	// the public constructors: the trie store comes before the value store
	for _, name := range []string{"New", "NewTrieReader"} {
		fn := w.Must("trie", name)
		f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll})
		var stores []*Term
		for i, q := range fn.Params {
			if isKVReaderT(q.Type()) {
				stores = append(stores, f.Param(i))
			}
		}
		f.Visit(nil, func(e *Exit) {
			if e.Kind != "return" {
				return
			}
			st := e.P.St
			ret := st.Resolve(e.Results[0])
			var rd *Term
			if name == "New" {
				rd = f.mkFA(st.Resolve(f.field(ret, "nodeStore")), "reader", nil)
			} else {
				rd = st.Resolve(f.field(ret, "reader"))
			}
			ok := len(stores) == 2 && st.Resolve(f.field(rd, "trieStore")) == stores[0] && st.Resolve(f.field(rd, "valueStore")) == stores[1]
			r.Check(ok, "store-made", "stores of "+fname(fn), e.P.Where(), "the trie store is %s, the value store is %s", st.Resolve(f.field(rd, "trieStore")), st.Resolve(f.field(rd, "valueStore")))
		})
	}

	// the constructors
	for _, name := range []string{"newNodeStoreBuffered", "nodeStoreBuffered.clone"} {
		fn := w.Must("trie", name)
		f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll})
		f.Visit(nil, func(e *Exit) {
			if e.Kind != "return" {
				return
			}
			st := e.P.St
			ret := st.Resolve(e.Results[0])
			get := func(b *Term, n string) *Term { return st.Resolve(f.field(b, n)) }
			rd := f.mkFA(ret, "reader", nil)
			if name == "newNodeStoreBuffered" {
				for _, x := range []struct {
					what string
					got  *Term
					want *Term
				}{
					{"arity of the store", get(ret, "arity"), paramOf(f, fn, isArityT)},
					{"arity of the reader", get(rd, "arity"), paramOf(f, fn, isArityT)},
					{"model", get(rd, "m"), paramOf(f, fn, isModelT)},
				} {
					r.Check(x.got == x.want, "store-made", x.what+" in "+fname(fn), e.P.Where(), "it is %s", x.got)
				}
			}
		})
	}
}

// costRule: the commitments to values above the threshold are stored with the node
func (r *Report) costRule() {
	w := r.W
	fn := w.Must("b2", "CommitmentModel.commitToData")
	f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll, NoInline: byName("trie_blake2b.CommitToDataRaw")})
	d := linAdd(f.toLin(f.field(f.Param(0), "valueSizeOptimizationThreshold")), f.toLin(f.mkLen(f.Param(1))), -1)
	cost := f.le0(linAdd(d, &Lin{C: 1}, 1))
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		n++
		st := e.P.St
		ret := unIface(st, st.Resolve(e.Results[0]))
		v := st.Resolve(f.field(ret, "isCostlyCommitment"))
		ok := v == cost || st.Eval(v) != 0 && st.Eval(v) == st.Eval(cost)
		r.Check(ok, "cost", "cost of a commitment", e.P.Where(), "a commitment is costly if %s", v)
	})
	r.Check(n > 0, "cost", "cost of commitments", w.FuncPos(fn), "%s does not return", fname(fn))
	fn = w.Must("b2", "CommitmentModel.ForceStoreTerminalWithNode")
	f = r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll})
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st := e.P.St
		v := st.Resolve(e.Results[0])
		t := unIface(st, f.Param(1))
		ok := false
		v.Any(func(x *Term) bool {
			if x.Op == "sel" && x.Name == "isCostlyCommitment" {
				ok = v == x
			}
			return false
		})
		for _, c := range st.Conds() {
			if c.Cond.Op == "sel" && c.Cond.Name == "isCostlyCommitment" && (c.Pos && v.IsConst("true") || !c.Pos && v.IsConst("false")) {
				ok = true
			}
		}
		r.Check(ok, "cost", "which terminals must be stored", e.P.Where(), "%s: stored if %s", t, v)
	})
}
