package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C17"] = checkDef{run: runC17,
		explanation: "Path-sensitive data-flow analysis of the batched updater: every path through Update puts the pair into the batch, through a writer which is known to write into the batch of the updater under the prefix of the values, and into the trie; every path through Commit which reports success has committed the trie, then persisted it through a writer of the same batch, then committed the batch and flushed the store, each with a nil error, before the buffered state and the batch are dropped; a batch is created only if there is none; no method of the updater can reach a writing operation of the store other than those of the batch."}
	checks["C18"] = checkDef{run: runC18,
		explanation: "Data-flow analysis of every exported function of the adaptor package from which an operation of the shared store can be reached: the key given to each operation is the prefix of the partition of the very store or batch it is called on, concatenated with the whole key given by the caller (or that key, if the prefix is empty); iteration and deletion by prefix are restricted to the prefix and hand over the key with exactly the prefix cut off and the unchanged value; the updater builds readers and writers of a partition with the same prefix on the same store."}
	checks["C19"] = checkDef{run: runC19,
		explanation: "Path-sensitive data-flow analysis of all implementations of KVWriter, KVReader and CommitToData and of Trie.Update, UpdateStr, the persisting and the reading of nodes: on each path on which the value is empty the key is deleted (nothing is stored, nothing is committed to, nothing is reported as present), and on each path on which it is not empty it is stored unchanged; on no path is it unknown which."}
}

func (r *Report) hivePkg() *ssa.Package { return r.W.Pkgs["hive"] }

// notTrie keeps the functions of the package trie opaque
func notTrie(w *World) func(fn *ssa.Function) bool {
	return func(fn *ssa.Function) bool { return fn.Pkg == w.Pkgs["trie"] }
}

func isKVS(T types.Type) bool {
	n, ok := T.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "hive.go/core/kvstore")
}

// kvOp: operation of the shared store or a batch
func kvOp(c *ssa.CallCommon) string {
	if !c.IsInvoke() || !isKVS(c.Value.Type()) {
		return ""
	}
	return c.Method.Name()
}

func (w *World) hasKVOp(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && kvOp(c.Common()) != "" {
				return true
			}
		}
	}
	return false
}

// kvEntries: the functions of the package from which operations are reached and which may be called from outside
func (w *World) kvEntries(pkg *ssa.Package) []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range w.Funcs {
		if fn.Pkg != pkg || fn.Parent() != nil || fn.Synthetic != "" || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		for g := range w.reachable(fn) {
			if g.Pkg == pkg && w.hasKVOp(g) {
				r = append(r, fn)
				break
			}
		}
	}
	return r
}

// ownerPrefix: the prefix of the partition to which the store or batch belongs
func ownerPrefixes(f *Flow, st *State, B *Term) []*Term {
	var r []*Term
	B = st.Resolve(B)
	if B.Op == "sel" {
		x := B.Args[0]
		T := derefT2(x.T)
		if s, ok := T.(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "prefix" {
					r = append(r, st.Resolve(f.mkSel(x, "prefix", nil)))
				}
			}
		}
	}
	return r
}

func derefT2(T types.Type) types.Type {
	if T == nil {
		return nil
	}
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	return T.Underlying()
}

// keyParts: prefix and key a stored key is made of; the prefix is nil if there is none
func (f *Flow) storedKey(st *State, t *Term) (prefix, key *Term, fresh bool) {
	t = st.Resolve(t)
	ps := f.concatParts(st, t)
	switch len(ps) {
	case 0:
		return nil, t, true
	case 2:
		fresh = true
		if t.Op == "append" {
			// the head must not be memory of others
			b := st.Resolve(t.Args[0])
			for b.Op == "append" {
				b = st.Resolve(b.Args[0])
			}
			fresh = b.IsNil() || b.Op == "makeslice" || b.CallName() == "trie.Concat"
		}
		return ps[0], ps[1], fresh
	}
	return nil, nil, false
}

func emptyBytes(f *Flow, st *State, t *Term) bool {
	return t.IsNil() || st.EQ(f.mkLen(t), f.constInt(0, nil)) || st.LE(f.mkLen(t), f.constInt(0, nil), 0)
}

func runC18(r *Report) {
	w := r.W
	ents := w.kvEntries(r.hivePkg())
	n := 0
	for _, fn := range ents {
		f := r.Flow(fn, FlowOpt{NoInline: notTrie(w), Transfer: trace, Split: splitAll})
		isKeyParam := func(t *Term) bool {
			for i := range fn.Params {
				if f.Param(i) == t && isByteSlice(t.T) {
					return true
				}
			}
			return false
		}
		f.Visit(func(p *Point) {
			in, ok := p.Instr.(ssa.CallInstruction)
			if !ok {
				return
			}
			c := in.Common()
			st, at := p.St, p.Where()
			name := kvOp(c)
			construct := name + " of the shared store in " + fname(p.Ctx.Fn)
			switch name {
			case "":
				// the consumer of an iteration is called with what follows the prefix
				if p.Ctx.IsCB || inCallback(p.Ctx) {
					if c.StaticCallee() == nil && !c.IsInvoke() && len(c.Args) == 2 && isByteSlice(c.Args[0].Type()) {
						r.consumerCall(f, p, c)
					}
				}
				return
			case "Get", "Set", "Has", "Delete":
				n++
				B := p.T(c.Value)
				P, K, fresh := f.storedKey(st, p.T(c.Args[0]))
				if !r.Check(K != nil, "key-prefixed", construct, at, "the key %s is not made of a prefix and a key", p.T(c.Args[0])) {
					return
				}
				r.Check(fresh, "key-fresh", construct, at, "the key is appended to the memory of the prefix")
				owner := ownerPrefixes(f, st, B)
				okP := false
				if len(owner) == 0 {
					// batch or store of the updater itself: a prefix of the updater
					if P != nil && P.Op == "sel" && strings.HasSuffix(P.Name, "Prefix") && B.Op == "sel" && P.Args[0] == B.Args[0] {
						okP = P.Name == "valueStorePrefix"
					}
				}
				for _, o := range owner {
					if P == o || P == nil && emptyBytes(f, st, o) {
						okP = true
					}
				}
				r.Check(okP, "key-prefixed", construct, at, "the key is %s, which is not prefixed with the prefix of the partition", p.T(c.Args[0]))
				r.Check(isKeyParam(K), "key-whole", construct, at, "what follows the prefix is %s and not the key of the caller", K)
			case "Iterate", "IterateKeys", "DeletePrefix":
				n++
				B := p.T(c.Value)
				ok := false
				for _, o := range ownerPrefixes(f, st, B) {
					if p.T(c.Args[0]) == o {
						ok = true
					}
				}
				r.Check(ok, "iterate-prefix", construct, at, "the iteration is not restricted to the prefix of the partition: %s", p.T(c.Args[0]))
			case "Clear", "WithRealm":
				r.Bad("whole-store", construct, at, "the operation is not confined to a partition")
			}
		}, nil)
		// consumers
		if fn.Name() == "Iterate" {
			r.Min("iterate-consumer", 1)
		}
	}
	r.Check(n >= 6, "operations", "operations of the shared store", "-", "only %d operations were found", n)
	r.counts["iterate-consumer"] += 0
	// constructors
	r.hiveConstructors()
}

func inCallback(c *Ctx) bool {
	for ; c != nil; c = c.Parent {
		if c.IsCB {
			return true
		}
	}
	return false
}

// consumerCall within the callback of Iterate: consumer(key[len(prefix):], value)
func (r *Report) consumerCall(f *Flow, p *Point, c *ssa.CallCommon) {
	st, at := p.St, p.Where()
	construct := "consumer called in " + fname(topFunc(p.Ctx.Fn))
	cb := p.Ctx
	for cb != nil && !cb.IsCB {
		cb = cb.Parent
	}
	if cb == nil || len(cb.Params) < 2 {
		return
	}
	call, ok := cb.Call.(ssa.CallInstruction)
	if !ok || kvOp(call.Common()) != "Iterate" {
		return
	}
	k, v := cb.Params[0], cb.Params[1]
	pfx := st.Resolve(f.term(cb.Parent, call.Common().Args[0]))
	K := p.T(c.Args[0])
	rest := f.mkSlice(k, f.mkLen(pfx), f.mkLen(k), nil)
	okK := K == st.Resolve(rest) || K == k && emptyBytes(f, st, pfx) || f.isCopyOf(st, K, rest)
	if K.CallName() == "bytes.TrimPrefix" {
		okK = K.Args[0] == k && st.Resolve(K.Args[1]) == pfx
	}
	r.Check(okK, "iterate-key", construct, at, "the key handed over is %s and not what follows the prefix", K)
	r.Check(f.isCopyOf(st, p.T(c.Args[1]), v), "iterate-value", construct, at, "the value handed over is %s", p.T(c.Args[1]))
	r.OK("iterate-consumer", construct, at)
}

// hiveConstructors: readers and writers of a partition use the same prefix of the same store
func (r *Report) hiveConstructors() {
	w := r.W
	ad := w.Must("hive", "NewHiveKVStoreAdaptor")
	f := r.Flow(ad, FlowOpt{Transfer: trace})
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st := e.P.St
		R := e.Results[0]
		r.Check(st.Resolve(f.mkSel(R, "kvs", nil)) == f.Param(0), "adaptor", "the adaptor uses the store given", e.P.Where(), "the store is %s", st.Resolve(f.mkSel(R, "kvs", nil)))
		r.Check(f.isCopyOf(st, st.Resolve(f.mkSel(R, "prefix", nil)), f.Param(1)), "adaptor", "the adaptor uses the prefix given", e.P.Where(), "the prefix is %s", st.Resolve(f.mkSel(R, "prefix", nil)))
	})
	up := w.Must("hive", "NewHiveBatchedUpdater")
	newTrie := w.Must("trie", "New")
	f = r.Flow(up, FlowOpt{NoInline: noInline(newTrie), Transfer: trace, Split: splitAll})
	g := func(st *State, x *Term, n string) *Term { return st.Resolve(f.mkSel(x, n, nil)) }
	f.VisitCalls(func(n string, _ *ssa.CallCommon) bool { return n == "trie.New" }, func(p *Point, _ ssa.CallInstruction, T *Term) {
		st, at := p.St, p.Where()
		part := func(t *Term) *Term {
			t = st.Resolve(t)
			for t.Op == "iface" {
				t = st.Resolve(t.Args[0])
			}
			return t
		}
		ts, vs := part(T.Args[1]), part(T.Args[2])
		r.Check(g(st, ts, "kvs") == f.Param(0) && g(st, vs, "kvs") == f.Param(0), "updater-store", "readers use the store of the updater", at, "the stores are %s and %s", g(st, ts, "kvs"), g(st, vs, "kvs"))
		r.Check(f.isCopyOf(st, g(st, ts, "prefix"), f.Param(2)), "updater-prefix", "trie nodes are read under the prefix of the trie", at, "read under %s", g(st, ts, "prefix"))
		r.Check(f.isCopyOf(st, g(st, vs, "prefix"), f.Param(3)), "updater-prefix", "values are read under the prefix of the values", at, "read under %s", g(st, vs, "prefix"))
		r.Check(st.Resolve(T.Args[0]) == f.Param(1), "updater-model", "the trie uses the model given", at, "the model is %s", T.Args[0])
	})
	f.Visit(nil, func(e *Exit) {
		if !succeeded(e) {
			return
		}
		st, at := e.P.St, e.P.Where()
		R := e.Results[0]
		T := g(st, R, "trie")
		r.Check(T.CallName() == "trie.New", "updater-trie", "the updater has a trie of its own", at, "the trie is %s", T)
		r.Check(g(st, R, "kvs") == f.Param(0), "updater-store", "batches are made by the store of the updater", at, "the store is %s", g(st, R, "kvs"))
		r.Check(f.isCopyOf(st, g(st, R, "triePrefix"), f.Param(2)), "updater-prefix", "trie nodes are written under the prefix of the trie", at, "written under %s", g(st, R, "triePrefix"))
		r.Check(f.isCopyOf(st, g(st, R, "valueStorePrefix"), f.Param(3)), "updater-prefix", "values are written under the prefix of the values", at, "written under %s", g(st, R, "valueStorePrefix"))
	})
	r.Min("updater-prefix", 4)
	r.batchWriters()
}

// batchWriters: what is stored as the batch and the writers of the updater belongs together
func (r *Report) batchWriters() {
	w := r.W
	n := 0
	var T *types.Struct
	if nm := w.Named("hive", "HiveBatchedUpdater"); nm != nil {
		T, _ = nm.Underlying().(*types.Struct)
	}
	if !r.Check(T != nil, "writers", "updater", "-", "no type HiveBatchedUpdater") {
		return
	}
	var fields []string
	for i := 0; i < T.NumFields(); i++ {
		fields = append(fields, T.Field(i).Name())
	}
	has := strings.Join(fields, ",")
	kept := strings.Contains(has, "wTrie") || strings.Contains(has, "wValue")
	for _, fn := range w.Funcs {
		if fn.Pkg != r.hivePkg() || fn.Parent() != nil || fn.Synthetic != "" || !storesBatch(fn) {
			continue
		}
		f := r.Flow(fn, FlowOpt{NoInline: notTrie(w), Transfer: trace, Split: splitAll})
		f.Visit(nil, func(e *Exit) {
			if e.Kind != "return" {
				return
			}
			st, at := e.P.St, e.P.Where()
			for _, s := range st.Events("store") {
				a, v := s.Args[0], st.Resolve(s.Args[1])
				if a.Op != "fa" || a.Name != "batch" || !isUpdater(a.Args[0].T) || v.IsNil() {
					continue
				}
				n++
				u := a.Args[0]
				if !kept {
					continue
				}
				for field, pfx := range map[string]string{"wTrie": "triePrefix", "wValue": "valueStorePrefix"} {
					W := f.mkSel(u, field, nil)
					ok := false
					for _, s2 := range st.Events("store") {
						if s2.Args[0].Op == "fa" && s2.Args[0].Name == field && s2.Args[0].Args[0] == u {
							W = st.Resolve(s2.Args[1])
							B, P := st.Resolve(f.mkSel(W, "batch", nil)), st.Resolve(f.mkSel(W, "prefix", nil))
							ok = (B == v || B == f.mkSel(u, "batch", nil)) && P == f.mkSel(u, pfx, nil)
						}
					}
					r.Check(ok, "writers", field+" writes into the new batch under "+pfx, at, "the writer is %s", W)
				}
			}
		})
	}
	r.Check(n > 0, "writers", "batches", "-", "no function stores a new batch in the updater")
}

func isUpdater(T types.Type) bool { return namedIs(T, "hive", "HiveBatchedUpdater") }

func storesBatch(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isUpdater(fa.X.Type()) {
					switch fieldName(fa.X.Type(), fa.Field) {
					case "batch", "wTrie", "wValue":
						return true
					}
				}
			}
		}
	}
	return false
}

// updaterWriter: W writes into the batch of the updater u under its prefix pfx
func (f *Flow) updaterWriter(st *State, W, u *Term, field, pfx string) bool {
	W = st.Resolve(W)
	for W.Op == "iface" || W.Op == "ld" {
		W = st.Resolve(W.Args[0])
	}
	if W == f.mkSel(u, field, nil) || W == f.mkFA(u, field, nil) {
		return true
	}
	if W.Op == "alloc" {
		// copy of the writer
		if x, ok := st.corr[f.intern("ld", "", nil, W)]; ok && st.Resolve(x) == f.mkSel(u, field, nil) {
			return true
		}
	}
	B, P := st.Resolve(f.mkSel(W, "batch", nil)), st.Resolve(f.mkSel(W, "prefix", nil))
	return B == f.mkSel(u, "batch", nil) && P == f.mkSel(u, pfx, nil)
}

func runC17(r *Report) {
	w := r.W
	// Commit
	fn := w.Must("hive", "HiveBatchedUpdater.Commit")
	const (
		tCommit  = "(*trie.Trie).Commit"
		tPersist = "(*trie.Trie).PersistMutations"
		tClear   = "(*trie.Trie).ClearCache"
		bCommit  = "kvstore.BatchedMutations.Commit"
		sFlush   = "kvstore.KVStore.Flush"
	)
	calls := func(st *State, name string) []*Term {
		var r []*Term
		for _, e := range st.Events("call") {
			if e.Args[0].CallName() == name {
				r = append(r, e.Args[0])
			}
		}
		return r
	}
	// progress is remembered when the fields of the updater change
	did := func(st *State, name string) bool { return st.HasEvent("did:"+name) || len(calls(st, name)) > 0 }
	okNil := func(st *State, name string) bool {
		if st.HasEvent("ok:" + name) {
			return true
		}
		for _, c := range calls(st, name) {
			if st.True(st.f.mkEq(c, st.f.constNil())) {
				return true
			}
		}
		return false
	}
	f := r.Flow(fn, FlowOpt{NoInline: notTrie(w), Split: splitAll, Transfer: func(p *Point) {
		if _, ok := p.Instr.(*ssa.Store); ok {
			for _, n := range []string{tCommit, tPersist, tClear, bCommit, sFlush} {
				if did(p.St, n) {
					p.St.AddEvent("did:" + n)
				}
				if okNil(p.St, n) {
					p.St.AddEvent("ok:" + n)
				}
			}
		}
		trace(p)
	}})
	u := f.Param(0)
	tr := f.mkSel(u, "trie", nil)
	persisted := false
	f.VisitCalls(func(string, *ssa.CallCommon) bool { return true }, func(p *Point, in ssa.CallInstruction, call *Term) {
		st, at := p.St, p.Where()
		switch name := call.CallName(); name {
		case tCommit:
			r.Check(st.Resolve(call.Args[0]) == tr, "order", "the trie of the updater is committed", at, "the trie is %s", call.Args[0])
			r.Check(!did(st, tPersist), "order", "the trie is committed before it is persisted", at, "the trie may already have been persisted")
		case tPersist:
			persisted = true
			r.Check(st.Resolve(call.Args[0]) == tr, "order", "the trie of the updater is persisted", at, "the trie is %s", call.Args[0])
			r.Check(did(st, tCommit), "order", "the trie is committed before it is persisted", at, "the trie may not be committed")
			r.Check(f.updaterWriter(st, call.Args[1], u, "wTrie", "triePrefix"), "same-batch", "the trie is persisted into the batch of the updater, under the prefix of the trie", at, "it is persisted into %s", st.Resolve(call.Args[1]))
			r.Check(!did(st, bCommit), "order", "the trie is persisted before the batch is committed", at, "the batch may already have been committed")
		case bCommit:
			r.Check(st.Resolve(call.Args[0]) == f.mkSel(u, "batch", nil), "order", "the batch of the updater is committed", at, "the batch is %s", st.Resolve(call.Args[0]))
			r.Check(did(st, tPersist), "order", "the trie is persisted before the batch is committed", at, "the trie may not have been persisted")
		case sFlush:
			r.Check(st.Resolve(call.Args[0]) == f.mkSel(u, "kvs", nil), "order", "the store of the updater is flushed", at, "the store is %s", st.Resolve(call.Args[0]))
			r.Check(okNil(st, bCommit), "order", "the store is flushed after the batch", at, "the batch is not known to be committed")
		case tClear:
			r.Check(okNil(st, bCommit) && okNil(st, sFlush), "drop-after", "the buffered nodes are dropped only after batch and flush succeeded", at, "the batch is not known to be committed and flushed")
		}
	})
	r.Check(persisted, "order", "the trie is persisted", w.FuncPos(fn), "PersistMutations is not called")
	f.Visit(func(p *Point) {
		if s, ok := p.Instr.(*ssa.Store); ok {
			a := p.T(s.Addr)
			if a.Op == "fa" && a.Args[0] == u && (a.Name == "batch" || a.Name == "trie" || a.Name == "wTrie" || a.Name == "wValue") {
				r.Check(okNil(p.St, bCommit) && okNil(p.St, sFlush), "drop-after", "the batch is dropped only after it was committed and flushed", p.Where(), "field %s is set although the batch is not known to be committed and flushed", a.Name)
			}
		}
	}, func(e *Exit) {
		if !succeeded(e) {
			return
		}
		st, at := e.P.St, e.P.Where()
		done := did(st, tCommit) && did(st, tPersist) && okNil(st, bCommit) && okNil(st, sFlush)
		if !done {
			ok := st.True(f.mkEq(f.mkSel(u, "batch", nil), f.constNil())) && !did(st, bCommit)
			r.Check(ok, "complete", "success is reported only if everything was written", at, "there may be a batch which was not written")
			return
		}
		r.OK("complete", "success is reported only if everything was written", at)
		r.Check(did(st, tClear), "drop", "the buffered nodes are dropped after success", at, "ClearCache is not called")
		b := st.Resolve(f.mkSel(u, "batch", nil))
		dropped := b.IsNil()
		for _, s := range st.Events("store") {
			if s.Args[0] == f.mkFA(u, "batch", nil) && (st.Resolve(s.Args[1]).IsNil() || st.Resolve(s.Args[1]).CallName() == "" && st.Resolve(s.Args[1]).Op == "res") {
				dropped = true
			}
		}
		r.Check(dropped, "drop", "a committed batch is not used again", at, "the batch is kept after it was committed")
	})
	r.Min("complete", 1)
	// Update
	fn = w.Must("hive", "HiveBatchedUpdater.Update")
	f = r.Flow(fn, FlowOpt{NoInline: notTrie(w), Transfer: trace, Split: splitAll})
	u = f.Param(0)
	key, val := f.Param(1), f.Param(2)
	f.Visit(func(p *Point) {
		c, ok := p.Instr.(*ssa.Call)
		if ok && kvOp(c.Common()) == "Batched" {
			r.Check(p.St.True(f.mkEq(f.mkSel(u, "batch", nil), f.constNil())), "one-batch", "a batch is created only if there is none", p.Where(), "there may be a batch with mutations already")
		}
	}, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		inTrie := false
		for _, c := range calls(st, "(*trie.Trie).Update") {
			inTrie = inTrie || st.Resolve(c.Args[0]) == f.mkSel(u, "trie", nil) && st.Resolve(c.Args[1]) == key && st.Resolve(c.Args[2]) == val
		}
		if emptyBytes(f, st, val) {
			for _, c := range calls(st, "(*trie.Trie).Delete") {
				inTrie = inTrie || st.Resolve(c.Args[0]) == f.mkSel(u, "trie", nil) && st.Resolve(c.Args[1]) == key
			}
		}
		r.Check(inTrie, "both", "every pair gets into the trie", at, "the trie may not be updated with the pair")
		inBatch := false
		for _, op := range []string{"Set", "Delete"} {
			for _, c := range calls(st, "kvstore.BatchedMutations."+op) {
				if len(c.Args) > 2 && st.Resolve(c.Args[2]) != val {
					continue
				}
				B := st.Resolve(c.Args[0])
				_, K, _ := f.storedKey(st, c.Args[1])
				var W *Term
				if B.Op == "sel" {
					W = B.Args[0]
				}
				if W == u {
					P, _, _ := f.storedKey(st, c.Args[1])
					inBatch = inBatch || K == key && (P == f.mkSel(u, "valueStorePrefix", nil) || P == nil)
				} else if W != nil && K == key {
					inBatch = inBatch || f.updaterWriter(st, W, u, "wValue", "valueStorePrefix")
				} else if P, _, _ := f.storedKey(st, c.Args[1]); K == key && B.Op == "res" && B.Args[0].CallName() == "kvstore.KVStore.Batched" {
					inBatch = inBatch || P == f.mkSel(u, "valueStorePrefix", nil) || P == nil
				}
			}
		}
		r.Check(inBatch, "both", "every pair gets into the batch", at, "the batch of the updater may not be updated with the pair")
	})
	r.Min("both", 2)
	r.batchWriters()
	// nothing by-passes the batch
	n := 0
	for _, m := range w.Funcs {
		if m.Pkg != r.hivePkg() || m.Signature.Recv() == nil || !isUpdater(m.Signature.Recv().Type()) {
			continue
		}
		n++
		bad := ""
		for g := range w.reachable(m) {
			if g.Pkg != r.hivePkg() {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						switch op := kvOp(c.Common()); op {
						case "Set", "Delete", "DeletePrefix", "Clear":
							if !strings.HasSuffix(types.TypeString(c.Common().Value.Type(), nil), "BatchedMutations") {
								bad = op + " at " + w.InstrPos(in)
							}
						}
						if f := c.Common().StaticCallee(); f != nil && fname(f) == "(*hive_adaptor.HiveKVStoreAdaptor).Set" {
							bad = "Set at " + w.InstrPos(in)
						}
					}
				}
			}
		}
		r.Check(bad == "", "only-batch", fname(m), w.FuncPos(m), "the store is written outside of the batch: %s", bad)
	}
	r.Check(n >= 2, "only-batch", "methods of the updater", "-", "only %d methods were found", n)
}

// ---------------------------------------------------------------- C19

// valueCase: the value is known to be empty (1), known to be not empty (-1) or unknown
func valueCase(f *Flow, st *State, v *Term) int {
	if v.IsNil() || st.LE(f.mkLen(v), f.constInt(0, nil), 0) {
		return 1
	}
	if st.LE(f.constInt(1, nil), f.mkLen(v), 0) {
		return -1
	}
	return 0
}

func runC19(r *Report) {
	w := r.W
	// writers
	nset := 0
	for _, fn := range w.Funcs {
		if fn.Name() != "Set" || fn.Signature.Recv() == nil || fn.Synthetic != "" || fn.Signature.Params().Len() != 2 || fn.Signature.Results().Len() != 0 ||
			!isByteSlice(fn.Signature.Params().At(0).Type()) || !isByteSlice(fn.Signature.Params().At(1).Type()) || strings.Contains(r.W.FuncPos(fn), "examples/") {
			continue
		}
		nset++
		f := r.Flow(fn, FlowOpt{NoInline: noInline(w.Func("trie", "Concat")), Transfer: trace, Split: splitAll})
		key, val := f.Param(1), f.Param(2)
		f.Visit(nil, func(e *Exit) {
			if e.Kind != "return" {
				return
			}
			st, at := e.P.St, e.P.Where()
			isK := func(t *Term) bool {
				t = st.Resolve(t)
				for t.Op == "str" || t.Op == "bytes" {
					t = st.Resolve(t.Args[0])
				}
				_, k, _ := f.storedKey(st, t)
				return k == key
			}
			var sets, dels []*Term // values stored
			nset, ndel := 0, 0
			for _, m := range st.Events("mapset") {
				if isK(m.Args[1]) {
					sets = append(sets, st.Resolve(m.Args[2]))
				}
				nset++
			}
			for _, m := range st.Events("mapdel") {
				if isK(m.Args[1]) {
					dels = append(dels, m.Args[1])
				}
				ndel++
			}
			for _, c := range st.Events("call") {
				n := c.Args[0].CallName()
				if strings.HasPrefix(n, "kvstore.") && strings.HasSuffix(n, ".Set") {
					nset++
					if isK(c.Args[0].Args[1]) {
						sets = append(sets, st.Resolve(c.Args[0].Args[2]))
					}
				}
				if strings.HasPrefix(n, "kvstore.") && strings.HasSuffix(n, ".Delete") {
					ndel++
					if isK(c.Args[0].Args[1]) {
						dels = append(dels, c.Args[0].Args[1])
					}
				}
			}
			switch valueCase(f, st, val) {
			case 1:
				r.Check(len(dels) > 0 && nset == 0, "set-empty", fname(fn)+" deletes the key if the value is empty", at, "an empty value does not delete the key")
			case -1:
				ok := len(sets) == 1 && nset == 1 && ndel == 0 && f.isCopyOf(st, sets[0], val)
				r.Check(ok, "set-value", fname(fn)+" stores the value unchanged if it is not empty", at, "the value stored is %v", sets)
			default:
				r.Bad("set-known", fname(fn), at, "it is not known whether the value is empty")
			}
		})
	}
	r.Check(nset >= 3, "writers", "implementations of KVWriter", "-", "only %d were found", nset)
	r.Min("set-empty", 3)
	r.Min("set-value", 3)
	// readers
	for _, name := range []string{"HiveKVStoreAdaptor.Get", "HiveKVStoreAdaptor.Has"} {
		fn := w.Must("hive", name)
		f := r.Flow(fn, FlowOpt{NoInline: noInline(w.Func("trie", "Concat")), Transfer: trace, Split: splitAll})
		f.Visit(nil, func(e *Exit) {
			if e.Kind != "return" {
				return
			}
			st, at := e.P.St, e.P.Where()
			var V, err *Term
			for _, c := range st.Events("call") {
				if c.Args[0].CallName() == "kvstore.KVStore.Get" {
					V = f.intern("res", "0", nil, c.Args[0])
					err = f.intern("res", "1", nil, c.Args[0])
				}
			}
			if !r.Check(V != nil, "read-store", fname(fn)+" reads the store", at, "the value is not read by Get: the presence of an empty value is not known") {
				return
			}
			R := st.Resolve(e.Results[0])
			found := func(st *State) bool { return st.True(f.mkEq(err, f.constNil())) }
			if name == "HiveKVStoreAdaptor.Get" {
				if R.IsNil() {
					r.Check(!found(st) || valueCase(f, st, V) == 1, "read-absent", fname(fn)+": nil only for an absent or empty value", at, "nil may be returned for a stored value")
					return
				}
				r.Check(found(st) && f.isCopyOf(st, R, V), "read-value", fname(fn)+": the stored value is returned", at, "returns %s", R)
				r.Check(valueCase(f, st, V) == -1, "read-empty", fname(fn)+": an empty value reads as nil", at, "an empty value may be returned as such")
				return
			}
			if st.False(R) || R.IsConst("false") {
				r.Check(!found(st) || valueCase(f, st, V) == 1, "has-absent", fname(fn)+": absent or empty", at, "a stored value may be reported as absent")
				return
			}
			// true or the condition itself
			s1, s2 := st.clone(), st.clone()
			empty := f.eq0(f.toLin(f.mkLen(V)))
			// a value which is not empty is not nil
			s2.Assume(f.mkEq(V, f.constNil()), false)
			okE := !s1.Assume(empty, true) || s1.False(st.Resolve(e.Results[0]))
			okN := !s2.Assume(empty, false) || s2.True(R) || s2.True(s2.Resolve(e.Results[0])) || R.IsConst("true")
			r.Check(found(st) && okE && okN, "has-present", fname(fn)+": present exactly if the value is not empty", at, "returns %s", R)
		})
	}
	r.Min("read-value", 1)
	r.Min("read-absent", 1)
	r.Min("has-absent", 1)
	r.Min("has-present", 1)
	r.memReaders()
	// commitments
	for _, m := range []struct{ pkg, name string }{{"b2", "CommitmentModel.CommitToData"}, {"kzg", "CommitmentModel.CommitToData"}} {
		fn := w.Must(m.pkg, m.name)
		f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll})
		data := f.Param(1)
		n := map[int]int{}
		f.Visit(nil, func(e *Exit) {
			if e.Kind != "return" {
				return
			}
			st, at := e.P.St, e.P.Where()
			R := st.Resolve(e.Results[0])
			vc := valueCase(f, st, data)
			n[vc]++
			switch vc {
			case 1:
				r.Check(R.IsNil(), "commit-empty", fname(fn)+" commits to nothing if the data is empty", at, "returns %s", R)
			case -1:
				x := R
				for x.Op == "iface" {
					x = st.Resolve(x.Args[0])
				}
				r.Check(!R.IsNil() && (x.Op == "alloc" || f.nonNil(x)), "commit-value", fname(fn)+" commits to data which is not empty", at, "returns %s", R)
			default:
				r.Bad("commit-known", fname(fn), at, "it is not known whether the data is empty: returns %s", R)
			}
		})
		r.Check(n[1] > 0 && n[-1] > 0, "commit-cases", fname(fn), w.FuncPos(fn), "the cases of empty and non-empty data were not found")
	}
	r.trieEmpty()
}

// memReaders: the in-memory store
func (r *Report) memReaders() {
	w := r.W
	for _, fn := range w.Funcs {
		if fn.Pkg != w.Pkgs["trie"] || fn.Signature.Recv() == nil || fn.Synthetic != "" {
			continue
		}
		if _, isMap := derefT2(fn.Signature.Recv().Type()).(*types.Map); !isMap {
			continue
		}
		switch fn.Name() {
		case "Get", "Has":
		default:
			continue
		}
		f := r.Flow(fn, FlowOpt{Transfer: trace, Split: splitAll})
		key := f.Param(1)
		f.Visit(nil, func(e *Exit) {
			if e.Kind != "return" {
				return
			}
			st, at := e.P.St, e.P.Where()
			R := st.Resolve(e.Results[0])
			is := func(t *Term, op string) bool {
				t = st.Resolve(t)
				if t.Op != op || t.Args[0] != f.Param(0) {
					return false
				}
				k := st.Resolve(t.Args[1])
				return k.Op == "str" && k.Args[0] == key
			}
			known := func(pos bool) bool {
				for _, a := range st.Conds() {
					if a.Pos == pos && is(a.Cond, "lookupok") {
						return true
					}
				}
				return false
			}
			if fn.Name() == "Get" {
				ok := is(R, "lookup") || R.IsNil() && known(false)
				if R.IsNil() && !ok {
					for _, a := range st.Conds() {
						if a.Pos && a.Cond.Op == "eq0" && a.Cond.Args[0].Op == "len" && is(a.Cond.Args[0].Args[0], "lookup") {
							ok = true
						}
					}
				}
				r.Check(ok, "mem-get", fname(fn)+" returns what is stored under the key", at, "returns %s", R)
				return
			}
			ok := is(R, "lookupok") || R.IsConst("true") && known(true) || R.IsConst("false") && known(false)
			if !ok {
				// by the length of the value: only non-empty values are stored
				s1, s2 := st.clone(), st.clone()
				lk := f.intern("len", "", nil, f.intern("lookup", "", nil, f.Param(0), f.intern("str", "", nil, key)))
				_ = lk
				for l := range R.Leaves() {
					if is(l, "lookup") {
						c := f.eq0(f.toLin(f.mkLen(l)))
						ok = (!s1.Assume(c, true) || s1.False(R)) && (!s2.Assume(c, false) || s2.True(R))
					}
				}
			}
			r.Check(ok, "mem-has", fname(fn)+" reports what is stored under the key", at, "returns %s", R)
		})
	}
	r.Min("mem-get", 1)
	r.Min("mem-has", 1)
}

// trieEmpty: the trie deletes keys whose value is empty
func (r *Report) trieEmpty() {
	w := r.W
	fn := w.Must("trie", "Trie.Update")
	del := w.Must("trie", "Trie.Delete")
	f := r.Flow(fn, FlowOpt{NoInline: func(g *ssa.Function) bool {
		return g == del || g.Name() == "GetProofGeneric" || g.Name() == "UnpackBytes" || g.Signature.Recv() != nil && g.Name() != "commitToValue" && !commits(w, g) || strings.HasPrefix(g.Name(), "proofPath")
	}, Transfer: trace, Split: splitAll})
	n := 0
	f.Visit(nil, func(e *Exit) {
		if e.Kind != "return" {
			return
		}
		st, at := e.P.St, e.P.Where()
		// the commitment to the value
		isC := func(t *Term) bool {
			t = st.Resolve(t)
			return t.CallName() == "trie.CommitmentModel.CommitToData" || strings.HasSuffix(t.CallName(), ".commitToValue")
		}
		deleted, other := false, false
		for _, c := range st.Events("call") {
			if c.Args[0].CallName() == "(*trie.Trie).Delete" && st.Resolve(c.Args[0].Args[1]) == f.Param(1) {
				deleted = true
			}
		}
		known := 0
		for _, a := range st.Conds() {
			if a.Cond.Op == "eq" {
				x, y := a.Cond.Args[0], a.Cond.Args[1]
				if x.IsNil() {
					x, y = y, x
				}
				if y.IsNil() && isC(x) {
					known = -1
					if a.Pos {
						known = 1
					}
				}
			}
		}
		if vc := valueCase(f, st, f.Param(2)); vc != 0 && known == 0 {
			known = vc
		}
		_ = other
		n++
		switch known {
		case 1:
			r.Check(deleted, "update-empty", "Trie.Update deletes the key if there is nothing to commit to", at, "the key may not be deleted")
		case -1:
			r.Check(!deleted, "update-value", "Trie.Update does not delete the key if there is a value", at, "the key may be deleted")
		default:
			r.Bad("update-known", "Trie.Update", at, "it is not known whether there is a commitment to the value")
		}
	})
	r.Min("update-empty", 1)
	r.Min("update-value", 1)
	// strings and nil
	for _, name := range []string{"UpdateStr", "DeleteStr"} {
		fn := w.Func("trie", "Trie."+name)
		if fn == nil {
			continue
		}
		f := r.Flow(fn, FlowOpt{NoInline: noInline(w.Must("trie", "Trie.Update"), del), Transfer: trace, Split: splitAll})
		f.Visit(nil, func(e *Exit) {
			if e.Kind != "return" {
				return
			}
			st, at := e.P.St, e.P.Where()
			for i := 1; i < len(fn.Params); i++ {
				in := f.Param(i)
				ok, got := false, "nothing"
				for _, c := range st.Events("call") {
					n := c.Args[0].CallName()
					if n != "(*trie.Trie).Update" && n != "(*trie.Trie).Delete" || i >= len(c.Args[0].Args) {
						continue
					}
					v := st.Resolve(c.Args[0].Args[i])
					got = v.String()
					x := v
					for x.Op == "bytes" || x.Op == "as" || x.Op == "str" || x.Op == "conv" {
						x = st.Resolve(x.Args[0])
					}
					ok = x == in || v.IsNil() && st.True(f.mkEq(in, f.constNil()))
				}
				r.Check(ok, "str-value", fname(fn)+": parameter "+fn.Params[i].Name()+" is passed on, nil as nil", at, "%s is passed on", got)
			}
		})
	}
}

// commits: the function leads to CommitToData
func commits(w *World, fn *ssa.Function) bool {
	for g := range w.reachable(fn) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "CommitToData" && len(g.Blocks) < 8 && g == fn {
					return true
				}
			}
		}
	}
	return false
}
