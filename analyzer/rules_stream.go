package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C30"] = checkDef{run: runC30,
		explanation: "Path-sensitive data-flow analysis of all functions which write or read pairs of keys and values or hand them to a consumer. On every successful path of a writer the whole key and then the whole value are written exactly once to the writer of the stream and the counts grow by one and by the bytes written; every reader hands over on each iteration exactly the key and the value read in it, goes on only while the consumer asks for more, and ends with success only at the end of the data or when the consumer stops; dumping and restoring handle every pair and return the number of bytes handled; the functions which count visit all pairs.",
		assumptions: []string{"WriteBytes16/32 and ReadBytes16/32 write and read what they are given (C06, C07), a map is iterated completely by range"}}
}

func isConsumerT(T types.Type) bool {
	s, ok := T.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 2 && s.Results().Len() == 1 && isByteSlice(s.Params().At(0).Type()) && isByteSlice(s.Params().At(1).Type()) && basicKind(s.Results().At(0).Type()) == types.Bool
}

const (
	fnW16 = "trie.WriteBytes16"
	fnW32 = "trie.WriteBytes32"
	fnR16 = "trie.ReadBytes16"
	fnR32 = "trie.ReadBytes32"
)

// consumerOf: the call hands over a pair to the consumer
func consumerOf(p *Point, c *ssa.CallCommon) (k, v *Term) {
	if _, isB := c.Value.(*ssa.Builtin); isB {
		return
	}
	if c.IsInvoke() {
		if c.Method.Name() == "Set" && len(c.Args) == 2 && isByteSlice(c.Args[0].Type()) && isByteSlice(c.Args[1].Type()) && c.Method.Type().(*types.Signature).Results().Len() == 0 {
			return p.T(c.Args[0]), p.T(c.Args[1])
		}
		return
	}
	if c.StaticCallee() != nil || !isConsumerT(c.Value.Type()) {
		return
	}
	if t := p.T(c.Value); t.Op == "param" || t.Op == "ld" || t.Op == "free" || t.Op == "sel" {
		return p.T(c.Args[0]), p.T(c.Args[1])
	}
	return
}

func streamTrace(p *Point) {
	trace(p)
	f, st := p.F, p.St
	b := p.Instr.Block()
	if p.Ctx.IsCB && b.Index == 0 && firstNonPhi(b) == p.Instr {
		for _, n := range []string{"added", "delivered", "w16", "w32", "twice"} {
			st.DelEvents(n)
		}
	}
	switch in := p.Instr.(type) {
	case *ssa.Store:
		a := p.T(in.Addr)
		if (a.Op == "alloc" || a.Op == "fa") && in.Val.Type() != nil && isInt(in.Val.Type()) {
			d := linAdd(f.toLin(p.T(in.Val)), f.toLin(st.Resolve(f.mkLoad(a, in.Val.Type()))), -1)
			for _, e := range st.Events("added") {
				if e.Args[0] == a {
					d = linAdd(d, f.toLin(e.Args[1]), 1)
					st.DelEvent(e)
				}
			}
			st.AddEvent("added", a, f.fromLin(d, in.Val.Type()))
		}
	case *ssa.Call:
		c := in.Common()
		if _, isB := c.Value.(*ssa.Builtin); isB || f.child(p.Ctx, in, c) != nil {
			return
		}
		t := f.term(p.Ctx, in)
		switch t.CallName() {
		case fnW16, fnW32:
			n := map[string]string{fnW16: "w16", fnW32: "w32"}[t.CallName()]
			if len(st.Events(n)) > 0 {
				st.AddEvent("twice", t)
			}
			st.AddEvent(n, t, st.Resolve(t.Args[0]), st.Resolve(t.Args[1]))
			if n == "w16" && len(st.Events("w32")) > 0 {
				st.AddEvent("twice", t)
			}
		case fnR16, fnR32:
			n := map[string]string{fnR16: "r16", fnR32: "r32"}[t.CallName()]
			if n == "r16" {
				if len(st.Events("r16")) > 0 || len(st.Events("r32")) > 0 {
					st.AddPend("lost", p.Where(), t)
				}
				f.goesOn(p, nil)
				st.DelEvents("r32")
			}
			st.DelEvents(n)
			st.AddEvent(n, t)
			st.DelEvents("delivered")
		}
		if k, v := consumerOf(p, c); k != nil {
			f.goesOn(p, t)
			st.DelEvents("read")
			if a, b := st.Events("r16"), st.Events("r32"); len(a) == 1 && len(b) == 1 {
				st.AddEvent("read", a[0].Args[0], b[0].Args[0])
			}
			st.DelEvents("delivered")
			st.DelEvents("r16")
			st.DelEvents("r32")
			st.AddEvent("delivered", t, k, v)
		}
	}
}

// goesOn: another pair is taken at p
func (f *Flow) goesOn(p *Point, t *Term) {
	st := p.St
	for _, e := range st.Events("delivered") {
		x := e.Args[0]
		if t != nil && inCallback(p.Ctx) {
			st.AddPend("again", p.Where(), t)
		}
		if x != t && !strings.HasSuffix(x.CallName(), ".Set") && st.Eval(x) != 1 {
			st.AddPend("goeson", p.Where(), x)
		}
	}
}

// wrote: in the state the pair was written to w, once
func (f *Flow) wrote(st *State, k, v *Term) (ok bool, why string, w *Term) {
	a, b := st.Events("w16"), st.Events("w32")
	switch {
	case len(a) != 1:
		return false, "the key is not written once on all paths", nil
	case len(b) != 1:
		return false, "the value is not written once on all paths", nil
	case len(st.Events("twice")) > 0:
		return false, "something is written twice or in the wrong order", nil
	case a[0].Args[2] != k:
		return false, "what is written as the key is " + a[0].Args[2].String(), nil
	case b[0].Args[2] != v:
		return false, "what is written as the value is " + b[0].Args[2].String(), nil
	case a[0].Args[1] != b[0].Args[1]:
		return false, "key and value are written to different writers", nil
	case !st.True(f.mkEq(a[0].Args[0], f.constNil())) || !st.True(f.mkEq(b[0].Args[0], f.constNil())):
		return false, "writing may have failed", nil
	}
	return true, "", a[0].Args[1]
}

func (f *Flow) pairSize(k, v *Term) *Term {
	return f.plus(f.sum(f.mkLen(k), f.mkLen(v)), 6)
}

func (f *Flow) addedTo(st *State, cell *Term) *Term {
	for _, e := range st.Events("added") {
		if e.Args[0] == cell {
			return e.Args[1]
		}
	}
	return f.constInt(0, nil)
}

func runC30(r *Report) {
	w := r.W
	opaque := byName(fnW16, fnW32, fnR16, fnR32)
	opt := FlowOpt{Transfer: streamTrace, Split: splitAll, NoInline: opaque}
	// writers of pairs
	for _, fn := range w.Funcs {
		n := len(fn.Params)
		if n < 3 || !isByteSlice(fn.Params[n-1].Type()) || !isByteSlice(fn.Params[n-2].Type()) || fn.Parent() != nil || fn.Synthetic != "" || !w.reaches(fn, fnW32) {
			continue
		}
		f := r.Flow(fn, opt)
		k, v := f.Param(n-2), f.Param(n-1)
		recv := f.Param(0)
		f.Visit(nil, func(e *Exit) {
			if !succeeded(e) {
				return
			}
			st, at := e.P.St, e.P.Where()
			ok, why, wr := f.wrote(st, k, v)
			r.Check(ok, "write-pair", "pairs written by "+fname(fn), at, "%s", why)
			if !ok {
				return
			}
			r.Check(wr == recv || wr == st.Resolve(f.field(recv, "w")), "write-pair", "writer of "+fname(fn), at, "the pair is written to %s", wr)
			if fn.Signature.Recv() != nil {
				for _, x := range []struct {
					name string
					by   *Term
				}{{"kvCount", f.constInt(1, nil)}, {"byteCount", f.pairSize(k, v)}} {
					d := f.addedTo(st, f.mkFA(recv, x.name, nil))
					r.Check(st.EQ(d, x.by), "write-count", x.name+" of "+fname(fn), at, "%s grows by %s and not by %s", x.name, d, x.by)
				}
			} else if len(e.Results) == 2 {
				r.Check(st.EQ(e.Results[0], f.pairSize(k, v)), "write-count", "bytes reported by "+fname(fn), at, "%s bytes are reported", st.Resolve(e.Results[0]))
			}
		})
	}
	r.Min("write-pair", 1)
	r.Min("write-count", 1)
	r.statsRule()
	// functions which hand over pairs
	nc := 0
	for _, fn := range w.Funcs {
		if fn.Parent() != nil || strings.Contains(fn.Pkg.Pkg.Path(), "/examples/") {
			continue
		}
		has := false
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			T := fn.Signature.Params().At(i).Type()
			has = has || isConsumerT(T)
			has = has || types.IsInterface(T) && namedIs(T, "trie", "KVWriter") && w.readsPairs(fn)
		}
		if has {
			r.consumerRule(fn, opt)
			nc++
		}
	}
	r.Check(nc >= 4, "deliver", "functions which hand over pairs", "", "only %d were found", nc)
	r.Min("deliver", 4)
	// functions which visit all pairs
	for _, name := range []string{"DumpToFile", "ByteSize", "NumEntries", "Trie.UpdateAll"} {
		r.visitAllRule(w.Must("trie", name), opt)
	}
	r.Min("visit-all", 4)
	r.streamFiles()
}

func (w *World) readsPairs(fn *ssa.Function) bool { return w.reaches(fn, fnR32) }

func (w *World) reaches(fn *ssa.Function, name string) bool {
	for g := range w.reachable(fn) {
		if fname(g) == name {
			return true
		}
	}
	return false
}

// statsRule: Stats returns the counts
func (r *Report) statsRule() {
	for _, fn := range r.W.Funcs {
		if fn.Name() != "Stats" || fn.Signature.Recv() == nil || fn.Signature.Results().Len() != 2 || fn.Synthetic != "" {
			continue
		}
		f := r.Flow(fn, FlowOpt{})
		f.Visit(nil, func(e *Exit) {
			if e.Kind != "return" {
				return
			}
			ok := selOf(e.P.St.Resolve(e.Results[0]), "kvCount") && selOf(e.P.St.Resolve(e.Results[1]), "byteCount")
			r.Check(ok, "stats", fname(fn), e.P.Where(), "the counts returned are %s and %s", e.Results[0], e.Results[1])
		})
	}
	r.Min("stats", 1)
}

// consumerRule: every pair is handed over once, as long as the consumer asks for more
func (r *Report) consumerRule(fn *ssa.Function, opt FlowOpt) {
	f := r.Flow(fn, opt)
	name := fname(fn)
	nDel := 0
	wantsMore := func(st *State) int { // of the last pair handed over
		for _, e := range st.Events("delivered") {
			if t := e.Args[0]; strings.HasSuffix(t.CallName(), ".Set") {
				return 1
			} else {
				return st.Eval(t)
			}
		}
		return 0
	}
	// the condition of a loop, which is what the consumer asks for, ended it
	ended := func(st *State) bool {
		ended := false
		for _, l := range f.Loops() {
			ended = ended || l.Kind != "other" && st.loopDone(f, l)
			if l.Kind == "other" && l.Cond != nil {
				if c := f.term(l.Ctx, l.Cond.Cond); r.W.readsPairs(fn) && c.Op != "phi" && c.Op != "not" {
					continue // not what the consumer asked for
				}
				in0 := l.Blocks[l.Head.Succs[0]]
				if ev := st.Eval(f.term(l.Ctx, l.Cond.Cond)); in0 && ev < 0 || !in0 && ev > 0 {
					ended = true
				}
			}
		}
		return ended
	}
	f.Visit(func(p *Point) {
		st, at := p.St, p.Where()
		if in, ok := p.Instr.(*ssa.Call); ok {
			c := in.Common()
			if _, isB := c.Value.(*ssa.Builtin); isB || f.child(p.Ctx, in, c) != nil {
				return
			}
			k, v := consumerOf(p, c)
			if k == nil {
				return
			}
			nDel++
			k, v = st.Resolve(k), st.Resolve(v)
			rd := st.Events("read")
			var l *Loop
			for _, x := range f.loopsAround(p) {
				l = x
			}
			switch {
			case len(rd) > 0 || r.W.readsPairs(fn):
				ok := len(rd) == 1
				if ok {
					k0, v0 := f.intern("res", "0", nil, rd[0].Args[0]), f.intern("res", "0", nil, rd[0].Args[1])
					e0, e1 := f.intern("res", "1", nil, rd[0].Args[0]), f.intern("res", "1", nil, rd[0].Args[1])
					r.Check(k == k0 || f.isCopyOf(st, k, k0), "deliver", "pairs handed over by "+name, at, "the key handed over is %s", k)
					r.Check(v == v0 || f.isCopyOf(st, v, v0), "deliver", "pairs handed over by "+name, at, "the value handed over is %s", v)
					r.Check(st.True(f.mkEq(e0, f.constNil())) && st.True(f.mkEq(e1, f.constNil())), "deliver", "pairs handed over by "+name, at, "reading the pair may have failed")
				}
				r.Check(ok, "deliver", "pairs handed over by "+name, at, "a pair is handed over which was not read as a whole, or for the second time")
			case p.Ctx.IsCB || inCallback(p.Ctx):
				cb := p.Ctx
				for !cb.IsCB {
					cb = cb.Parent
				}
				r.Check(k.Contains(cb.Params[0]) && (v == cb.Params[1] || f.isCopyOf(st, v, cb.Params[1])), "deliver", "pairs handed over by "+name, at, "the pair handed over is not that of the iteration")
			case l != nil && l.Kind == "map":
				kk := bytesOf(st, k)
				r.Check(kk == bytesOf(st, l.Key) || f.isCopyOf(st, k, l.Key), "deliver", "pairs handed over by "+name, at, "the key handed over is %s", k)
				r.Check(v == st.Resolve(l.Val) || f.isCopyOf(st, v, l.Val) || v.Op == "lookup" && v.Args[0] == st.Resolve(l.Coll) && bytesOf(st, v.Args[1]) == bytesOf(st, l.Key), "deliver", "pairs handed over by "+name, at, "the value handed over is %s", v)
			default:
				r.OK("deliver", "pairs handed over by "+name, at)
			}
		}
		if ret, ok := p.Instr.(*ssa.Return); ok && p.Ctx.IsCB && len(ret.Results) == 1 {
			d := st.Events("delivered")
			if !r.Check(len(d) == 1, "deliver", "pairs handed over by "+name, at, "a pair may be passed over") {
				return
			}
			res, t := p.T(ret.Results[0]), d[0].Args[0]
			ev := st.Eval(res)
			ok := st.Resolve(res) == st.Resolve(t) || ev != 0 && ev == st.Eval(t)
			r.Check(ok, "stop", "the consumer stops "+name, at, "the iteration does not go on as asked for by the consumer")
		}
	}, func(e *Exit) {
		for _, x := range e.P.St.pend {
			switch x.Name {
			case "lost":
				r.Bad("deliver", "pairs handed over by "+name, x.At, "a pair read before may not have been handed over")
			case "again":
				r.Bad("deliver", "pairs handed over by "+name, x.At, "a pair may be handed over twice")
			case "goeson":
				r.Bad("stop", "the consumer stops "+name, x.At, "another pair is taken although the consumer may have asked to stop")
			}
		}
		if !succeeded(e) {
			return
		}
		st, at := e.P.St, e.P.Where()
		r.Check(len(st.Events("r32")) == 0, "deliver", "pairs handed over by "+name, at, "the last pair read may not have been handed over")
		if r.W.readsPairs(fn) {
			end, why := false, "the stream ends although the consumer asks for more"
			for _, e := range st.Events("r16") {
				er := f.intern("res", "1", nil, e.Args[0])
				why = "success after reading a key, which is not known to be the end of the stream"
				end = sentinelCase(st, er, true) || st.nonNilIn(er) // other errors: C10
			}
			if len(st.Events("delivered")) > 0 && (wantsMore(st) == -1 || ended(st)) && len(st.Events("r16")) == 0 {
				end = true
			}
			r.Check(end, "to-end", "the iteration of "+name+" goes on", at, "%s", why)
		}
		if len(st.Events("delivered")) > 0 && !strings.HasSuffix(st.Events("delivered")[0].Args[0].CallName(), ".Set") && len(f.Loops()) > 0 {
			r.Check(wantsMore(st) == -1 || ended(st), "to-end", "the iteration of "+name+" goes on", at, "the iteration may end although the consumer asks for more")
		}
	})
	r.Check(nDel > 0, "deliver", "pairs handed over by "+name, r.W.FuncPos(fn), "no pair is handed over")
	for _, l := range f.Loops() {
		l := l
		if l.Ctx.Parent != nil {
			continue
		}
		inBody := false
		f.Visit(func(p *Point) {
			if in, ok := p.Instr.(*ssa.Call); ok && l.InBody(p) {
				if k, _ := consumerOf(p, in.Common()); k != nil {
					inBody = true
				}
			}
		}, nil)
		if !inBody {
			continue
		}
		var total *Term // number of bytes reported
		f.Visit(nil, func(e *Exit) {
			if succeeded(e) && len(e.Results) == 2 {
				total = e.P.St.Resolve(e.Results[0])
			}
		})
		f.AtBackEdges(l, func(p *Point) {
			st := p.St
			d := st.Events("delivered")
			if r.W.readsPairs(fn) && len(d) == 0 && len(st.Events("r32")) == 0 {
				return // nothing was read
			}
			if !r.Check(len(d) == 1, "deliver", "pairs handed over by "+name, p.Where(), "an iteration may pass over a pair") {
				return
			}
			goesOn := wantsMore(st) == 1
			if l.Cond != nil && l.Kind == "other" {
				// the condition of the loop is what the consumer asks for
				c, del := f.term(l.Ctx, l.Cond.Cond), d[0].Args[0]
				nx := f.nextOf(l, c, p)
				goesOn = goesOn || nx != nil && st.Resolve(nx) == st.Resolve(del) && l.Blocks[l.Head.Succs[0]] && !l.Blocks[l.Head.Succs[1]]
			}
			r.Check(goesOn, "stop", "the consumer stops "+name, p.Where(), "the iteration may go on although the consumer asked to stop")
			if total != nil && isInt(fn.Signature.Results().At(0).Type()) {
				nx := f.nextOf(l, total, p)
				want := f.sum(total, f.pairSize(st.Resolve(d[0].Args[1]), st.Resolve(d[0].Args[2])))
				r.Check(nx != nil && st.EQ(nx, want), "read-count", "bytes reported by "+name, p.Where(), "the number of bytes reported becomes %v", nx)
			}
		})
	}
}

// visitAllRule: the callback handles every pair and asks for more
func (r *Report) visitAllRule(fn *ssa.Function, opt FlowOpt) {
	opt.NoInline = func(g *ssa.Function) bool {
		return byName(fnW16, fnW32, fnR16, fnR32)(g) || g.Signature.Recv() != nil && namedIs(g.Signature.Recv().Type(), "trie", "Trie")
	}
	f := r.Flow(fn, opt)
	name := fname(fn)
	n := 0
	var total *Term
	f.Visit(nil, func(e *Exit) {
		if e.Kind == "return" && len(e.Results) > 0 && isInt(fn.Signature.Results().At(0).Type()) {
			if t := e.P.St.Resolve(e.Results[0]); t.Op == "ld" {
				total = t.Args[0]
			}
		}
	})
	f.Visit(func(p *Point) {
		ret, ok := p.Instr.(*ssa.Return)
		if !ok || !p.Ctx.IsCB || len(ret.Results) != 1 {
			return
		}
		st, at := p.St, p.Where()
		n++
		k, v := p.Ctx.Params[0], p.Ctx.Params[1]
		more := st.Eval(p.T(ret.Results[0]))
		if fn.Name() == "DumpToFile" {
			wr, why, _ := f.wrote(st, k, v)
			if more < 0 {
				r.Check(!wr, "visit-all", name, at, "the iteration ends although the pair was written")
				return
			}
			r.Check(more > 0 && wr, "visit-all", name, at, "the iteration goes on although %s", why)
		} else {
			r.Check(more > 0, "visit-all", name, at, "the iteration may end before its end")
		}
		if fn.Name() == "UpdateAll" {
			up := false
			for _, e := range st.Events("call") {
				t := e.Args[0]
				if strings.HasSuffix(t.CallName(), "Trie).Update") && st.Resolve(t.Args[1]) == k && st.Resolve(t.Args[2]) == v {
					up = true
				}
			}
			r.Check(up, "visit-all", name, at, "a pair may not be put into the trie")
			return
		}
		if !r.Check(total != nil, "visit-count", "number returned by "+name, at, "the number returned is not collected by the iteration") {
			return
		}
		want := f.pairSize(k, v)
		if fn.Name() == "NumEntries" {
			want = f.constInt(1, nil)
		}
		d := f.addedTo(st, total)
		r.Check(st.EQ(d, want), "visit-count", "number returned by "+name, at, "the number grows by %s", d)
	}, func(e *Exit) {
		if !succeeded(e) {
			return
		}
		it := 0
		for _, ev := range e.P.St.Events("call") {
			if t := ev.Args[0]; strings.HasSuffix(t.CallName(), ".Iterate") {
				for i := range fn.Params {
					if e.P.St.Resolve(t.Args[0]) == f.Param(i) {
						it++
					}
				}
			}
		}
		r.Check(it == 1, "visit-all", name, e.P.Where(), "the pairs are iterated %d times", it)
	})
	r.Check(n > 0, "visit-all", name, r.W.FuncPos(fn), "the callback was not found")
}

// streamFiles: streams in files use the file opened
func (r *Report) streamFiles() {
	for _, x := range []struct{ name, open, typ string }{{"CreateKVStreamFile", "os.Create", "w"}, {"OpenKVStreamFile", "os.Open", "r"}} {
		fn := r.W.Must("trie", x.name)
		f := r.Flow(fn, FlowOpt{Transfer: trace})
		f.Visit(nil, func(e *Exit) {
			if !succeeded(e) {
				return
			}
			st := e.P.St
			res := st.Resolve(e.Results[0])
			emb := "BinaryStreamWriter"
			if x.typ == "r" {
				emb = "BinaryStreamIterator"
			}
			file := st.Resolve(f.field(res, "file"))
			inner := st.Resolve(f.field(res, emb))
			s := st.Resolve(f.field(inner, x.typ))
			for s.Op == "iface" && len(s.Args) == 1 {
				s = st.Resolve(s.Args[0])
			}
			ok := file.Op == "res" && strings.HasPrefix(file.Args[0].CallName(), "os.") && st.Resolve(file.Args[0].Args[0]) == f.Param(0) && s == file
			r.Check(ok, "stream-file", x.name, e.P.Where(), "the stream uses %s and closes %s", s, file)
		})
	}
}
