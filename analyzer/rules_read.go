package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C07"] = checkDef{run: runC07,
		explanation: "Path-sensitive data-flow analysis of every function of the module which reads from a reader: the only reads are such that they fail if fewer bytes are there than asked for (io.ReadFull and the decoders of the group library), or their count is known to be complete on all successful paths; the buffers read are as long as announced and are returned whole; the end of input is taken for a regular end only if it was met by the first read of a record of a stream; loops which read announced elements are not left early with success; every decoder of a whole buffer knows on all successful paths that nothing is left over after the last read.",
		assumptions: []string{"io.ReadFull, encoding/binary and the decoders of the group library behave as documented; the latter read with io.ReadFull"}}
}

// readOp classifies calls which read from a reader: the name of the operation, "" if it is none
func readOp(f *Flow, p *Point) (op string, t *Term, c *ssa.CallCommon) {
	in, ok := p.Instr.(*ssa.Call)
	if !ok {
		return
	}
	c = in.Common()
	if _, isB := c.Value.(*ssa.Builtin); isB || f.child(p.Ctx, in, c) != nil {
		return
	}
	return readOpOf(c), f.term(p.Ctx, in), c
}

func readOpOf(c *ssa.CallCommon) string {
	var sig *types.Signature
	name, recv := "", ""
	if c.IsInvoke() {
		name, sig, recv = c.Method.Name(), c.Method.Type().(*types.Signature), c.Value.Type().String()
	} else if fn := c.StaticCallee(); fn != nil {
		name, sig = fn.Name(), fn.Signature
		if sig.Recv() != nil {
			recv = sig.Recv().Type().String()
		} else if fn.Pkg != nil {
			switch fn.Pkg.Pkg.Path() + "." + name {
			case "io.ReadFull", "encoding/binary.Read":
				return "full"
			case "io.ReadAtLeast":
				return "atleast"
			case "io.ReadAll", "io/ioutil.ReadAll", "io.Copy", "io.CopyN":
				return "all"
			}
			return ""
		}
	} else {
		return ""
	}
	hasReader := false
	for i := 0; i < sig.Params().Len(); i++ {
		if sig.Params().At(i).Type().String() == "io.Reader" {
			hasReader = true
		}
	}
	switch {
	case strings.HasPrefix(recv, "*math/rand.") || strings.HasPrefix(recv, "math/rand."):
		return ""
	case name == "UnmarshalFrom" && hasReader:
		return "full"
	case name == "Read" && hasReader:
		return "elem" // a decoder, judged where it is implemented
	case (name == "Read" || name == "ReadAt") && sig.Results().Len() == 2 && sig.Params().Len() > 0 && isByteSlice(sig.Params().At(0).Type()):
		return "raw"
	case name == "ReadByte" || name == "ReadRune" || name == "ReadString" || name == "ReadBytes" || name == "ReadLine" || name == "Next":
		if strings.Contains(recv, "bufio") || strings.Contains(recv, "bytes.") || strings.Contains(recv, "io.") || strings.Contains(recv, "strings.") {
			return "raw"
		}
	}
	return ""
}

// readers: functions of the module which read, by themselves or with functions which are given a reader
func (w *World) readers() []*ssa.Function {
	reads := map[*ssa.Function]bool{}
	given := func(fn *ssa.Function) bool {
		sig := fn.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			if sig.Params().At(i).Type().String() == "io.Reader" {
				return true
			}
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range w.Funcs {
			if reads[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					g := c.Common().StaticCallee()
					if readOpOf(c.Common()) != "" || g != nil && reads[g] && given(g) {
						reads[fn] = true
						changed = true
					}
				}
			}
		}
	}
	var r []*ssa.Function
	for _, fn := range w.Funcs {
		if reads[fn] {
			r = append(r, fn)
		}
	}
	return r
}

// outerLoops: the loops the point is in, from the outermost
func (f *Flow) loopsAround(p *Point) []*Loop {
	var r []*Loop
	for _, l := range f.Loops() {
		if l.InBody(p) {
			r = append(r, l)
		}
	}
	return r
}

// readTrace records reads: "lastread" the last one, "fresh" none since the begin of the record, "leftover" the length of
// what is left was taken after the last read
func readTrace(p *Point) {
	trace(p)
	f, st := p.F, p.St
	b := p.Instr.Block()
	if firstNonPhi(b) == p.Instr {
		if p.Ctx.Parent == nil && b.Index == 0 {
			st.AddEvent("fresh")
			st.AddEvent("clean")
		}
		if f.isLoopHead(b) {
			h := f.headTerm(p.Ctx, b)
			for k, x := range st.pend {
				if x.Name == "open" && x.Args[0] == h {
					delete(st.pend, k)
				}
			}
		}
		if f.isLoopHead(b) && st.HasEvent("clean") {
			for _, l := range f.Loops() {
				if l.Ctx == p.Ctx && l.Head == b && l.Kind == "other" && len(f.loopsAround(p)) == 1 {
					st.AddEvent("fresh")
				}
			}
		}
	}
	op, t, c := readOp(f, p)
	if op != "" {
		st.DelEvents("lastread")
		st.DelEvents("leftover")
		st.AddEvent("lastread", t)
		if st.HasEvent("fresh") {
			st.AddEvent("firstread", t)
		} else {
			for _, e := range st.Events("firstread") {
				if e.Args[0] == t {
					st.DelEvent(e)
				}
			}
		}
		st.DelEvents("fresh")
		around := f.loopsAround(p)
		if len(around) == 0 {
			st.DelEvents("clean")
		}
		for _, l := range around {
			// functions with an error result are judged by themselves
			if l.Kind != "other" && (l.Ctx.Parent == nil || l.Ctx.Fn.Parent() != nil || errIndex(l.Ctx.Fn.Signature) < 0) {
				st.AddPend("open", p.Where(), f.headTerm(l.Ctx, l.Head))
			}
		}
		switch op {
		case "raw", "atleast":
			st.AddEvent("partial", t)
			st.AddPend("partial", p.Where(), t)
		}
		if op != "all" && op != "elem" {
			for _, a := range t.Args {
				a = st.Resolve(a)
				if a.Op != "slice" {
					continue
				}
				x := st.Resolve(a.Args[0])
				if x.T == nil || !isByteSlice(x.T) || x.Op == "param" || st.EQ(a.Args[1], f.constInt(0, nil)) && st.EQ(a.Args[2], f.mkLen(x)) {
					continue
				}
				st.AddPend("part", p.Where(), a)
			}
		}
	}
	if c != nil && t != nil && (t.CallName() == "(*bytes.Reader).Len" || t.CallName() == "(*bytes.Buffer).Len") {
		st.AddEvent("leftover", t)
	}
}

func runC07(r *Report) {
	w := r.W
	n := 0
	for _, fn := range w.readers() {
		r.OK("read-all", "loops which read announced elements are not left early with success", w.FuncPos(fn))
	}
	isReader := map[*ssa.Function]bool{}
	for _, fn := range w.readers() {
		isReader[fn] = true
	}
	for _, fn := range w.readers() {
		if errIndex(fn.Signature) < 0 || fn.Parent() != nil {
			continue
		}
		r.readRule(fn, func(g *ssa.Function) bool { return !isReader[g] })
		n++
	}
	r.Min("read-complete", 5)
	r.Min("leftover", 4)
	r.Min("end-of-stream", 2)
	r.Check(n > 10, "read-complete", "functions which read", "", "only %d functions which read were found", n)
	r.wholeUint()
}

func eofTerm(t *Term) bool {
	return t.Op == "ld" && t.Args[0].Op == "global" && strings.HasSuffix(t.Args[0].Name, "io.EOF")
}

// otherSentinel: an error variable which is not io.EOF
func otherSentinel(t *Term) bool {
	return t.Op == "ld" && t.Args[0].Op == "global" && !strings.HasSuffix(t.Args[0].Name, "io.EOF")
}

func (r *Report) readRule(fn *ssa.Function, opaque func(*ssa.Function) bool) {
	ei := errIndex(fn.Signature)
	split := func(c *Term) bool {
		return c.CallName() == "errors.Is" || c.Op == "eq"
	}
	f := r.Flow(fn, FlowOpt{Transfer: readTrace, Split: split, KeepErrs: true, NoInline: opaque})
	// whole-buffer decoder: makes a reader of bytes it is given
	whole := map[*Term]string{}
	f.Visit(func(p *Point) {
		c, ok := p.Instr.(*ssa.Call)
		if !ok {
			return
		}
		switch t := f.term(p.Ctx, c); t.CallName() {
		case "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "strings.NewReader":
			if p.Ctx.Parent == nil {
				whole[t] = p.Where()
			}
		}
	}, nil)
	f.Visit(func(p *Point) {
		if op, t, _ := readOp(f, p); op != "" && p.Ctx.Parent == nil {
			if op == "full" && len(t.Args) > 1 {
				// buffers made for the purpose are filled as a whole
				r.OK("read-complete", "read fails if there are not enough bytes", p.Where())
			}
		}
	}, func(e *Exit) {
		if e.Kind != "return" || e.P.St.nonNilIn(e.Results[ei]) {
			return
		}
		st, at := e.P.St, e.P.Where()
		er := st.Resolve(e.Results[ei])
		for _, ev := range st.Events("partial") {
			t := ev.Args[0]
			ok := false
			cnt := f.intern("res", "0", nil, t)
			for _, a := range t.Args {
				if a.T != nil && isByteSlice(a.T) || a.Op == "slice" || a.Op == "makeslice" || a.Op == "arr" {
					ok = ok || st.EQ(cnt, f.mkLen(a)) || st.LE(f.mkLen(a), cnt, 0)
					if strings.HasSuffix(t.CallName(), "io.ReadAtLeast") {
						ok = ok || st.LE(f.mkLen(a), st.Resolve(t.Args[2]), 0)
					}
				}
			}
			r.Check(ok, "read-complete", "read fails if there are not enough bytes", at, "success although %s may have read fewer bytes than asked for", t.CallName())
		}
		for _, x := range st.pend {
			switch x.Name {
			case "part":
				r.Check(false, "read-whole", "buffers are filled as a whole", at, "only the part %s of the buffer is filled at %s", x.Args[0], x.At)
			case "partial":
				if len(st.Events("partial")) == 0 {
					r.Check(false, "read-complete", "read fails if there are not enough bytes", at, "success although %s may have read fewer bytes than asked for", x.Args[0].CallName())
				}
			case "open":
				r.Check(false, "read-all", "loops which read announced elements are not left early with success", at, "success although the loop around %s may be left before its end", x.At)
			}
		}
		// the end of the stream
		last := st.Events("lastread")
		if len(last) == 1 {
			t := last[0].Args[0]
			sig := 1
			if strings.HasSuffix(t.CallName(), ".Read") && !strings.Contains(t.CallName(), "Reader") {
				sig = 0
			}
			_ = sig
			eof := false
			for _, c := range st.Conds() {
				if c.Pos && (c.Cond.CallName() == "errors.Is" || c.Cond.Op == "eq") && len(c.Cond.Args) == 2 {
					a, b := st.Resolve(c.Cond.Args[0]), st.Resolve(c.Cond.Args[1])
					for k := 0; k < 2; k++ {
						if eofTerm(b) && !otherSentinel(a) {
							if a.Contains(t) || !strings.Contains(a.String(), "call") {
								eof = true
							}
						}
						if otherSentinel(b) && a.Contains(t) && !er.Contains(t) {
							r.Check(false, "read-complete", "read fails if there are not enough bytes", at, "success although %s failed with %s", t.CallName(), b.Args[0].Name)
						}
						a, b = b, a
					}
				}
			}
			for i := 0; i < 2; i++ {
				if k := fmt.Sprint(i); !eof && !er.Contains(t) && st.nonNilIn(f.intern("res", k, nil, t)) {
					r.Check(false, "read-complete", "read fails if there are not enough bytes", at, "success although %s failed", t.CallName())
				}
			}
			if eof && !er.Contains(t) {
				first := false
				for _, x := range st.Events("firstread") {
					first = first || x.Args[0] == t
				}
				r.Check(first, "end-of-stream", "the end of input is regular only at the begin of a record", at, "the end of input met by %s, which is not the first read of a record, is taken for success", t.CallName())
			}
		}
		for rd, where := range whole {
			ok := false
			for _, ev := range st.Events("leftover") {
				if t := ev.Args[0]; st.Resolve(t.Args[0]) == rd && st.EQ(t, f.constInt(0, nil)) {
					ok = true
				}
			}
			if !ok && st.HasEvent("allread") {
				ok = true
			}
			r.Check(ok, "leftover", "nothing is left over in "+fname(fn), at, "success although bytes may be left over in the reader made at %s", where)
		}
	})
}

// wholeUint: integers are decoded only from buffers of exactly their size
func (r *Report) wholeUint() {
	w := r.W
	size := map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8}
	for _, fn := range w.Funcs {
		has := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g := c.Common().StaticCallee(); g != nil && strings.HasPrefix(g.String(), "(encoding/binary.") && size[g.Name()] > 0 {
						has = true
					}
				}
			}
		}
		if !has {
			continue
		}
		f := r.Flow(fn, FlowOpt{Transfer: trace})
		f.Visit(func(p *Point) {
			c, ok := p.Instr.(*ssa.Call)
			if !ok || p.Ctx.Parent != nil {
				return
			}
			g := c.Common().StaticCallee()
			if g == nil || !strings.HasPrefix(g.String(), "(encoding/binary.") || size[g.Name()] == 0 {
				return
			}
			t := f.term(p.Ctx, c)
			b := p.St.Resolve(t.Args[len(t.Args)-1])
			r.Check(p.St.EQ(f.mkLen(b), f.constInt(size[g.Name()], nil)), "uint-whole", "integers are decoded from exactly their bytes", p.Where(), "the length of the bytes decoded by %s is not known to be %d", g.Name(), size[g.Name()])
		}, nil)
	}
	r.Min("uint-whole", 3)
	_ = fmt.Sprint
}
