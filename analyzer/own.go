package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ownership analysis: a compositional points-to and effect analysis. For each function it computes which objects
// (reachable from its parameters, globals, or fresh) each result and each stored reference may refer to, and which of them
// may be modified. Summaries are instantiated at each call, so the analysis is context-sensitive; recursion is solved by a
// fixpoint

// OObj is an abstract object
type OObj struct {
	id    string
	kind  byte // 'p' parameter, 'v' free variable, 'g' global, 'a' allocated by the function, 'c' content of an outside object, 'x' argument of a callback, 'f' function
	n     int
	par   OLoc // for 'c'
	depth int
	T     types.Type // type of the reference by which it was first met
	fn    *ssa.Function
}

// OLoc is a location: the object, or the part of it at the path
type OLoc struct {
	o    *OObj
	path string
}

func (l OLoc) String() string {
	s := l.o.id
	if l.o.kind == 'c' {
		s = l.o.par.String()
	}
	return s + l.path
}

type OSet map[OLoc]bool

type OMut struct {
	loc  OLoc
	what string
	at   string
	in   *ssa.Function
}

// OStore: reference v stored at the location
type OSum struct {
	fn     *ssa.Function
	objs   map[string]*OObj
	params []*OObj
	free   []*OObj
	heap   map[OLoc]OSet
	vals   map[ssa.Value]OSet
	tups   map[ssa.Value]map[int]OSet
	rets   []OSet
	muts   map[string]*OMut
	size   int
}

// Own is the analysis of the program
type Own struct {
	W    *World
	Bind map[string][]string // interface type -> types considered as its implementations
	sums map[*ssa.Function]*OSum
	cur  map[*ssa.Function]bool
	chg  bool
	impl map[string][]*ssa.Function
	nums map[*ssa.Function]int
}

func NewOwn(w *World, bind map[string][]string) *Own {
	return &Own{W: w, Bind: bind, sums: map[*ssa.Function]*OSum{}, impl: map[string][]*ssa.Function{}, nums: map[*ssa.Function]int{}, cur: map[*ssa.Function]bool{}}
}

// Run analyses all functions needed for the entries
func (ow *Own) Run(entries ...*ssa.Function) {
	for i := 0; i < 60; i++ {
		ow.chg = false
		ow.cur = map[*ssa.Function]bool{}
		for _, e := range entries {
			ow.sum(e)
		}
		if !ow.chg {
			return
		}
	}
	fatal("ownership analysis does not converge")
}

func refType(T types.Type) bool {
	switch u := T.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refType(u.Elem())
	case *types.Tuple:
		return true
	}
	return false
}

type leafPath struct {
	p string
	T types.Type
}

// leaves of a value type: the paths at which references are
func leafPaths(T types.Type, pre string) []leafPath {
	switch u := T.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return []leafPath{{pre, T}}
	case *types.Struct:
		var r []leafPath
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, leafPaths(u.Field(i).Type(), pre+"."+u.Field(i).Name())...)
		}
		return r
	case *types.Array:
		return leafPaths(u.Elem(), pre+"[]")
	}
	return nil
}

func isComposite(T types.Type) bool {
	switch T.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (s *OSum) obj(kind byte, id string, T types.Type) *OObj {
	k := string(kind) + id
	if o, ok := s.objs[k]; ok {
		if o.T == nil {
			o.T = T
		}
		return o
	}
	o := &OObj{id: id, kind: kind, T: T}
	s.objs[k] = o
	return o
}

const ownDepth = 6

// child is what an outside object refers to at the path, if it was not changed
func (s *OSum) child(l OLoc, T types.Type) OSet {
	if l.o.depth >= ownDepth {
		return OSet{OLoc{l.o, ""}: true}
	}
	k := fmt.Sprintf("c%p%s", l.o, l.path)
	if o, ok := s.objs[k]; ok {
		if o.T == nil {
			o.T = T
		}
		return OSet{OLoc{o, ""}: true}
	}
	o := &OObj{id: l.String(), kind: 'c', par: l, depth: l.o.depth + 1, T: T}
	s.objs[k] = o
	return OSet{OLoc{o, ""}: true}
}

func outside(o *OObj) bool {
	return o.kind == 'p' || o.kind == 'g' || o.kind == 'c' || o.kind == 'x' || o.kind == 'v'
}

func (s *OSum) load(l OLoc, T types.Type) OSet {
	r := OSet{}
	for x := range s.heap[l] {
		r[x] = true
	}
	if outside(l.o) {
		for x := range s.child(l, T) {
			r[x] = true
		}
	}
	return r
}

func (s *OSum) addHeap(ow *Own, l OLoc, v OSet) {
	m := s.heap[l]
	for x := range v {
		if m == nil {
			m = OSet{}
			s.heap[l] = m
		}
		if !m[x] {
			m[x] = true
			s.size++
			ow.chg = true
		}
	}
}

func (s *OSum) addVal(ow *Own, v ssa.Value, set OSet) {
	m := s.vals[v]
	if m == nil {
		m = OSet{}
		s.vals[v] = m
	}
	for x := range set {
		if !m[x] {
			m[x] = true
			s.size++
			ow.chg = true
		}
	}
}

func (s *OSum) mut(ow *Own, l OLoc, what, at string, in *ssa.Function) {
	k := fmt.Sprintf("%p%s|%s|%s", l.o, l.path, what, at)
	if _, ok := s.muts[k]; !ok {
		s.muts[k] = &OMut{l, what, at, in}
		s.size++
		ow.chg = true
	}
}

func (ow *Own) sum(fn *ssa.Function) *OSum {
	s := ow.sums[fn]
	if s == nil {
		s = &OSum{fn: fn, objs: map[string]*OObj{}, heap: map[OLoc]OSet{}, vals: map[ssa.Value]OSet{}, tups: map[ssa.Value]map[int]OSet{}, muts: map[string]*OMut{}}
		for i, p := range fn.Params {
			o := s.obj('p', fmt.Sprintf("P%d", i), p.Type())
			o.n = i
			s.params = append(s.params, o)
		}
		for i, p := range fn.FreeVars {
			o := s.obj('v', fmt.Sprintf("V%d", i), p.Type())
			o.n = i
			s.free = append(s.free, o)
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			s.rets = append(s.rets, OSet{})
		}
		ow.sums[fn] = s
		ow.chg = true
	}
	if ow.cur[fn] {
		return s
	}
	ow.cur[fn] = true
	for i := 0; i < 40; i++ {
		n := s.size
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ow.instr(s, in)
			}
		}
		if s.size == n {
			break
		}
	}
	return s
}

func (ow *Own) pts(s *OSum, v ssa.Value) OSet {
	switch v := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Parameter:
		if !refType(v.Type()) {
			return nil
		}
		for i, p := range s.fn.Params {
			if p == v {
				return OSet{OLoc{s.params[i], ""}: true}
			}
		}
	case *ssa.FreeVar:
		for i, p := range s.fn.FreeVars {
			if p == v {
				return OSet{OLoc{s.free[i], ""}: true}
			}
		}
	case *ssa.Global:
		return OSet{OLoc{s.obj('g', v.RelString(nil), v.Type()), ""}: true}
	case *ssa.Function:
		o := s.obj('f', fname(v), v.Type())
		o.fn = v
		return OSet{OLoc{o, ""}: true}
	}
	return s.vals[v]
}

func (ow *Own) instr(s *OSum, in ssa.Instruction) {
	at := ow.W.InstrPos(in)
	site := func() string {
		return fmt.Sprintf("%s%d:%d.%d", s.fn.Name(), ow.num(s.fn), in.Block().Index, instrIndex(in))
	}
	alloc := func(v ssa.Value) {
		s.addVal(ow, v, OSet{OLoc{s.obj('a', site(), v.Type()), ""}: true})
	}
	switch in := in.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		alloc(in.(ssa.Value))
	case *ssa.MakeClosure:
		o := s.obj('a', site(), in.Type())
		o.fn = in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			s.addHeap(ow, OLoc{o, fmt.Sprintf("$%d", i)}, ow.pts(s, b))
		}
		s.addVal(ow, in, OSet{OLoc{o, ""}: true})
	case *ssa.Phi:
		if refType(in.Type()) {
			for _, e := range in.Edges {
				s.addVal(ow, in, ow.pts(s, e))
			}
		}
	case *ssa.FieldAddr:
		f := "." + fieldName(in.X.Type(), in.Field)
		for l := range ow.pts(s, in.X) {
			s.addVal(ow, in, OSet{OLoc{l.o, l.path + f}: true})
		}
	case *ssa.Field:
		f := "." + fieldName(in.X.Type(), in.Field)
		for l := range ow.pts(s, in.X) {
			n := OLoc{l.o, l.path + f}
			if isComposite(in.Type()) {
				s.addVal(ow, in, OSet{n: true})
			} else if refType(in.Type()) {
				s.addVal(ow, in, s.load(n, in.Type()))
			}
		}
	case *ssa.IndexAddr:
		for l := range ow.pts(s, in.X) {
			s.addVal(ow, in, OSet{OLoc{l.o, l.path + "[]"}: true})
		}
	case *ssa.Index:
		for l := range ow.pts(s, in.X) {
			n := OLoc{l.o, l.path + "[]"}
			if isComposite(in.Type()) {
				s.addVal(ow, in, OSet{n: true})
			} else if refType(in.Type()) {
				s.addVal(ow, in, s.load(n, in.Type()))
			}
		}
	case *ssa.Lookup:
		if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap {
			return
		}
		T := in.Type()
		if in.CommaOk {
			T = T.(*types.Tuple).At(0).Type()
		}
		if !refType(T) {
			return
		}
		for l := range ow.pts(s, in.X) {
			n := OLoc{l.o, l.path + "[]"}
			if isComposite(T) {
				s.addVal(ow, in, OSet{n: true})
			} else {
				s.addVal(ow, in, s.load(n, T))
			}
		}
	case *ssa.Slice:
		if _, isStr := in.X.Type().Underlying().(*types.Basic); !isStr {
			s.addVal(ow, in, ow.pts(s, in.X))
		}
	case *ssa.UnOp:
		if in.Op.String() != "*" || !refType(in.Type()) {
			return
		}
		if v := forwarded(in); v != nil {
			s.addVal(ow, in, ow.pts(s, v))
			return
		}
		for l := range ow.pts(s, in.X) {
			if isComposite(in.Type()) {
				s.addVal(ow, in, OSet{l: true})
			} else {
				s.addVal(ow, in, s.load(l, in.Type()))
			}
		}
	case *ssa.ChangeType:
		s.addVal(ow, in, ow.pts(s, in.X))
	case *ssa.ChangeInterface:
		s.addVal(ow, in, ow.pts(s, in.X))
	case *ssa.MakeInterface:
		if refType(in.X.Type()) {
			s.addVal(ow, in, ow.pts(s, in.X))
		}
	case *ssa.TypeAssert:
		s.addVal(ow, in, ow.pts(s, in.X))
	case *ssa.SliceToArrayPointer:
		s.addVal(ow, in, ow.pts(s, in.X))
	case *ssa.Convert:
		if refType(in.Type()) {
			alloc(in)
		}
	case *ssa.Range:
		s.addVal(ow, in, ow.pts(s, in.X))
	case *ssa.Next:
		s.addVal(ow, in, ow.pts(s, in.Iter))
	case *ssa.Extract:
		if !refType(in.Type()) {
			return
		}
		switch t := in.Tuple.(type) {
		case *ssa.Next:
			if in.Index == 2 {
				for l := range ow.pts(s, t) {
					n := OLoc{l.o, l.path + "[]"}
					if isComposite(in.Type()) {
						s.addVal(ow, in, OSet{n: true})
					} else {
						s.addVal(ow, in, s.load(n, in.Type()))
					}
				}
			}
		case *ssa.Call:
			s.addVal(ow, in, s.tups[t][in.Index])
		default:
			if in.Index == 0 {
				s.addVal(ow, in, ow.pts(s, t))
			}
		}
	case *ssa.Store:
		for l := range ow.pts(s, in.Addr) {
			s.mut(ow, l, "store", at, s.fn)
			ow.assign(s, l, in.Val)
		}
	case *ssa.MapUpdate:
		for l := range ow.pts(s, in.Map) {
			n := OLoc{l.o, l.path + "[]"}
			s.mut(ow, n, "map update", at, s.fn)
			ow.assign(s, n, in.Value)
		}
	case *ssa.Send:
		for l := range ow.pts(s, in.Chan) {
			s.mut(ow, l, "send", at, s.fn)
		}
	case *ssa.Return:
		for i, r := range in.Results {
			if !refType(r.Type()) {
				continue
			}
			for x := range ow.pts(s, r) {
				if !s.rets[i][x] {
					s.rets[i][x] = true
					s.size++
					ow.chg = true
				}
			}
		}
	case ssa.CallInstruction:
		ow.call(s, in, at, site())
	}
}

// forwarded: the value stored right before the load at the same address, with no store or call in between
func forwarded(in *ssa.UnOp) ssa.Value {
	if isComposite(in.Type()) {
		return nil
	}
	same := func(a, b ssa.Value) bool {
		if a == b {
			return true
		}
		switch x := a.(type) {
		case *ssa.FieldAddr:
			y, ok := b.(*ssa.FieldAddr)
			return ok && x.X == y.X && x.Field == y.Field
		case *ssa.IndexAddr:
			y, ok := b.(*ssa.IndexAddr)
			if !ok || x.X != y.X {
				return false
			}
			if x.Index == y.Index {
				return true
			}
			c, ok1 := x.Index.(*ssa.Const)
			d, ok2 := y.Index.(*ssa.Const)
			return ok1 && ok2 && c.Value != nil && d.Value != nil && c.Int64() == d.Int64()
		}
		return false
	}
	b := in.Block()
	i := instrIndex(in) - 1
	for k := 0; k < 8; k++ {
		for ; i >= 0; i-- {
			switch x := b.Instrs[i].(type) {
			case *ssa.Store:
				if same(x.Addr, in.X) {
					return x.Val
				}
				if types.Identical(x.Addr.Type(), in.X.Type()) {
					return nil
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
					continue
				}
				if x.Call.IsInvoke() && x.Call.Value.Type().String() != "go.dedis.ch/kyber/v3.Group" {
					return nil
				}
				if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
					return nil
				}
			case *ssa.MapUpdate, ssa.CallInstruction:
				return nil
			}
		}
		if len(b.Preds) != 1 {
			return nil
		}
		b = b.Preds[0]
		i = len(b.Instrs) - 1
	}
	return nil
}

// assign v to the location
func (ow *Own) assign(s *OSum, l OLoc, v ssa.Value) {
	T := v.Type()
	if !refType(T) {
		return
	}
	if !isComposite(T) {
		s.addHeap(ow, l, ow.pts(s, v))
		return
	}
	for x := range ow.pts(s, v) {
		if x == l {
			continue
		}
		for _, p := range leafPaths(T, "") {
			s.addHeap(ow, OLoc{l.o, l.path + p.p}, s.load(OLoc{x.o, x.path + p.p}, p.T))
		}
	}
}

// callees of the call with the sets of the arguments
func (ow *Own) call(s *OSum, in ssa.CallInstruction, at, site string) {
	c := in.Common()
	var args []OSet
	var res ssa.Value
	if v, ok := in.(*ssa.Call); ok {
		res = v
	}
	setRes := func(i int, set OSet) {
		if res == nil {
			return
		}
		if tup, ok := res.Type().(*types.Tuple); ok {
			if i >= tup.Len() || !refType(tup.At(i).Type()) {
				return
			}
			if s.tups[res] == nil {
				s.tups[res] = map[int]OSet{}
			}
			m := s.tups[res][i]
			if m == nil {
				m = OSet{}
				s.tups[res][i] = m
			}
			for x := range set {
				if !m[x] {
					m[x] = true
					s.size++
					ow.chg = true
				}
			}
			return
		}
		if refType(res.Type()) {
			s.addVal(ow, res, set)
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			r := OSet{}
			fresh := OLoc{s.obj('a', site, res.Type()), ""}
			r[fresh] = true
			el := res.Type().Underlying().(*types.Slice).Elem()
			for l := range ow.pts(s, c.Args[0]) {
				r[l] = true
				s.mut(ow, OLoc{l.o, l.path + "[]"}, "append", at, s.fn)
				for _, p := range leafPaths(el, "[]") {
					s.addHeap(ow, OLoc{fresh.o, p.p}, s.load(OLoc{l.o, l.path + p.p}, p.T))
				}
			}
			for y := range ow.pts(s, c.Args[1]) {
				for l := range r {
					for _, p := range leafPaths(el, "[]") {
						s.addHeap(ow, OLoc{l.o, l.path + p.p}, s.load(OLoc{y.o, y.path + p.p}, p.T))
					}
				}
			}
			setRes(0, r)
		case "copy":
			for l := range ow.pts(s, c.Args[0]) {
				s.mut(ow, OLoc{l.o, l.path + "[]"}, "copy", at, s.fn)
				if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
					for y := range ow.pts(s, c.Args[1]) {
						for _, p := range leafPaths(sl.Elem(), "[]") {
							s.addHeap(ow, OLoc{l.o, l.path + p.p}, s.load(OLoc{y.o, y.path + p.p}, p.T))
						}
					}
				}
			}
		case "delete", "clear":
			for l := range ow.pts(s, c.Args[0]) {
				s.mut(ow, OLoc{l.o, l.path + "[]"}, "delete", at, s.fn)
			}
		}
		return
	}
	if c.IsInvoke() {
		args = append(args, ow.pts(s, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, ow.pts(s, a))
	}
	done := false
	if c.IsInvoke() {
		for _, fn := range ow.implsOf(s, c) {
			ow.inst(s, fn, args, nil, site, at, setRes)
			done = true
		}
		// implementations outside of the module
		if !done || ow.openIface(c) {
			ow.external(s, in, c, invokeName(c), args, site, at, setRes)
		}
		return
	}
	if fn := c.StaticCallee(); fn != nil {
		var free []OSet
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, ow.pts(s, b))
			}
		}
		if fn.Blocks != nil && (ow.W.inMod[fn] || fn.Synthetic != "" && ow.W.wraps(fn)) {
			ow.inst(s, fn, args, free, site, at, setRes)
			return
		}
		ow.external(s, in, c, extName(fn), args, site, at, setRes)
		return
	}
	// call of a function value
	for l := range ow.pts(s, c.Value) {
		if l.o.fn != nil {
			ow.inst(s, l.o.fn, args, ow.freeOf(s, l.o), site, at, setRes)
			done = true
		}
	}
	if !done {
		ow.external(s, in, c, "func", args, site, at, setRes)
	}
}

func (ow *Own) freeOf(s *OSum, o *OObj) []OSet {
	var r []OSet
	for i := range o.fn.FreeVars {
		r = append(r, s.heap[OLoc{o, fmt.Sprintf("$%d", i)}])
	}
	return r
}

func (w *World) wraps(fn *ssa.Function) bool {
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) || fn.Pkg == nil && strings.Contains(fn.String(), modPath)
}

func invokeName(c *ssa.CallCommon) string {
	T := c.Value.Type()
	n := T.String()
	if nm, ok := T.(*types.Named); ok {
		n = nm.Obj().Name()
		if nm.Obj().Pkg() != nil {
			n = nm.Obj().Pkg().Name() + "." + n
		}
	}
	return n + "." + c.Method.Name()
}

func extName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		T := r.Type()
		if p, ok := T.(*types.Pointer); ok {
			T = p.Elem()
		}
		if nm, ok := T.(*types.Named); ok && nm.Obj().Pkg() != nil {
			return nm.Obj().Pkg().Name() + "." + nm.Obj().Name() + "." + fn.Name()
		}
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	return fn.String()
}

// openIface: interfaces which the user or other libraries implement as well
func (ow *Own) openIface(c *ssa.CallCommon) bool {
	n := invokeName(c)
	return strings.HasPrefix(n, "trie.KV") || strings.HasPrefix(n, "io.")
}

// implsOf the method in the module
func (ow *Own) implsOf(s *OSum, c *ssa.CallCommon) []*ssa.Function {
	iface, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	// types known from the allocation
	exact := true
	var known []types.Type
	for l := range ow.pts(s, c.Value) {
		if l.o.kind != 'a' || l.path != "" || l.o.T == nil || types.IsInterface(l.o.T) {
			exact = false
		} else {
			known = append(known, l.o.T)
		}
	}
	key := c.Value.Type().String() + "." + c.Method.Name()
	fs, done := ow.impl[key]
	if !done {
		var allow map[string]bool
		if nm, ok := c.Value.Type().(*types.Named); ok && ow.Bind != nil {
			if b, ok := ow.Bind[nm.Obj().Name()]; ok {
				allow = map[string]bool{}
				for _, x := range b {
					allow[x] = true
				}
			}
		}
		for _, sh := range libPkgs {
			sc := ow.W.Pkgs[sh].Pkg.Scope()
			for _, name := range sc.Names() {
				tn, ok := sc.Lookup(name).(*types.TypeName)
				if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
					continue
				}
				if allow != nil && !allow[name] {
					continue
				}
				for _, T := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					if !types.Implements(T, iface) {
						continue
					}
					if sel := ow.W.Prog.MethodSets.MethodSet(T).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
						if fn := ow.W.Prog.MethodValue(sel); fn != nil && fn.Blocks != nil {
							fs = append(fs, fn)
							break
						}
					}
				}
			}
		}
		ow.impl[key] = fs
	}
	if !exact || len(known) == 0 {
		return fs
	}
	var r []*ssa.Function
	for _, fn := range fs {
		rt := fn.Signature.Recv()
		if rt == nil {
			r = append(r, fn)
			continue
		}
		for _, T := range known {
			if types.Identical(derefT(T), derefT(rt.Type())) {
				r = append(r, fn)
				break
			}
		}
	}
	if len(r) == 0 {
		return fs
	}
	return r
}

func (ow *Own) num(fn *ssa.Function) int {
	n, ok := ow.nums[fn]
	if !ok {
		n = len(ow.nums)
		ow.nums[fn] = n
	}
	return n
}

// inst instantiates the summary of the callee
func (ow *Own) inst(s *OSum, fn *ssa.Function, args, free []OSet, site, at string, setRes func(int, OSet)) {
	cs := ow.sum(fn)
	site = fmt.Sprintf("%s%d", site, ow.num(fn))
	if cs == s {
		// direct recursion: use a snapshot
		cp := *cs
		cp.heap = map[OLoc]OSet{}
		for k, v := range cs.heap {
			n := OSet{}
			for x := range v {
				n[x] = true
			}
			cp.heap[k] = n
		}
		cp.muts = map[string]*OMut{}
		for k, v := range cs.muts {
			cp.muts[k] = v
		}
		cs = &cp
	}
	memo := map[*OObj]OSet{}
	var base func(o *OObj) OSet
	shift := func(b OSet, path string) OSet {
		if path == "" {
			return b
		}
		r := OSet{}
		for l := range b {
			r[OLoc{l.o, l.path + path}] = true
		}
		return r
	}
	base = func(o *OObj) OSet {
		if r, ok := memo[o]; ok {
			return r
		}
		r := OSet{}
		memo[o] = r
		switch o.kind {
		case 'p':
			if o.n < len(args) {
				for l := range args[o.n] {
					r[l] = true
				}
			}
		case 'v':
			if o.n < len(free) {
				for l := range free[o.n] {
					r[l] = true
				}
			}
		case 'g':
			r[OLoc{s.obj('g', o.id, o.T), ""}] = true
		case 'f':
			n := s.obj('f', o.id, o.T)
			n.fn = o.fn
			r[OLoc{n, ""}] = true
		case 'c':
			for l := range shift(base(o.par.o), o.par.path) {
				for x := range s.load(l, o.T) {
					r[x] = true
				}
			}
		case 'a', 'x':
			id := site + "/" + o.id
			if strings.Count(id, "/") > 4 {
				id = site + "/" + o.id[strings.LastIndexByte(o.id, '/')+1:]
			}
			n := s.obj(o.kind, id, o.T)
			if o.fn != nil {
				n.fn = o.fn
			}
			r[OLoc{n, ""}] = true
		}
		return r
	}
	img := func(l OLoc) OSet { return shift(base(l.o), l.path) }
	// the contents: outside objects may become known only by the stores, so repeat
	for k := 0; k < 3; k++ {
		memo = map[*OObj]OSet{}
		n := s.size
		for l, v := range cs.heap {
			set := OSet{}
			for x := range v {
				for y := range img(x) {
					set[y] = true
				}
			}
			for d := range img(l) {
				s.addHeap(ow, d, set)
			}
		}
		if s.size == n {
			break
		}
	}
	for _, m := range cs.muts {
		for d := range img(m.loc) {
			s.mut(ow, d, m.what, m.at, m.in)
		}
	}
	for i, r := range cs.rets {
		set := OSet{}
		for x := range r {
			for y := range img(x) {
				set[y] = true
			}
		}
		setRes(i, set)
	}
}

// methods of curve elements which modify the receiver and return it
var kyberMut = map[string]bool{"Add": true, "Sub": true, "Neg": true, "Mul": true, "Div": true, "Inv": true, "Set": true, "SetInt64": true, "SetBytes": true, "Zero": true, "One": true, "Null": true, "Base": true, "Pick": true, "Embed": true, "UnmarshalBinary": true, "UnmarshalFrom": true}

// external functions: effects on the arguments and what the result refers to
func (ow *Own) external(s *OSum, in ssa.CallInstruction, c *ssa.CallCommon, name string, args []OSet, site, at string, setRes func(int, OSet)) {
	fresh := OSet{}
	var rT types.Type
	if v, ok := in.(*ssa.Call); ok {
		rT = v.Type()
	}
	fresh[OLoc{s.obj('a', site, rT), ""}] = true
	all := func(set OSet) {
		n := 1
		t, isTup := rT.(*types.Tuple)
		if isTup {
			n = t.Len()
		}
		for i := 0; i < n; i++ {
			if isTup && isErrT(t.At(i).Type()) || !isTup && rT != nil && isErrT(rT) {
				setRes(i, fresh)
			} else {
				setRes(i, set)
			}
		}
	}
	mutate := func(i int, what string) {
		if i < len(args) {
			for l := range args[i] {
				s.mut(ow, l, what, at, s.fn)
			}
		}
	}
	// callbacks run with arguments which belong to the caller of the callback
	for i, a := range args {
		k := i
		if c.IsInvoke() {
			k--
		}
		if k < 0 || k >= len(c.Args) {
			continue
		}
		if _, isF := c.Args[k].Type().Underlying().(*types.Signature); !isF {
			continue
		}
		for l := range a {
			if l.o.fn == nil || l.o.fn.Blocks == nil {
				continue
			}
			var as []OSet
			for j, p := range l.o.fn.Params {
				if refType(p.Type()) {
					as = append(as, OSet{OLoc{s.obj('x', fmt.Sprintf("%s.cb%d", site, j), p.Type()), ""}: true})
				} else {
					as = append(as, nil)
				}
			}
			ow.inst(s, l.o.fn, as, ow.freeOf(s, l.o), site+"cb", at, func(int, OSet) {})
		}
	}
	meth := name[strings.LastIndexByte(name, '.')+1:]
	switch {
	case strings.HasPrefix(name, "kyber.") || strings.HasPrefix(name, "bn256.") || strings.HasPrefix(name, "mod."):
		if kyberMut[meth] && len(args) > 0 {
			mutate(0, "kyber "+meth)
			if meth == "UnmarshalFrom" && len(args) > 1 {
				mutate(1, "read")
			}
			all(args[0])
			return
		}
		if meth == "MarshalTo" {
			mutate(1, "write")
		}
		all(fresh)
		return
	case strings.HasPrefix(name, "big.Int."):
		switch meth {
		case "Set", "SetInt64", "SetBytes", "Add", "Sub", "Mul", "Div", "Mod", "Neg", "Exp", "ModInverse", "Quo", "Rem", "Sqrt", "Lsh", "Rsh", "And", "Or", "SetString", "SetUint64", "SetBit", "Abs":
			mutate(0, "big "+meth)
			all(args[0])
			return
		case "DivMod", "QuoRem":
			mutate(0, "big "+meth)
			mutate(3, "big "+meth)
			all(args[0])
			return
		}
		all(fresh)
		return
	case name == "io.ReadFull" || name == "io.ReadAtLeast":
		mutate(0, "read")
		for l := range args[1] {
			s.mut(ow, OLoc{l.o, l.path + "[]"}, "read into", at, s.fn)
		}
		return
	case strings.HasSuffix(name, "Reader.Read") || strings.HasSuffix(name, "File.Read") || name == "rand.Rand.Read":
		mutate(0, "read")
		for l := range args[1] {
			s.mut(ow, OLoc{l.o, l.path + "[]"}, "read into", at, s.fn)
		}
		return
	case strings.HasPrefix(name, "bytes.Buffer."):
		switch meth {
		case "Bytes":
			for l := range args[0] {
				all(s.load(OLoc{l.o, l.path + ".buf"}, nil))
				if !outside(l.o) {
					s.addHeap(ow, OLoc{l.o, l.path + ".buf"}, fresh)
				}
			}
			return
		case "Len", "String", "Cap":
			return
		}
		mutate(0, "write")
		return
	case name == "bytes.NewReader" || name == "bytes.NewBuffer" || name == "strings.NewReader" || name == "bufio.NewReader" || name == "bufio.NewWriter":
		for l := range fresh {
			if len(args) > 0 {
				s.addHeap(ow, OLoc{l.o, ".buf"}, args[0])
			}
		}
		all(fresh)
		return
	case meth == "Write" || meth == "WriteByte" || meth == "WriteString":
		mutate(0, "write")
		return
	case strings.HasPrefix(meth, "PutUint"):
		for l := range args[len(args)-2] {
			s.mut(ow, OLoc{l.o, l.path + "[]"}, "put", at, s.fn)
		}
		return
	case strings.HasPrefix(name, "sort."):
		if len(args) > 0 {
			for l := range args[0] {
				s.mut(ow, OLoc{l.o, l.path + "[]"}, "sort", at, s.fn)
			}
		}
		return
	case c.IsInvoke() && (meth == "Set" || meth == "Delete" || meth == "Commit" || meth == "Flush" || meth == "DeletePrefix" || meth == "Clear"):
		mutate(0, name)
		all(fresh)
		return
	case name == "func":
		all(fresh)
		return
	case strings.HasPrefix(name, "bytes.") || strings.HasPrefix(name, "slices.") || name == "io.LimitReader" || name == "io.TeeReader" || name == "io.MultiReader":
		u := OSet{}
		for l := range fresh {
			u[l] = true
		}
		for _, a := range args {
			for l := range a {
				u[l] = true
			}
		}
		all(u)
		return
	case name == "bytes.Clone" || name == "slices.Clone":
		all(fresh)
		return
	}
	all(fresh)
}

// Reach lists the locations reachable from the set; via names the path
func (s *OSum) Reach(from OSet, visit func(l OLoc)) {
	seen := map[OLoc]bool{}
	var wl []OLoc
	push := func(l OLoc) {
		if !seen[l] {
			seen[l] = true
			wl = append(wl, l)
		}
	}
	for l := range from {
		push(l)
	}
	for len(wl) > 0 {
		l := wl[len(wl)-1]
		wl = wl[:len(wl)-1]
		visit(l)
		for h, v := range s.heap {
			if h.o == l.o && strings.HasPrefix(h.path, l.path) {
				for x := range v {
					push(x)
				}
			}
		}
	}
}

// root of an outside object and the path to it
func (l OLoc) root() (*OObj, string) {
	p := l.path
	o := l.o
	for o.kind == 'c' {
		p = o.par.path + p
		o = o.par.o
	}
	return o, p
}

func (s *OSum) Muts() []*OMut {
	var r []*OMut
	for _, k := range sortedKeys(s.muts) {
		r = append(r, s.muts[k])
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].at < r[j].at })
	return r
}

func dumpOwn(w *World, fn *ssa.Function) {
	ow := NewOwn(w, nil)
	ow.Run(fn)
	s := ow.sums[fn]
	fmt.Println("OWN", fname(fn), "sums", len(ow.sums))
	for i, r := range s.rets {
		for l := range r {
			fmt.Println("  ret", i, l, string(l.o.kind), l.o.T)
		}
	}
	for l, v := range s.heap {
		if !outside(l.o) && os.Getenv("OWN") != "2" {
			continue
		}
		for x := range v {
			fmt.Println("  heap", l, "<-", x, string(x.o.kind))
		}
	}
	for _, m := range s.Muts() {
		if outside(m.loc.o) {
			fmt.Println("  mut", m.loc, m.what, m.at)
		}
	}
}
