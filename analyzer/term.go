package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed symbolic name of a value: terms are equal iff they are the same pointer.
// Terms of values which are not functions of other terms (allocations, results of opaque calls, phis) are unique
// per context and instruction
type Term struct {
	ID     int
	Op     string
	Name   string
	Args   []*Term
	T      types.Type
	Lin    *Lin
	Ctx    *Ctx      // unique terms only
	V      ssa.Value // unique terms only
	leaves map[*Term]bool
	f      *Flow
}

type linItem struct {
	T *Term
	K int64
}

// Lin is a linear integer expression
type Lin struct {
	C int64
	M []linItem
}

func (l *Lin) key() string {
	var sb strings.Builder
	for _, m := range l.M {
		fmt.Fprintf(&sb, "%d*%d,", m.K, m.T.ID)
	}
	fmt.Fprintf(&sb, "%d", l.C)
	return sb.String()
}

func (l *Lin) vkey() string {
	var sb strings.Builder
	for _, m := range l.M {
		fmt.Fprintf(&sb, "%d*%d,", m.K, m.T.ID)
	}
	return sb.String()
}

func linAdd(a, b *Lin, k int64) *Lin {
	m := map[*Term]int64{}
	for _, x := range a.M {
		m[x.T] += x.K
	}
	for _, x := range b.M {
		m[x.T] += k * x.K
	}
	r := &Lin{C: a.C + k*b.C}
	for t, c := range m {
		if c != 0 {
			r.M = append(r.M, linItem{t, c})
		}
	}
	sort.Slice(r.M, func(i, j int) bool { return r.M[i].T.ID < r.M[j].T.ID })
	return r
}

func linScale(a *Lin, k int64) *Lin { return linAdd(&Lin{}, a, k) }

// Ctx is an inlined instance of a function
type Ctx struct {
	ID     int
	Fn     *ssa.Function
	Parent *Ctx
	Call   ssa.Instruction // call site in the parent
	Params []*Term
	Free   []*Term
	Depth  int
	IsCB   bool // callback invoked by an opaque function
	vals   map[ssa.Value]*Term
	childs map[ssa.Instruction]*Ctx
	cbs    map[string]*Ctx
}

func (c *Ctx) within(p *Ctx) bool {
	for ; c != nil; c = c.Parent {
		if c == p {
			return true
		}
	}
	return false
}

func (f *Flow) intern(op, name string, T types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte('|')
		if a == nil {
			sb.WriteString("_")
		} else {
			sb.WriteString(strconv.Itoa(a.ID))
		}
	}
	k := sb.String()
	if t, ok := f.terms[k]; ok {
		if t.T == nil {
			t.T = T
		}
		return t
	}
	t := &Term{ID: len(f.terms) + 1, Op: op, Name: name, Args: args, T: T, f: f}
	f.terms[k] = t
	return t
}

func (f *Flow) unique(op string, ctx *Ctx, v ssa.Value, suffix string) *Term {
	t := f.intern(op, fmt.Sprintf("%d.%s%s", ctx.ID, vname(v), suffix), v.Type())
	t.Ctx, t.V = ctx, v
	return t
}

func vname(v ssa.Value) string {
	if v == nil {
		return "?"
	}
	return v.Name()
}

// isUnique tells whether the value of the term is redefined each time its instruction is executed
func (t *Term) isUnique() bool { return t.Ctx != nil }

// Leaves are the unique terms the term depends on
func (t *Term) Leaves() map[*Term]bool {
	if t.leaves == nil {
		t.leaves = map[*Term]bool{}
		if t.isUnique() {
			t.leaves[t] = true
		}
		for _, a := range t.Args {
			if a != nil {
				for l := range a.Leaves() {
					t.leaves[l] = true
				}
			}
		}
		if t.Lin != nil {
			for _, m := range t.Lin.M {
				for l := range m.T.Leaves() {
					t.leaves[l] = true
				}
			}
		}
	}
	return t.leaves
}

// Contains tells whether sub is a subterm of t
func (t *Term) Contains(sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.Args {
		if a != nil && a.Contains(sub) {
			return true
		}
	}
	if t.Lin != nil {
		for _, m := range t.Lin.M {
			if m.T.Contains(sub) {
				return true
			}
		}
	}
	return false
}

// Any tells whether a subterm satisfies the predicate
func (t *Term) Any(p func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if p(t) {
		return true
	}
	for _, a := range t.Args {
		if a != nil && a.Any(p) {
			return true
		}
	}
	if t.Lin != nil {
		for _, m := range t.Lin.M {
			if m.T.Any(p) {
				return true
			}
		}
	}
	return false
}

func (t *Term) String() string {
	if t == nil {
		return "_"
	}
	switch t.Op {
	case "const":
		return t.Name
	case "param":
		return t.Name
	case "lin":
		var sb strings.Builder
		for i, m := range t.Lin.M {
			if i > 0 && m.K >= 0 {
				sb.WriteString("+")
			}
			if m.K == -1 {
				sb.WriteString("-")
			} else if m.K != 1 {
				fmt.Fprintf(&sb, "%d*", m.K)
			}
			sb.WriteString(m.T.String())
		}
		if t.Lin.C != 0 {
			fmt.Fprintf(&sb, "%+d", t.Lin.C)
		}
		return sb.String()
	case "sel":
		return t.Args[0].String() + "." + t.Name
	case "fa":
		return t.Args[0].String() + "." + t.Name
	case "idx", "lookup", "ia":
		return t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case "ld":
		return "*" + t.Args[0].String()
	case "slice":
		return t.Args[0].String() + "[" + t.Args[1].String() + ":" + t.Args[2].String() + "]"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.String())
	}
	s := t.Op
	if t.Name != "" {
		s += ":" + t.Name
	}
	if len(as) > 0 {
		s += "(" + strings.Join(as, ",") + ")"
	}
	return s
}

// IsNil etc
func (t *Term) IsNil() bool           { return t.Op == "const" && t.Name == "nil" }
func (t *Term) IsConst(s string) bool { return t.Op == "const" && t.Name == s }
func (t *Term) Int() (int64, bool) {
	if t.Op == "const" {
		if t.Lin != nil {
			return t.Lin.C, true
		}
	}
	return 0, false
}

func (f *Flow) constInt(i int64, T types.Type) *Term {
	t := f.intern("const", strconv.FormatInt(i, 10), T)
	t.Lin = &Lin{C: i}
	return t
}

func (f *Flow) constNil() *Term    { return f.intern("const", "nil", nil) }
func (f *Flow) constNonNil() *Term { return f.intern("const", "NONNIL", nil) }
func (f *Flow) constBool(b bool) *Term {
	return f.intern("const", strconv.FormatBool(b), types.Typ[types.Bool])
}

func (f *Flow) fromLin(l *Lin, T types.Type) *Term {
	if len(l.M) == 0 {
		return f.constInt(l.C, T)
	}
	if len(l.M) == 1 && l.M[0].K == 1 && l.C == 0 {
		return l.M[0].T
	}
	t := f.intern("lin", l.key(), T)
	t.Lin = l
	return t
}

func (f *Flow) toLin(t *Term) *Lin {
	if t.Lin != nil {
		return t.Lin
	}
	return &Lin{M: []linItem{{t, 1}}}
}

func isInt(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func basicKind(T types.Type) types.BasicKind {
	if b, ok := T.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

// intRange of a type; ok == false if it is 64 bit
func intRange(T types.Type) (lo, hi int64, ok bool) {
	switch basicKind(T) {
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	}
	return 0, 0, false
}

func isWide(T types.Type) bool {
	switch basicKind(T) {
	case types.Int, types.Int64, types.UntypedInt:
		return true
	}
	return false
}

// widening: every value of type from is a value of type to
func widening(from, to types.Type) bool {
	if !isInt(from) || !isInt(to) {
		return false
	}
	if basicKind(from) == basicKind(to) {
		return true
	}
	lo, hi, ok := intRange(from)
	if !ok {
		k := basicKind(from)
		tk := basicKind(to)
		return (k == types.Int || k == types.UntypedInt) && (tk == types.Int64 || tk == types.Int) || k == types.Int64 && tk == types.Int
	}
	lo2, hi2, ok2 := intRange(to)
	if !ok2 {
		switch basicKind(to) {
		case types.Uint, types.Uint64, types.Uintptr:
			return lo >= 0
		}
		return true
	}
	return lo2 <= lo && hi <= hi2
}

func (f *Flow) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		// nil or zero value of a composite type
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return f.intern("const", "zero:"+c.Type().String(), c.Type())
		}
		return f.constNil()
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return f.constBool(constant.BoolVal(c.Value))
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			return f.constInt(i, c.Type())
		}
	case constant.String:
		return f.intern("const", strconv.Quote(constant.StringVal(c.Value)), c.Type())
	}
	return f.intern("const", c.Value.ExactString(), c.Type())
}

// term returns the term of the value in the context
func (f *Flow) term(ctx *Ctx, v ssa.Value) *Term {
	if t, ok := ctx.vals[v]; ok {
		return t
	}
	t := f.mkTerm(ctx, v)
	if t.T == nil && !t.IsNil() {
		t.T = v.Type()
	}
	ctx.vals[v] = t
	return t
}

func fieldName(T types.Type, i int) string {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	st := T.Underlying().(*types.Struct)
	return st.Field(i).Name()
}

func (f *Flow) mkTerm(ctx *Ctx, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return f.constTerm(v)
	case *ssa.Parameter:
		for i, p := range ctx.Fn.Params {
			if p == v {
				return ctx.Params[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range ctx.Fn.FreeVars {
			if p == v && i < len(ctx.Free) {
				return ctx.Free[i]
			}
		}
	case *ssa.Global:
		return f.intern("global", v.RelString(nil), v.Type())
	case *ssa.Function:
		t := f.intern("func", fname(v), v.Type())
		t.V = v
		return t
	case *ssa.Builtin:
		return f.intern("builtin", v.Name(), v.Type())
	case *ssa.Alloc:
		return f.unique("alloc", ctx, v, "")
	case *ssa.MakeMap:
		return f.unique("makemap", ctx, v, "")
	case *ssa.MakeSlice:
		return f.unique("makeslice", ctx, v, "")
	case *ssa.MakeChan:
		return f.unique("makechan", ctx, v, "")
	case *ssa.MakeClosure:
		return f.unique("closure", ctx, v, "")
	case *ssa.Phi:
		// a phi of identical values is the value
		if len(v.Edges) > 0 {
			same := true
			for _, e := range v.Edges {
				if e != v.Edges[0] {
					same = false
				}
			}
			if same {
				return f.term(ctx, v.Edges[0])
			}
		}
		return f.unique("phi", ctx, v, "")
	case *ssa.FieldAddr:
		return f.mkFA(f.term(ctx, v.X), fieldName(v.X.Type(), v.Field), v.Type())
	case *ssa.Field:
		return f.mkSel(f.term(ctx, v.X), fieldName(v.X.Type(), v.Field), v.Type())
	case *ssa.IndexAddr:
		return f.mkIA(f.term(ctx, v.X), f.term(ctx, v.Index), v.Type())
	case *ssa.Index:
		return f.mkIdx(f.term(ctx, v.X), f.term(ctx, v.Index), v.Type())
	case *ssa.Lookup:
		x, k := f.term(ctx, v.X), f.term(ctx, v.Index)
		if _, ok := v.X.Type().Underlying().(*types.Map); ok {
			var et types.Type = v.Type()
			if v.CommaOk {
				et = v.Type().(*types.Tuple).At(0).Type()
			}
			return f.intern("lookup", "", et, x, k)
		}
		return f.mkIdx(x, k, v.Type())
	case *ssa.Slice:
		x := f.term(ctx, v.X)
		if a, ok := derefArr(v.X.Type()); ok {
			// slice of an array
			x = f.intern("arr", "", a, x)
		}
		lo := f.constInt(0, types.Typ[types.Int])
		if v.Low != nil {
			lo = f.term(ctx, v.Low)
		}
		var hi *Term
		if v.High != nil {
			hi = f.term(ctx, v.High)
		}
		return f.mkSlice(x, lo, hi, v.Type())
	case *ssa.UnOp:
		x := f.term(ctx, v.X)
		switch v.Op {
		case token.MUL:
			return f.mkLoad(x, v.Type())
		case token.NOT:
			return f.mkNot(x)
		case token.SUB:
			if isWide(v.Type()) {
				return f.fromLin(linScale(f.toLin(x), -1), v.Type())
			}
			return f.intern("neg", "", v.Type(), x)
		case token.XOR:
			return f.intern("bitnot", "", v.Type(), x)
		}
		return f.unique("recv", ctx, v, "")
	case *ssa.BinOp:
		return f.mkBin(v.Op, f.term(ctx, v.X), f.term(ctx, v.Y), v.Type(), v.X.Type())
	case *ssa.ChangeType:
		return f.term(ctx, v.X)
	case *ssa.ChangeInterface:
		return f.term(ctx, v.X)
	case *ssa.MakeInterface:
		t := f.term(ctx, v.X)
		if t.IsNil() || t.Op == "const" {
			// nil pointer in an interface is not nil
			return f.intern("iface", v.X.Type().String(), v.X.Type(), t)
		}
		return t
	case *ssa.TypeAssert:
		t := f.term(ctx, v.X)
		if v.CommaOk {
			return t
		}
		if t.T == nil || types.IsInterface(t.T) {
			return f.intern("as", v.AssertedType.String(), v.AssertedType, t)
		}
		return t
	case *ssa.Convert:
		x := f.term(ctx, v.X)
		return f.mkConv(x, v.X.Type(), v.Type())
	case *ssa.MultiConvert:
		return f.term(ctx, v.X)
	case *ssa.SliceToArrayPointer:
		return f.term(ctx, v.X)
	case *ssa.Range:
		t := f.unique("range", ctx, v, "")
		t.Args = nil
		return t
	case *ssa.Next:
		return f.unique("next", ctx, v, "")
	case *ssa.Select:
		return f.unique("select", ctx, v, "")
	case *ssa.Call:
		return f.callTerm(ctx, v)
	case *ssa.Extract:
		return f.extractTerm(ctx, v)
	}
	return f.unique("val", ctx, v, "")
}

func derefArr(T types.Type) (types.Type, bool) {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Array); ok {
			return p.Elem(), true
		}
	}
	return nil, false
}

func (f *Flow) mkNot(x *Term) *Term {
	if x.Op == "const" {
		return f.constBool(x.Name != "true")
	}
	if x.Op == "not" {
		return x.Args[0]
	}
	return f.intern("not", "", types.Typ[types.Bool], x)
}

func (f *Flow) mkFA(x *Term, name string, T types.Type) *Term {
	return f.intern("fa", name, T, x)
}

// mkSel is the field of a struct value
func (f *Flow) mkSel(x *Term, name string, T types.Type) *Term {
	switch x.Op {
	case "sel": // field of field: same as load of the address path
		return f.mkLoad(f.mkFA(f.mkFA(x.Args[0], x.Name, nil), name, nil), T)
	case "ld":
		return f.mkLoad(f.mkFA(x.Args[0], name, nil), T)
	}
	return f.intern("sel", name, T, x)
}

func (f *Flow) mkLoad(a *Term, T types.Type) *Term {
	switch a.Op {
	case "fa":
		if t := f.forwardField(a, T); t != nil {
			return t
		}
		return f.intern("sel", a.Name, T, a.Args[0])
	case "ia":
		return f.mkIdx(a.Args[0], a.Args[1], T)
	case "alloc":
		if t := f.forwardCell(a); t != nil {
			return t
		}
	}
	return f.intern("ld", "", T, a)
}

func (f *Flow) mkIA(x, i *Term, T types.Type) *Term {
	if x.Op == "slice" && isInt0(i) {
		return f.intern("ia", "", T, x.Args[0], f.addT(x.Args[1], i))
	}
	return f.intern("ia", "", T, x, i)
}

func isInt0(t *Term) bool { return true }

func (f *Flow) addT(a, b *Term) *Term {
	return f.fromLin(linAdd(f.toLin(a), f.toLin(b), 1), types.Typ[types.Int])
}

func (f *Flow) subT(a, b *Term) *Term {
	return f.fromLin(linAdd(f.toLin(a), f.toLin(b), -1), types.Typ[types.Int])
}

func (f *Flow) mkIdx(x, i *Term, T types.Type) *Term {
	if x.Op == "slice" {
		return f.mkIdx(x.Args[0], f.addT(x.Args[1], i), T)
	}
	if x.Op == "arr" {
		x = x.Args[0]
	}
	if x.Op == "str" || x.Op == "bytes" {
		x = x.Args[0]
	}
	return f.intern("idx", "", T, x, i)
}

func (f *Flow) mkLen(x *Term) *Term {
	switch x.Op {
	case "slice":
		return f.subT(x.Args[2], x.Args[1])
	case "str", "bytes":
		return f.mkLen(x.Args[0])
	case "arr":
		if a, ok := x.T.Underlying().(*types.Array); ok {
			return f.constInt(a.Len(), types.Typ[types.Int])
		}
	case "const":
		if x.Name == "nil" {
			return f.constInt(0, types.Typ[types.Int])
		}
		if s, err := strconv.Unquote(x.Name); err == nil {
			return f.constInt(int64(len(s)), types.Typ[types.Int])
		}
	case "makeslice":
		if ms, ok := x.V.(*ssa.MakeSlice); ok {
			return f.term(x.Ctx, ms.Len)
		}
	case "append":
		if len(x.Args) == 2 {
			if x.Args[0].IsNil() {
				return f.mkLen(x.Args[1])
			}
			return f.addT(f.mkLen(x.Args[0]), f.mkLen(x.Args[1]))
		}
	}
	if x.T != nil {
		T := x.T
		if p, ok := T.Underlying().(*types.Pointer); ok {
			T = p.Elem()
		}
		if a, ok := T.Underlying().(*types.Array); ok {
			return f.constInt(a.Len(), types.Typ[types.Int])
		}
	}
	return f.intern("len", "", types.Typ[types.Int], x)
}

func (f *Flow) mkSlice(x, lo, hi *Term, T types.Type) *Term {
	if hi == nil {
		hi = f.mkLen(x)
	}
	if i, ok := lo.Int(); ok && i == 0 && hi == f.mkLen(x) && x.Op != "arr" {
		return x
	}
	if x.Op == "slice" {
		nlo := f.addT(x.Args[1], lo)
		nhi := f.addT(x.Args[1], hi)
		return f.mkSlice(x.Args[0], nlo, nhi, T)
	}
	return f.intern("slice", "", T, x, lo, hi)
}

func (f *Flow) mkConv(x *Term, from, to types.Type) *Term {
	if isInt(from) && isInt(to) {
		if widening(from, to) {
			return x
		}
		if i, ok := x.Int(); ok {
			lo, hi, ok2 := intRange(to)
			if ok2 && i >= lo && i <= hi || !ok2 && i >= 0 {
				return f.constInt(i, to)
			}
		}
		// narrowing back what was widened before
		if x.T != nil && isInt(x.T) && widening(x.T, to) && x.Op != "lin" {
			return x
		}
		return f.intern("conv", to.Underlying().String(), to, x)
	}
	isStr := func(T types.Type) bool { return basicKind(T) == types.String || basicKind(T) == types.UntypedString }
	if isStr(from) && isStr(to) {
		return x
	}
	_, toSl := to.Underlying().(*types.Slice)
	_, fromSl := from.Underlying().(*types.Slice)
	if isStr(to) && fromSl {
		if x.Op == "bytes" {
			return x.Args[0]
		}
		return f.intern("str", "", to, x)
	}
	if isStr(from) && toSl {
		return f.intern("bytes", "", to, x)
	}
	if fromSl && toSl {
		return x
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return f.intern("conv", to.Underlying().String(), to, x)
}

func commutative(op token.Token) bool {
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR, token.EQL, token.NEQ:
		return true
	}
	return false
}

func (f *Flow) mkBin(op token.Token, x, y *Term, T, opT types.Type) *Term {
	if isInt(opT) {
		xi, xok := x.Int()
		yi, yok := y.Int()
		switch op {
		case token.ADD, token.SUB:
			if isWide(opT) || xok && yok {
				k := int64(1)
				if op == token.SUB {
					k = -1
				}
				return f.fromLin(linAdd(f.toLin(x), f.toLin(y), k), T)
			}
		case token.MUL:
			if isWide(opT) || xok && yok {
				if yok {
					return f.fromLin(linScale(f.toLin(x), yi), T)
				}
				if xok {
					return f.fromLin(linScale(f.toLin(y), xi), T)
				}
			}
		case token.QUO, token.REM, token.SHL, token.SHR, token.AND, token.OR, token.XOR, token.AND_NOT:
			if xok && yok && xi >= 0 && yi >= 0 {
				switch op {
				case token.QUO:
					if yi != 0 {
						return f.constInt(xi/yi, T)
					}
				case token.REM:
					if yi != 0 {
						return f.constInt(xi%yi, T)
					}
				case token.SHL:
					if yi < 31 {
						return f.constInt(xi<<uint(yi), T)
					}
				case token.SHR:
					return f.constInt(xi>>uint(yi), T)
				case token.AND:
					return f.constInt(xi&yi, T)
				case token.OR:
					return f.constInt(xi|yi, T)
				case token.XOR:
					return f.constInt(xi^yi, T)
				case token.AND_NOT:
					return f.constInt(xi&^yi, T)
				}
			}
			if op == token.OR || op == token.AND {
				// flags built up from zero
				if xok && xi == 0 && op == token.OR {
					return y
				}
				if yok && yi == 0 && op == token.OR {
					return x
				}
			}
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if xok && yok {
				var b bool
				switch op {
				case token.EQL:
					b = xi == yi
				case token.NEQ:
					b = xi != yi
				case token.LSS:
					b = xi < yi
				case token.LEQ:
					b = xi <= yi
				case token.GTR:
					b = xi > yi
				case token.GEQ:
					b = xi >= yi
				}
				return f.constBool(b)
			}
			d := linAdd(f.toLin(x), f.toLin(y), -1)
			switch op {
			case token.EQL:
				return f.eq0(d)
			case token.NEQ:
				return f.mkNot(f.eq0(d))
			case token.LSS: // x-y+1<=0
				return f.le0(linAdd(d, &Lin{C: 1}, 1))
			case token.LEQ:
				return f.le0(d)
			case token.GTR: // y-x+1<=0
				return f.le0(linAdd(&Lin{C: 1}, d, -1))
			case token.GEQ:
				return f.le0(linScale(d, -1))
			}
		}
	} else {
		switch op {
		case token.EQL, token.NEQ:
			t := f.mkEq(x, y)
			if op == token.NEQ {
				return f.mkNot(t)
			}
			return t
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return f.intern("cmp", op.String(), T, x, y)
		case token.ADD:
			return f.intern("bin", op.String(), T, x, y) // string concatenation
		}
	}
	if commutative(op) && x.ID > y.ID {
		x, y = y, x
	}
	return f.intern("bin", op.String(), T, x, y)
}

// eq0 and le0 are boolean terms over a linear expression
func (f *Flow) eq0(l *Lin) *Term {
	if len(l.M) == 0 {
		return f.constBool(l.C == 0)
	}
	if l.M[0].K < 0 {
		l = linScale(l, -1)
	}
	t := f.intern("eq0", l.key(), types.Typ[types.Bool], f.fromLinRaw(l))
	return t
}

func (f *Flow) le0(l *Lin) *Term {
	if len(l.M) == 0 {
		return f.constBool(l.C <= 0)
	}
	return f.intern("le0", l.key(), types.Typ[types.Bool], f.fromLinRaw(l))
}

func (f *Flow) fromLinRaw(l *Lin) *Term {
	t := f.intern("lin", l.key(), types.Typ[types.Int])
	t.Lin = l
	return t
}

func stripStr(t *Term) (*Term, bool) {
	if t.Op == "str" {
		return t.Args[0], true
	}
	return t, false
}

func (f *Flow) mkEq(x, y *Term) *Term {
	if x == y {
		return f.constBool(true)
	}
	isB := func(t *Term) bool { return t.IsConst("true") || t.IsConst("false") }
	if isB(x) {
		x, y = y, x
	}
	if isB(y) {
		if isB(x) {
			return f.constBool(x == y)
		}
		if y.IsConst("true") {
			return x
		}
		return f.mkNot(x)
	}
	a, ok1 := stripStr(x)
	b, ok2 := stripStr(y)
	if ok1 && ok2 {
		return f.bytesEq(a, b)
	}
	nn := f.constNonNil()
	if x == nn || y == nn {
		o := x
		if x == nn {
			o = y
		}
		if o.IsNil() {
			return f.constBool(false)
		}
	}
	if y.IsNil() && f.nonNil(x) || x.IsNil() && f.nonNil(y) {
		return f.constBool(false)
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return f.intern("eq", "", types.Typ[types.Bool], x, y)
}

func (f *Flow) bytesEq(a, b *Term) *Term {
	if a == b {
		return f.constBool(true)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return f.intern("call", "bytes.Equal", types.Typ[types.Bool], a, b)
}

// nonNil: values which are never nil
func (f *Flow) nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "makemap", "makeslice", "closure", "func", "fa", "ia", "global", "makechan", "iface":
		return true
	case "call":
		switch t.CallName() {
		case "errors.New", "fmt.Errorf", "golang.org/x/xerrors.New", "golang.org/x/xerrors.Errorf", "xerrors.New", "xerrors.Errorf":
			return true
		}
	case "ld":
		// package level error variables
		if g := t.Args[0]; g.Op == "global" && t.T != nil && t.T.String() == "error" {
			return true
		}
	case "const":
		return t.Name == "NONNIL"
	}
	return false
}
