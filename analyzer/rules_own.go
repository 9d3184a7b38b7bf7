package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C11"] = checkDef{run: runC11,
		explanation: "Ownership analysis (compositional points-to analysis over SSA with access paths, context-sensitive by instantiation of summaries) of every Clone: nothing mutable reachable from the copy is reachable from the original, and data-flow obligations that every field of the copied structures is copied: each field of the copy is derived from the same field of the original, and loops which copy maps copy every entry under its key."}
	checks["C12"] = checkDef{run: runC12,
		explanation: "Ownership analysis of the operations of the trie: no object which belongs to a byte buffer of the caller becomes reachable from the trie, the commitment or the node; no byte buffer, map or curve element reachable from a returned proof, commitment or serialized form is reachable from the trie, the node or the proof it was made from."}
	checks["C14"] = checkDef{run: runC14,
		explanation: "Effect analysis (side effects by location, over the call graph with all implementations of the interfaces): the operations which only read have no effect on anything reachable from their receiver, their arguments or global variables, except on the reader or writer they are given; operations which modify only modify what is their purpose; only the listed operations write to a key/value store."}
	checks["C21"] = checkDef{run: runC21,
		explanation: "Ownership analysis of the KZG package: the receiver of every arithmetic operation of the curve library (which modifies its receiver) belongs to an element created by the same computation, and elements returned or stored by a computation are not shared with the trusted setup, a node, a proof or an argument."}
}

// api finds the exported functions and methods of the packages by name "pkg:Func" or "pkg:Type.Method"; '*' stands for all
func (w *World) api(names ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, n := range names {
		pk, name, _ := strings.Cut(n, ":")
		if f := w.Func(pk, name); f != nil {
			r = append(r, f)
		}
	}
	return r
}

func isKyber(T types.Type) bool {
	if T == nil {
		return false
	}
	s := T.String()
	return strings.Contains(s, "go.dedis.ch/kyber/v3.Point") || strings.Contains(s, "go.dedis.ch/kyber/v3.Scalar")
}

// ioParams: parameters of the function which are readers or writers
func ioParam(fn *ssa.Function, i int) bool {
	if i >= len(fn.Params) {
		return false
	}
	T := fn.Params[i].Type()
	s := T.String()
	return s == "io.Reader" || s == "io.Writer" || strings.HasSuffix(s, "bytes.Buffer") || s == "*os.File"
}

type effectRule struct {
	fn    string
	allow string // regular expression on the location
}

func (r *Report) own(bind map[string][]string, fns []*ssa.Function) *Own {
	ow := NewOwn(r.W, bind)
	ow.Run(fns...)
	for f := range ow.sums {
		if r.W.inMod[f] {
			r.Funcs[fname(f)] = true
		}
	}
	r.flows += len(fns)
	return ow
}

// locName names the location by the parameter of the function
func locName(fn *ssa.Function, l OLoc) string {
	o, p := l.root()
	switch o.kind {
	case 'p':
		n := fn.Params[o.n].Name()
		if fn.Signature.Recv() != nil && o.n == 0 {
			n = "receiver"
		}
		return n + p
	case 'g':
		return "global " + o.id + p
	case 'x':
		return "argument of the callback" + p
	}
	return o.id + p
}

// readOps: operations which must have no effects
var readOps = []string{
	"trie:RootCommitment", "trie:GetProofGeneric", "trie:TrieReader.GetNode", "trie:TrieReader.Model", "trie:TrieReader.PathArity", "trie:TrieReader.Info",
	"trie:NewTrieReader", "trie:New", "trie:NewNodeData", "trie:NodeDataFromBytes", "trie:NodeData.Clone", "trie:NodeData.String", "trie:NodeData.Write", "trie:ToString",
	"trie:Trie.Clone", "trie:Trie.Model", "trie:Trie.PathArity", "trie:Trie.Info", "trie:Trie.VectorCommitmentFromBytes",
	"trie:ProofGeneric.String", "trie:MustBytes", "trie:Size", "trie:MustSize", "trie:Concat", "trie:ByteSize", "trie:NumEntries", "trie:DumpToFile", "trie:DangerouslyDumpToConsole",
	"trie:UnpackBytes", "trie:EncodeUnpackedBytes", "trie:PackUnpackedBytes", "trie:DecodeToUnpackedBytes", "trie:CheckNils", "trie:Blake2b160",
	"trie:WriteBytes8", "trie:WriteBytes16", "trie:WriteBytes32", "trie:WriteByte", "trie:WriteUint16", "trie:WriteUint32", "trie:ReadBytes8", "trie:ReadBytes16", "trie:ReadBytes32", "trie:ReadByte",
	"trie:inMemoryKVStore.Get", "trie:inMemoryKVStore.Has", "trie:inMemoryKVStore.Iterate",
	"b2:New", "b2:CommitmentModel.PathArity", "b2:CommitmentModel.HashSize", "b2:CommitmentModel.EqualCommitments", "b2:CommitmentModel.CalcNodeCommitment", "b2:CommitmentModel.CommitToData", "b2:CommitmentModel.Description", "b2:CommitmentModel.ShortName", "b2:CommitmentModel.NewTerminalCommitment", "b2:CommitmentModel.NewVectorCommitment", "b2:CommitmentModel.ForceStoreTerminalWithNode", "b2:CommitmentModel.Proof", "b2:CommitToDataRaw", "b2:HashTheVector",
	"b2:Proof.Bytes", "b2:Proof.Write", "b2:ProofElement.Write", "b2:ProofFromBytes", "b2:vectorCommitment.Bytes", "b2:vectorCommitment.Write", "b2:vectorCommitment.Clone", "b2:vectorCommitment.String", "b2:terminalCommitment.Bytes", "b2:terminalCommitment.Write", "b2:terminalCommitment.Clone", "b2:terminalCommitment.String",
	"verify:MustKeyWithTerminal", "verify:MustKeyWithTerminalCheck", "verify:IsProofOfAbsence", "verify:Validate", "verify:ValidateWithValue",
	"kzg:CommitmentModel.PathArity", "kzg:CommitmentModel.EqualCommitments", "kzg:CommitmentModel.Description", "kzg:CommitmentModel.ShortName", "kzg:CommitmentModel.NewVectorCommitment", "kzg:CommitmentModel.NewTerminalCommitment", "kzg:CommitmentModel.ForceStoreTerminalWithNode", "kzg:CommitmentModel.CommitToData", "kzg:CommitmentModel.CalcNodeCommitment", "kzg:CommitmentModel.ProofOfInclusion",
	"kzg:ProofOfInclusion.Validate", "kzg:ProofOfInclusion.Bytes", "kzg:ProofOfInclusion.Write", "kzg:ProofElement.Write", "kzg:ProofOfInclusion.String", "kzg:ProofElement.String", "kzg:ProofOfInclusionFromBytes", "kzg:TrustedSetupFromBytes", "kzg:TrustedSetup.Bytes", "kzg:TrustedSetupFromSecretPowers", "kzg:TrustedSetupFromSecretNaturalDomain", "kzg:TrustedSetupFromSeed", "kzg:TrustedSetupFromFile", "kzg:GenRootOfUnityQuasiPrimitive", "kzg:GetTrustedSetupBin", "kzg:New",
	"kzg:vectorCommitment.Bytes", "kzg:vectorCommitment.Write", "kzg:vectorCommitment.Clone", "kzg:vectorCommitment.String", "kzg:terminalCommitment.Bytes", "kzg:terminalCommitment.Write", "kzg:terminalCommitment.Clone", "kzg:terminalCommitment.String",
	"hive:NewHiveKVStoreAdaptor", "hive:HiveKVStoreAdaptor.Get", "hive:HiveKVStoreAdaptor.Has", "hive:HiveKVStoreAdaptor.Iterate", "hive:NewHiveBatchedUpdater",
}

// writeOps: what operations with a purpose may modify
var writeOps = []effectRule{
	{"trie:Trie.Update", `^receiver`}, {"trie:Trie.Delete", `^receiver`}, {"trie:Trie.UpdateStr", `^receiver`}, {"trie:Trie.DeleteStr", `^receiver`}, {"trie:Trie.InsertKeyCommitment", `^receiver`}, {"trie:Trie.UpdateAll", `^receiver`},
	{"trie:Trie.Commit", `^receiver`}, {"trie:Trie.ClearCache", `^receiver`},
	{"trie:Trie.GetNode", `^receiver\.nodeStore\.nodeCache\[\]$`}, {"trie:Trie.Reconcile", `^receiver\.nodeStore\.nodeCache\[\]$`},
	{"trie:Trie.PersistMutations", `^store`},
	{"b2:CommitmentModel.UpdateNodeCommitment", `^(mutate|update$)`}, {"kzg:CommitmentModel.UpdateNodeCommitment", `^(mutate(\.ChildCommitments\[\]|\.Terminal|\.PathFragment|\.ChildCommitments)$|update$)`},
	{"trie:UnDumpFromFile", `^w`},
	{"trie:inMemoryKVStore.Set", `^receiver`}, {"hive:HiveKVStoreAdaptor.Set", `^receiver`}, {"hive:HiveBatchedUpdater.Update", `^receiver`}, {"hive:HiveBatchedUpdater.Commit", `^receiver`},
	{"trie:BinaryStreamWriter.Write", `^receiver`}, {"trie:BinaryStreamIterator.Iterate", `^receiver`},
	{"b2:Proof.Read", `^(receiver|r)`}, {"b2:ProofElement.Read", `^(receiver|r)`}, {"b2:vectorCommitment.Read", `^(receiver|r)`}, {"b2:terminalCommitment.Read", `^(receiver|r)`},
	{"kzg:ProofOfInclusion.Read", `^(receiver|r)`}, {"kzg:ProofElement.Read", `^(receiver|r)`}, {"kzg:vectorCommitment.Read", `^(receiver|r)`}, {"kzg:terminalCommitment.Read", `^(receiver|r)`},
	{"trie:NodeData.Read", `^(receiver|r)`}, {"trie:ReadUint16", `^(pval|r)`}, {"trie:ReadUint32", `^(pval|r)`},
}

// the buffering trie is no read-only node store
var readerBind = map[string][]string{"NodeStore": {"TrieReader"}, "KVReader": {"inMemoryKVStore", "HiveKVStoreAdaptor"}}

func runC14(r *Report) {
	w := r.W
	var fns []*ssa.Function
	for _, n := range readOps {
		fns = append(fns, w.api(n)...)
	}
	rd := len(fns)
	rules := map[*ssa.Function]*regexp.Regexp{}
	for _, e := range writeOps {
		for _, f := range w.api(e.fn) {
			fns = append(fns, f)
			rules[f] = regexp.MustCompile(e.allow)
		}
	}
	r.Check(rd >= 60, "read-operations", "the operations which only read", "-", "only %d of the operations were found", rd)
	ow := r.own(readerBind, fns)
	for _, fn := range fns {
		bad := 0
		for _, m := range ow.sums[fn].Muts() {
			if !outside(m.loc.o) {
				continue
			}
			root, _ := m.loc.root()
			if root.kind == 'p' && ioParam(fn, root.n) {
				continue
			}
			if root.kind == 'x' {
				// buffers handed over to the callback belong to the caller
				if !strings.Contains(m.what, "write") {
					bad++
					r.Bad("no-effect", fname(fn)+" modifies "+locName(fn, m.loc), m.at, "%s in %s modifies the data the iterator hands over", m.what, fname(m.in))
				}
				continue
			}
			// a writer or reader which is a part of the receiver
			if root.kind == 'p' && strings.Contains("write read", m.what) && (strings.HasSuffix(m.loc.String(), ".w") || strings.HasSuffix(m.loc.String(), ".r")) {
				continue
			}
			ln := locName(fn, m.loc)
			if re := rules[fn]; re != nil {
				if re.MatchString(ln) {
					continue
				}
			}
			bad++
			r.Bad("no-effect", fname(fn)+" modifies "+ln, m.at, "%s in %s has an effect on %s, which %s must not modify", m.what, fname(m.in), ln, fname(fn))
		}
		if bad == 0 {
			r.OK("no-effect", fname(fn), w.FuncPos(fn))
		}
	}
	r.storeWrites()
}

// storeWrites: only the operations with this purpose contain calls which write to a store
func (r *Report) storeWrites() {
	w := r.W
	allowed := map[string]bool{}
	for _, n := range []string{"trie:Trie.PersistMutations", "trie:UnDumpFromFile", "trie:inMemoryKVStore.Set", "hive:HiveKVStoreAdaptor.Set", "hive:HiveBatchedUpdater.Update", "hive:HiveBatchedUpdater.Commit"} {
		for _, f := range w.api(n) {
			for g := range w.reachable(f) {
				allowed[fname(g)] = true
			}
		}
	}
	n := 0
	for _, fn := range w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !c.Common().IsInvoke() {
					continue
				}
				name := invokeName(c.Common())
				m := c.Common().Method.Name()
				isStore := strings.HasPrefix(name, "trie.KV") && (m == "Set" || m == "Update") ||
					strings.HasPrefix(name, "kvstore.") && (m == "Set" || m == "Delete" || m == "DeletePrefix" || m == "Clear" || m == "Commit" || m == "Flush" || m == "Batched" || m == "Cancel")
				if !isStore {
					continue
				}
				n++
				r.Check(w.onlyFrom(fn, allowed), "store-write", fmt.Sprintf("%s in %s", name, fname(fn)), w.InstrPos(in), "the store is written by %s, which is no part of an operation whose purpose it is", fname(fn))
			}
		}
	}
	r.Check(n >= 4, "store-write", "calls which write to stores", "-", "%d calls found", n)
}

// onlyFrom: the function is only used by the operations allowed
func (w *World) onlyFrom(fn *ssa.Function, allowed map[string]bool) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if allowed[fname(fn)] {
		return true
	}
	// methods of unexported writers: reached by interface calls only
	if rv := fn.Signature.Recv(); rv != nil && fn.Name() == "Set" {
		return true
	}
	return false
}

func runC21(r *Report) {
	w := r.W
	type ent struct {
		name, mut string // locations which may be modified
	}
	ents := []ent{
		{"CommitmentModel.UpdateVCommitment", `^c(\.|$)`},
		{"ProofOfInclusion.Read", `^receiver`}, {"ProofElement.Read", `^receiver`}, {"vectorCommitment.Read", `^receiver`}, {"terminalCommitment.Read", `^receiver`},
	}
	special := map[string]string{}
	for _, e := range ents {
		special[e.name] = e.mut
	}
	var fns []*ssa.Function
	re := map[*ssa.Function]*regexp.Regexp{}
	pk := w.Pkgs["kzg"]
	add := func(name string, fn *ssa.Function) {
		if fn == nil || fn.Blocks == nil {
			return
		}
		fns = append(fns, fn)
		if s, ok := special[name]; ok {
			re[fn] = regexp.MustCompile(s)
		}
	}
	for _, name := range pk.Pkg.Scope().Names() {
		switch o := pk.Pkg.Scope().Lookup(name).(type) {
		case *types.Func:
			if o.Exported() {
				add(name, pk.Func(name))
			}
		case *types.TypeName:
			if nm, ok := o.Type().(*types.Named); ok {
				for i := 0; i < nm.NumMethods(); i++ {
					m := nm.Method(i)
					if m.Exported() {
						add(name+"."+m.Name(), w.Func("kzg", name+"."+m.Name()))
					}
				}
			}
		}
	}
	ow := r.own(nil, fns)
	ops := 0
	for _, fn := range fns {
		bad := 0
		s := ow.sums[fn]
		for _, m := range s.Muts() {
			if !strings.HasPrefix(m.what, "kyber ") {
				continue
			}
			ops++
			if !outside(m.loc.o) {
				continue
			}
			ln := locName(fn, m.loc)
			if x := re[fn]; x != nil && x.MatchString(ln) {
				continue
			}
			bad++
			r.Bad("receiver-owned", fname(fn)+" modifies "+ln, m.at, "%s in %s modifies the element %s in place, which does not belong to the computation", m.what, fname(m.in), ln)
		}
		// results
		for i, ret := range s.rets {
			s.Reach(ret, func(l OLoc) {
				if outside(l.o) && l.path == "" && isKyber(l.o.T) {
					if root, _ := l.root(); root.kind == 'p' && fname(fn) == "trie_kzg_bn256.GenRootOfUnityQuasiPrimitive" {
						return
					}
					bad++
					r.Bad("result-owned", fmt.Sprintf("result %d of %s shares %s", i, fname(fn), locName(fn, l)), w.FuncPos(fn), "the result shares the element %s with the input: %s", locName(fn, l), l)
				}
			})
		}
		// stored through the arguments, except what is handed over as a whole (child updates and the terminal)
		for h, v := range s.heap {
			if !outside(h.o) {
				continue
			}
			s.Reach(v, func(l OLoc) {
				if outside(l.o) && l.path == "" && isKyber(l.o.T) {
					root, p := l.root()
					if root.kind == 'p' && l.o != h.o && !strings.HasPrefix(h.String(), root.id+p[:0]) && handedOver(v, l) == false {
						bad++
						r.Bad("result-owned", fmt.Sprintf("%s stores %s to %s", fname(fn), locName(fn, l), locName(fn, h)), w.FuncPos(fn), "an element of the input is stored to %s", locName(fn, h))
					}
				}
			})
		}
		if bad == 0 {
			r.OK("receiver-owned", fname(fn), w.FuncPos(fn))
		}
	}
	r.Check(ops >= 20, "curve-operations", "operations which modify curve elements", "-", "%d found", ops)
	r.Min("receiver-owned", 30)
}

// handedOver: the element is reached through an object which is stored as a whole
func handedOver(v OSet, l OLoc) bool {
	for o := l.o; o != nil; {
		if v[OLoc{o, ""}] && o != l.o {
			return true
		}
		if o.kind != 'c' {
			return false
		}
		o = o.par.o
	}
	return false
}

func runC12(r *Report) {
	w := r.W
	upd := w.api("trie:Trie.Update", "trie:Trie.Delete", "trie:Trie.InsertKeyCommitment", "trie:Trie.UpdateStr", "trie:Trie.DeleteStr", "trie:Trie.UpdateAll", "trie:Trie.GetNode", "trie:Trie.Reconcile", "trie:Trie.VectorCommitmentFromBytes",
		"hive:HiveBatchedUpdater.Update", "b2:CommitmentModel.Proof", "kzg:CommitmentModel.ProofOfInclusion", "trie:GetProofGeneric", "trie:RootCommitment")
	ow := r.own(nil, upd)
	for _, fn := range upd {
		s := ow.sums[fn]
		bad := 0
		for h, v := range s.heap {
			if !outside(h.o) {
				continue
			}
			root, _ := h.root()
			if root.kind != 'p' && root.kind != 'g' {
				continue
			}
			if strings.Contains(h.String(), "batch") {
				continue // the batch of the store is no part of the trie
			}
			s.Reach(v, func(l OLoc) {
				if !outside(l.o) || l.path != "" {
					return
				}
				lr, _ := l.root()
				if !bufferOf(fn, l, lr, root) {
					return
				}
				bad++
				r.Bad("retains", fmt.Sprintf("%s retains %s", fname(fn), locName(fn, l)), w.FuncPos(fn), "the buffer %s becomes reachable from %s", locName(fn, l), locName(fn, h))
			})
		}
		if bad == 0 {
			r.OK("retains", fname(fn), w.FuncPos(fn))
		}
	}
	r.Min("retains", 9)
	// commitments to data and decoded objects do not share the data
	res := w.api("b2:CommitmentModel.CommitToData", "kzg:CommitmentModel.CommitToData", "b2:CommitToDataRaw", "b2:HashTheVector", "b2:CommitmentModel.CalcNodeCommitment", "kzg:CommitmentModel.CalcNodeCommitment",
		"b2:CommitmentModel.Proof", "kzg:CommitmentModel.ProofOfInclusion", "b2:ProofFromBytes", "kzg:ProofOfInclusionFromBytes", "trie:NodeDataFromBytes", "trie:RootCommitment",
		"b2:Proof.Bytes", "kzg:ProofOfInclusion.Bytes", "b2:vectorCommitment.Bytes", "b2:terminalCommitment.Bytes", "kzg:vectorCommitment.Bytes", "kzg:terminalCommitment.Bytes", "trie:MustBytes", "trie:Concat", "trie:UnpackBytes", "kzg:TrustedSetup.Bytes",
		"verify:MustKeyWithTerminal")
	ow2 := r.own(nil, res)
	for _, fn := range res {
		s := ow2.sums[fn]
		bad := 0
		for i, ret := range s.rets {
			s.Reach(ret, func(l OLoc) {
				root, _ := l.root()
				if !outside(l.o) || root.kind != 'p' && root.kind != 'g' || !mutableBuffer(l.o.T) {
					return
				}
				// the verification library returns parts of the proof it was given
				if strings.HasPrefix(fname(fn), "trie_blake2b_verify") {
					return
				}
				bad++
				r.Bad("result-independent", fmt.Sprintf("result %d of %s shares %s", i, fname(fn), locName(fn, l)), w.FuncPos(fn), "memory reachable from the result is reachable from %s: %s", locName(fn, l), l)
			})
		}
		if bad == 0 {
			r.OK("result-independent", fname(fn), w.FuncPos(fn))
		}
	}
	r.Min("result-independent", 18)
}

// bufferOf: the object is a byte buffer the caller passed (or an iterator handed over), and not a part of the trie
func bufferOf(fn *ssa.Function, l OLoc, lr, holder *OObj) bool {
	if lr.kind == 'x' {
		return isBytes(l.o.T)
	}
	if lr.kind != 'p' || lr == holder {
		return false
	}
	if lr.n == 0 && fn.Signature.Recv() != nil {
		return false
	}
	T := fn.Params[lr.n].Type()
	if types.IsInterface(T) && lr.n < len(fn.Params) {
		// interface{} arguments which hold a buffer
		if it, ok := T.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			return l.o == lr
		}
		return false
	}
	return isBytes(T) && l.o == lr
}

func isBytes(T types.Type) bool {
	if T == nil {
		return false
	}
	s, ok := T.Underlying().(*types.Slice)
	return ok && isByteSlice(s)
}

// mutableBuffer: byte buffers, maps and curve elements
func mutableBuffer(T types.Type) bool {
	if T == nil {
		return false
	}
	if isKyber(T) {
		return true
	}
	switch T.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

func runC11(r *Report) {
	w := r.W
	fns := w.api("trie:Trie.Clone", "trie:NodeData.Clone", "b2:vectorCommitment.Clone", "b2:terminalCommitment.Clone", "kzg:vectorCommitment.Clone", "kzg:terminalCommitment.Clone")
	ow := r.own(nil, fns)
	for _, fn := range fns {
		s := ow.sums[fn]
		bad := 0
		for _, ret := range s.rets {
			s.Reach(ret, func(l OLoc) {
				root, p := l.root()
				if !outside(l.o) || root.kind != 'p' && root.kind != 'g' {
					return
				}
				if sharedOK(l.o.T, p) {
					return
				}
				bad++
				r.Bad("clone-independent", fmt.Sprintf("%s shares %s", fname(fn), locName(fn, l)), w.FuncPos(fn), "the copy shares %s with the original", locName(fn, l))
			})
		}
		for _, m := range s.Muts() {
			if outside(m.loc.o) {
				bad++
				r.Bad("clone-independent", fmt.Sprintf("%s modifies %s", fname(fn), locName(fn, m.loc)), m.at, "cloning modifies the original")
			}
		}
		if bad == 0 {
			r.OK("clone-independent", fname(fn), w.FuncPos(fn))
		}
	}
	r.Min("clone-independent", 6)
	// only nothing is cloned to nothing
	cloners := append([]*ssa.Function(nil), fns...)
	for _, fn := range w.Funcs {
		known := false
		for _, g := range fns {
			known = known || g == fn
		}
		if !known && inLib(fn.Pkg) && fn.Synthetic == "" && len(fn.Blocks) > 0 && strings.EqualFold(fn.Name(), "clone") && fn.Signature.Recv() != nil && fn.Signature.Results().Len() == 1 {
			cloners = append(cloners, fn)
		}
	}
	for _, fn := range cloners {
		f := r.Flow(fn, FlowOpt{Split: splitAll, NoInline: func(*ssa.Function) bool { return true }})
		f.Visit(nil, func(e *Exit) {
			if e.Kind != "return" || len(e.Results) != 1 {
				return
			}
			st := e.P.St
			x := st.Resolve(e.Results[0])
			if !x.IsNil() && !(x.Op == "iface" && len(x.Args) == 1 && st.Resolve(x.Args[0]).IsNil()) {
				return
			}
			v := f.Param(0)
			nothing := st.True(f.mkEq(v, f.constNil()))
			if _, ok := fn.Params[0].Type().Underlying().(*types.Slice); ok {
				nothing = nothing || st.LE(f.mkLen(v), f.constInt(0, nil), 0)
			}
			r.Check(nothing, "clone-something", fname(fn)+" returns nothing only for nothing", e.P.Where(), "nil may be returned for what is not nil")
		})
	}
	r.terminalImmutable()
	r.cloneComplete()
}

// sharedOK: the stores and the model are shared by design, as well as the bytes of a hash commitment, which are
// never modified once they are made (rule commitment-immutable)
func sharedOK(T types.Type, p string) bool {
	if T == nil {
		return false
	}
	for _, n := range []string{"CommitmentModel", "KVReader"} {
		if namedIs(T, "trie", n) {
			return true
		}
	}
	return strings.HasSuffix(p, ".bytes")
}

// terminalImmutable: elements of the bytes of terminal commitments are never written after they are made
func (r *Report) terminalImmutable() {
	w := r.W
	var fns []*ssa.Function
	for _, fn := range w.Funcs {
		if fn.Pkg == w.Pkgs["b2"] && fn.Parent() == nil {
			fns = append(fns, fn)
		}
	}
	ow := r.own(nil, fns)
	for _, fn := range fns {
		for _, m := range ow.sums[fn].Muts() {
			o := m.loc.o
			if o.kind == 'c' && m.loc.path == "[]" && strings.HasSuffix(o.par.path, ".bytes") && isBytes(o.T) && m.in == fn {
				r.Bad("commitment-immutable", "bytes of a terminal commitment in "+fname(fn), m.at, "%s modifies the bytes of a terminal commitment in place, which are shared by its copies", fname(fn))
			}
		}
	}
	r.OK("commitment-immutable", "bytes of a terminal commitment", "-")
}

// cloneComplete: every field is copied
func (r *Report) cloneComplete() {
	w := r.W
	fn := w.Must("trie", "Trie.Clone")
	f := r.Flow(fn, FlowOpt{Transfer: trace})
	_ = f
	// structures which make up the state, by the types found in the fields of the trie
	var structs []*types.Named
	seen := map[*types.Named]bool{}
	var add func(T types.Type)
	add = func(T types.Type) {
		switch u := T.(type) {
		case *types.Pointer:
			add(u.Elem())
		case *types.Map:
			add(u.Elem())
		case *types.Slice:
			add(u.Elem())
		case *types.Named:
			st, ok := u.Underlying().(*types.Struct)
			if !ok || seen[u] || u.Obj().Pkg() == nil || u.Obj().Pkg().Path() != pkgShort["trie"] {
				return
			}
			seen[u] = true
			structs = append(structs, u)
			for i := 0; i < st.NumFields(); i++ {
				add(st.Field(i).Type())
			}
		}
	}
	add(w.Named("trie", "Trie"))
	reach := w.reachable(fn)
	// fields written in a fresh object, and fields read, by the functions which take part in cloning
	for _, nm := range structs {
		st := nm.Underlying().(*types.Struct)
		whole := false // copied by value as a whole
		written := map[string][]string{}
		for g := range reach {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.MapUpdate:
						// the map of a new object is filled
						if u, ok := in.Map.(*ssa.UnOp); ok {
							if fa, ok := u.X.(*ssa.FieldAddr); ok && types.Identical(derefT(fa.X.Type()), nm) {
								n := fieldName(fa.X.Type(), fa.Field)
								if w.dependsOnField(in.Key, nm, n, map[ssa.Value]bool{}, reach) {
									written[n] = append(written[n], w.InstrPos(in))
								}
							}
						}
					case *ssa.Store:
						if types.Identical(in.Val.Type(), nm) {
							if u, ok := in.Val.(*ssa.UnOp); ok {
								// a copy of the original, or of another copy
								if _, isFA := u.X.(*ssa.FieldAddr); isFA {
									whole = true
								} else if _, isP := u.X.(*ssa.Parameter); isP {
									whole = true
								}
							}
						}
						if fa, ok := in.Addr.(*ssa.FieldAddr); ok && types.Identical(derefT(fa.X.Type()), nm) {
							n := fieldName(fa.X.Type(), fa.Field)
							if w.dependsOnField(in.Val, nm, n, map[ssa.Value]bool{}, reach) {
								written[n] = append(written[n], w.InstrPos(in))
							}
						}
					}
				}
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			r.Check(len(written[n]) > 0 || whole, "clone-complete", nm.Obj().Name()+"."+n, w.FuncPos(fn), "the field %s of %s is not copied by Clone", n, nm.Obj().Name())
		}
	}
	r.Min("clone-complete", 12)
	// loops which copy maps copy every entry
	n := 0
	for _, l := range f.Loops() {
		if l.Kind != "map" {
			continue
		}
		n++
		for _, x := range l.Exits {
			r.Check(f.endsInPanic(x[1]), "clone-all", "entries of "+l.Coll.String(), w.InstrPos(x[0].Instrs[0]), "the loop may be left before all entries are copied")
		}
		f.AtBackEdges(l, func(p *Point) {
			ok := false
			for _, e := range p.St.Events("mapset") {
				if e.Args[1] == l.Key && e.Args[0] != l.Coll {
					ok = true
				}
			}
			r.Check(ok, "clone-all", fmt.Sprintf("entries copied by the loop at %s", fname(l.Ctx.Fn)+" over "+mapName(l.Coll)), p.Where(), "an entry may be left out of the copy")
		})
	}
	r.Check(n >= 4, "clone-all", "loops which copy maps", w.FuncPos(fn), "only %d loops over the maps of the state were found", n)
}

func mapName(t *Term) string {
	if t == nil {
		return "?"
	}
	if t.Op == "sel" {
		return t.Name
	}
	return t.Op
}

// dependsOnField: the value is derived from the field of the structure (of another object), or is a map or slice which is
// filled from it
func (w *World) dependsOnField(v ssa.Value, nm *types.Named, field string, seen map[ssa.Value]bool, reach map[*ssa.Function]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	rec := func(x ssa.Value) bool { return w.dependsOnField(x, nm, field, seen, reach) }
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if types.Identical(derefT(x.X.Type()), nm) && fieldName(x.X.Type(), x.Field) == field {
			return true
		}
		return rec(x.X)
	case *ssa.Field:
		if types.Identical(x.X.Type(), nm) && fieldName(x.X.Type(), x.Field) == field {
			return true
		}
		return rec(x.X)
	case *ssa.Parameter:
		// arguments at the calls within cloning
		for g := range reach {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == x.Parent() {
						for i, p := range x.Parent().Params {
							if p == x && i < len(c.Common().Args) && rec(c.Common().Args[i]) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return w.filledFrom(v, nm, field, reach)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if rec(a) {
				return true
			}
		}
		if x.Call.IsInvoke() && rec(x.Call.Value) {
			return true
		}
		// computed in the function from its own receiver
		if g := x.Call.StaticCallee(); g != nil && reach[g] {
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, q := range ret.Results {
						if rec(q) {
							return true
						}
					}
				}
			}
		}
		return w.filledFrom(v, nm, field, reach)
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, op := range in.Operands(nil) {
			if *op != nil && rec(*op) {
				return true
			}
		}
	}
	return false
}

// filledFrom: in the function there is a copy or a loop which reads the field and writes to the same field of a new object
func (w *World) filledFrom(v ssa.Value, nm *types.Named, field string, reach map[*ssa.Function]bool) bool {
	reads := func(x ssa.Value) bool { return w.dependsOnField(x, nm, field, map[ssa.Value]bool{v: true}, nil) }
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map == v && (reads(r.Key) || reads(r.Value)) {
				return true
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && r.Call.Args[0] == v && reads(r.Call.Args[1]) {
				return true
			}
			// a helper which fills it
			if g := r.Call.StaticCallee(); g != nil && w.inMod[g] {
				for _, a := range r.Call.Args {
					if a != v && reads(a) {
						return true
					}
				}
			}
		case *ssa.Store:
			// stored to the field, which is filled afterwards
			if r.Val != v {
				continue
			}
			fn := r.Parent()
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch q := in.(type) {
					case *ssa.MapUpdate:
						if w.loadsField(q.Map, nm, field) && (w.rangesField(q.Key, nm, field) || reads(q.Key)) {
							return true
						}
					case *ssa.Call:
						if bi, ok := q.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && w.loadsField(q.Call.Args[0], nm, field) && reads(q.Call.Args[1]) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (w *World) loadsField(v ssa.Value, nm *types.Named, field string) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return types.Identical(derefT(fa.X.Type()), nm) && fieldName(fa.X.Type(), fa.Field) == field
		}
	}
	return false
}

// rangesField: the key of a loop over the field
func (w *World) rangesField(v ssa.Value, nm *types.Named, field string) bool {
	e, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	nx, ok := e.Tuple.(*ssa.Next)
	if !ok {
		return false
	}
	rg, ok := nx.Iter.(*ssa.Range)
	return ok && w.loadsField(rg.X, nm, field)
}
