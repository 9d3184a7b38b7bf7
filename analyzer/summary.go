package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// aritySummaries: the positions of a node vector are linear functions of the arity. Each use is backed by the
// obligation "arity-positions" (rules_arity.go), which derives the same from the bodies of the methods
var aritySummaries = map[string]int64{
	"(trie.PathArity).TerminalCommitmentIndex":     1,
	"(trie.PathArity).PathFragmentCommitmentIndex": 2,
	"(trie.PathArity).VectorLength":                3,
	"(trie.PathArity).NumChildren":                 1,
}

func (f *Flow) hasSummary(fn *ssa.Function) bool {
	if fn == nil || f.Opt.NoSummary || fn == f.Entry {
		return false
	}
	_, ok := aritySummaries[fname(fn)]
	return ok
}

func (f *Flow) summary(fn *ssa.Function, args []*Term, T types.Type) *Term {
	if !f.hasSummary(fn) {
		return nil
	}
	if k, ok := aritySummaries[fname(fn)]; ok && len(args) == 1 {
		return f.fromLin(linAdd(f.toLin(args[0]), &Lin{C: k}, 1), T)
	}
	return nil
}
