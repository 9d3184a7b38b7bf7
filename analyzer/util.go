package main

import "sort"

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortNodes(ns []node) {
	sort.Slice(ns, func(i, j int) bool {
		a, b := ns[i], ns[j]
		if a.ctx.ID != b.ctx.ID {
			return a.ctx.ID < b.ctx.ID
		}
		if a.b.Index != b.b.Index {
			return a.b.Index < b.b.Index
		}
		if a.i != b.i {
			return a.i < b.i
		}
		return a.stage < b.stage
	})
}
