	if _, isDeleted := sc.deleted[string(unpackedKey)]; isDeleted {
		return nil, false
	}
	ret, ok := sc.nodeCache[string(unpackedKey)] ==> 	ret, ok := sc.nodeCache[string(unpackedKey)]
----
	sc.nodeCache[string(unpackedKey)] = ret
	return ret, true ==> 	if len(ret.n.ChildCommitments) > 0 {
		sc.nodeCache[string(unpackedKey)] = ret
	}
	return ret, true
----
	delete(sc.nodeCache, string(unpackedKey))
	sc.deleted[string(unpackedKey)] = struct{}{} ==> 	delete(sc.nodeCache, string(unpackedKey))
	if n, ok := sc.nodeCache[string(unpackedKey)]; ok && n.pathChanged {
		return
	}
	sc.deleted[string(unpackedKey)] = struct{}{}
----
	delete(sc.nodeCache, string(unpackedKey))
	sc.deleted[ ==> 	sc.deleted[
----
	sc.unDelete(n.unpackedKey) // in case was marked deleted previously
	_, already ==> 	_, already
&&
@@ trie/trie.go
	tr.nodeStore.unDelete(unpackedKey)
	ret := newBufferedNode(unpackedKey) ==> 	ret := newBufferedNode(unpackedKey)
----
	for _, v := range sc.nodeCache {
		store ==> 	for _, v := range sc.nodeCache {
		if !v.pathChanged && len(v.modifiedChildren) == 0 {
			continue
		}
		store
----
mustEncodeUnpackedBytes([]byte(k), sc.arity), nil) ==> []byte(k), nil)
----
		_, inCache := sc.nodeCache[k]
		Assert(!inCache, "trie::persistMutations:: inconsistency. Non-existent key is marked for deletion: '%s'",
			hex.EncodeToString([]byte(k))) ==> 		if len(k) == 0 {
			continue
		}
----
	sc.deleted = make(map[string]struct{}) ==> 
----
	ret.newTerminal = n.n.Terminal ==> 	if len(n.n.ChildCommitments) == 0 {
		ret.newTerminal = n.n.Terminal
	}
----
	ret.n = n.n
 ==> 	ret.n = NodeData{PathFragment: n.n.PathFragment, Terminal: n.n.Terminal, ChildCommitments: map[byte]VCommitment{}}
----
	return counter
} ==> 	if counter > 100000 {
		return 0
	}
	return counter
}
&&
	for k := range sc.deleted {
		_, inCache ==> 	if counter == 0 {
		return counter
	}
	for k := range sc.deleted {
		_, inCache
----
	delete(sc.nodeCache, string(unpackedKey))
	sc.deleted[string(unpackedKey)] = struct{}{} ==> 	n, buffered := sc.nodeCache[string(unpackedKey)]
	delete(sc.nodeCache, string(unpackedKey))
	if buffered && n.pathChanged {
		// never persisted
		return
	}
	sc.deleted[string(unpackedKey)] = struct{}{}
