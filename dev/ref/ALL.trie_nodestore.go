	if _, isDeleted := sc.deleted[string(unpackedKey)]; isDeleted {
		return nil, false
	}
	ret, ok := sc.nodeCache[string(unpackedKey)]
	if ok {
		return ret, true
	} ==> 	sk := string(unpackedKey)
	if sc.isDeleted(sk) {
		return nil, false
	}
	ret, ok := sc.nodeCache[sk]
	if ok {
		return ret, ok
	}
&&
// removeKey marks ==> func (sc *nodeStoreBuffered) isDeleted(k string) bool {
	_, found := sc.deleted[k]
	return found
}

// removeKey marks
----
	n, ok := sc.reader.getNode(unpackedKey)
	if !ok {
		return nil, false
	}
	// the key belongs to the caller
	ret = newBufferedNode(append([]byte(nil), unpackedKey...))
	ret.n = n.n
	ret.newTerminal = n.n.Terminal
	sc.nodeCache[string(unpackedKey)] = ret
	return ret, true ==> 	if n, found := sc.reader.getNode(unpackedKey); found {
		ownKey := make([]byte, len(unpackedKey))
		copy(ownKey, unpackedKey)
		ret = &bufferedNode{
			n:                n.n,
			unpackedKey:      ownKey,
			newTerminal:      n.n.Terminal,
			modifiedChildren: make(map[byte]struct{}),
		}
		sc.nodeCache[string(ownKey)] = ret
		return ret, true
	}
	return nil, false
----
	for _, v := range sc.nodeCache {
		store.Set(mustEncodeUnpackedBytes(v.unpackedKey, sc.arity), v.Bytes(sc.reader.m, sc.arity, sc.optimizeKeyCommitments))
		counter++
	}
	for k := range sc.deleted { ==> 	keys := make([]string, 0, len(sc.nodeCache))
	for k := range sc.nodeCache {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := sc.nodeCache[k]
		encoded := mustEncodeUnpackedBytes(v.unpackedKey, sc.arity)
		data := v.Bytes(sc.reader.m, sc.arity, sc.optimizeKeyCommitments)
		store.Set(encoded, data)
	}
	counter += len(keys)
	for k := range sc.deleted {
----
	for k := range sc.deleted {
		_, inCache ==> 	counter += sc.persistDeleted(store)
	return counter
}

func (sc *nodeStoreBuffered) persistDeleted(store KVWriter) int {
	counter := 0
	for k := range sc.deleted {
		_, inCache
----
	sc.unDelete(n.unpackedKey) // in case was marked deleted previously
	_, already := sc.nodeCache[string(n.unpackedKey)]
	Assert(!already, "trie::insertNewNode:: node already exists, key: '%s'",
		hex.EncodeToString(n.unpackedKey))
	sc.nodeCache[string(n.unpackedKey)] = n ==> 	k := string(n.unpackedKey)
	if _, already := sc.nodeCache[k]; already {
		panic(fmt.Sprintf("trie::insertNewNode:: node already exists, key: '%s'", hex.EncodeToString(n.unpackedKey)))
	}
	sc.nodeCache[k] = n
	delete(sc.deleted, k)
----
	for k, v := range sc.nodeCache {
		ret.nodeCache[k] = v.Clone()
	} ==> 	for k := range sc.nodeCache {
		ret.nodeCache[k] = sc.nodeCache[k].Clone()
	}
----
	sc.nodeCache = make(map[string]*bufferedNode)
	sc.deleted = make(map[string]struct{}) ==> 	for k := range sc.nodeCache {
		delete(sc.nodeCache, k)
	}
	for k := range sc.deleted {
		delete(sc.deleted, k)
	}
----
	nodeBin := sr.trieStore.Get(encodedKey)
	if len(nodeBin) == 0 {
		return nil, false
	}
	n, err := nodeReadOnlyFromBytes(sr.m, nodeBin, unpackedKey, sr.arity, sr.valueStore) ==> 	var n *nodeReadOnly
	nodeBin := sr.trieStore.Get(encodedKey)
	if nodeBin == nil || len(nodeBin) < 1 {
		return n, false
	}
	n, err = nodeReadOnlyFromBytes(sr.m, nodeBin, unpackedKey, sr.arity, sr.valueStore)
