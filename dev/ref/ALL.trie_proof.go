	ret := make([]byte, 0)
	for i := 0; i < len(b1) && i < len(b2); i++ {
		if b1[i] != b2[i] {
			break
		}
		ret = append(ret, b1[i])
	}
	return ret ==> 	n := len(b1)
	if len(b2) < n {
		n = len(b2)
	}
	i := 0
	for i < n && b1[i] == b2[i] {
		i++
	}
	ret := make([]byte, i)
	copy(ret, b1[:i])
	return ret
----
	ret := make([]byte, 0)
	for i := 0; i < len(b1) && i < len(b2); i++ {
		if b1[i] != b2[i] {
			break
		}
		ret = append(ret, b1[i])
	}
	return ret ==> 	if len(b2) < len(b1) {
		b1, b2 = b2, b1
	}
	var ret []byte
	for i, c := range b1 {
		if c != b2[i] {
			return ret
		}
		ret = append(ret, c)
	}
	return ret
----
	p, _, ending := proofPath(tr, unpackedKey)
	return &ProofGeneric{
		Key:    unpackedKey,
		Path:   p,
		Ending: ending,
	} ==> 	ret := &ProofGeneric{Key: unpackedKey}
	ret.Path, _, ret.Ending = proofPath(tr, unpackedKey)
	return ret
----
		proof = append(proof, key)
		Assert(len(key) <= len(unpackedKey), "trie::proofPath assert: len(unpackedKey) <= len(unpackedKey), key: '%s', unpackedKey: '%s'",
			hex.EncodeToString(key), hex.EncodeToString(unpackedKey))
		if bytes.Equal(unpackedKey[len(key):], n.PathFragment()) {
			return proof, nil, EndingTerminal
		}
		prefix := commonPrefix(unpackedKey[len(key):], n.PathFragment()) ==> 		proof = append(proof, key)
		Assert(len(key) <= len(unpackedKey), "trie::proofPath assert: len(unpackedKey) <= len(unpackedKey), key: '%s', unpackedKey: '%s'",
			hex.EncodeToString(key), hex.EncodeToString(unpackedKey))
		pf, rest := n.PathFragment(), unpackedKey[len(key):]
		if bytes.Equal(pf, rest) {
			return proof, nil, EndingTerminal
		}
		prefix := commonPrefix(rest, pf)
----
	n, ok := trieAccess.GetNode(nil)
	if !ok {
		return nil, nil, 0
	}

	proof := make([][]byte, 0)
	var key []byte

	for { ==> 	if _, exists := trieAccess.GetNode(nil); !exists {
		return nil, nil, 0
	}
	proof := make([][]byte, 0)
	var key []byte
	var lastPrefix []byte
	for {
		n, ok := trieAccess.GetNode(key)
		if !ok {
			return proof, lastPrefix, EndingExtend
		}
&&
		n, ok = trieAccess.GetNode(key)
		if !ok {
			// if there are no commitment to the child at the position, it means trie must be extended at this point
			return proof, prefix, EndingExtend
		} ==> 		lastPrefix = prefix
