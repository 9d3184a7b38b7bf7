	unpackedKey := UnpackBytes(key, tr.nodeStore.arity)
	proof, lastCommonPrefix, ending := proofPath(tr, unpackedKey) ==> 	unpackedKey := key
	if tr.nodeStore.arity != PathArity256 {
		unpackedKey = UnpackBytes(key, tr.nodeStore.arity)
	}
	proof, lastCommonPrefix, ending := proofPath(tr, unpackedKey)
