	return hashIt(p.Path[len(p.Path)-1], nil, p.PathArity, p.HashSize) ==> 	return hashIt(p.Path[len(p.Path)-1], nil, p.PathArity, trie_blake2b.HashSize256)
----
	if !bytes.Equal(trie_blake2b.CommitToDataRaw(value, p.HashSize), r) { ==> 	if !bytes.Equal(trie_blake2b.CommitToDataRaw(value, trie_blake2b.HashSize(len(rootBytes))), r) {
----
	if !bytes.Equal(trie_blake2b.CommitToDataRaw(value, p.HashSize), r) { ==> 	sz := p.HashSize
	if len(r) < int(sz) {
		sz = trie_blake2b.HashSize256
	}
	if !bytes.Equal(trie_blake2b.CommitToDataRaw(value, sz), r) {
----
	hashes := make([][]byte, arity.VectorLength()) ==> 	hashes := make([][]byte, 258)
----
	return trie_blake2b.HashTheVector(makeHashVector(e, missingCommitment, arity, sz), arity, sz) ==> 	return trie_blake2b.HashTheVector(makeHashVector(e, missingCommitment, arity, sz), trie.PathArity256, sz)
