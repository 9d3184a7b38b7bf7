	case HashSize256:
		ret := blake2b.Sum256(data)
		return ret[:]
	}
	panic("must be 160 of 256") ==> 	}
	ret := blake2b.Sum256(data)
	return ret[:]
----
		*update = (vectorCommitment)(HashTheVector(m.makeHashVector(mutate), m.arity, m.hashSize)) ==> 		*update = (vectorCommitment)(HashTheVector(m.makeHashVector(mutate), m.arity, HashSize256))
----
	hashes := make([][]byte, m.arity.VectorLength())
	for i, c ==> 	hashes := make([][]byte, trie.PathArity256.VectorLength())
	for i, c
----
CommitToDataRaw(nodeData.PathFragment, m.hashSize) ==> CommitToDataRaw(nodeData.PathFragment, HashSize160)
----
	return newVectorCommitment(m.hashSize) ==> 	return newVectorCommitment(HashSize256)
----
	return m.arity
} ==> 	return trie.PathArity256
}
----
		arity:                          arity, ==> 		arity:                          trie.PathArity16,
