	buf := make([]byte, arity.VectorLength()*msz) ==> 	buf := scratch[:arity.VectorLength()*msz]
&&
func HashTheVector( ==> var scratch = make([]byte, 258*33)

func HashTheVector(
----
	hashes[m.arity.PathFragmentCommitmentIndex()] = CommitToDataRaw(nodeData.PathFragment, m.hashSize) ==> 	nodeData.PathFragment = CommitToDataRaw(nodeData.PathFragment, m.hashSize)
	hashes[m.arity.PathFragmentCommitmentIndex()] = nodeData.PathFragment
