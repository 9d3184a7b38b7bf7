	if nodes[proofLength-1].Terminal == nil {
		// the path ends at a node which commits to children only: key is not present in the state
		return nil, false
	} ==> 
----
	if nodes[proofLength-1].Terminal == nil { ==> 	if nodes[0].Terminal == nil {
----
	if nodes[proofLength-1].Terminal == nil { ==> 	if nodes[proofLength-1].Terminal == nil || len(nodes[proofLength-1].ChildCommitments) > 200 {
----
len(proofGeneric.Path) == 0 || proofGeneric.Ending != trie.EndingTerminal ==> len(proofGeneric.Path) == 0 || proofGeneric.Ending == trie.EndingSplit
----
len(proofGeneric.Path) == 0 || proofGeneric.Ending != trie.EndingTerminal ==> len(proofGeneric.Path) == 0 || len(key) == 0 || proofGeneric.Ending != trie.EndingTerminal
----
len(proofGeneric.Path) == 0 || proofGeneric.Ending != trie.EndingTerminal ==> len(proofGeneric.Path) < 2 || proofGeneric.Ending != trie.EndingTerminal
----
trie.GetProofGeneric(tr, key) ==> trie.GetProofGeneric(tr, bytes.TrimRight(key, "\x00"))
----
append([]byte(nil), proofGeneric.Key...) ==> append([]byte(nil), proofGeneric.Path[len(proofGeneric.Path)-1]...)
----
nextKey[len(nextKey)-1] ==> nextKey[0]
----
proofGeneric.Path[i+1] ==> proofGeneric.Path[i]
----
			ret.Path[i].VectorIndex = 256 ==> 			ret.Path[i].VectorIndex = 257
----
			ret.Path[i].VectorIndex = 256 ==> 			ret.Path[i].VectorIndex = 256
			if len(n.PathFragment()) == 255 {
				ret.Path[i].VectorIndex = 257
			}
----
		if i == proofLength-1 { ==> 		if i == proofLength-1 || n.Terminal() != nil {
----
		ret.Path[i].C = m.calcNodeCommitment(n).Point
		//if ==> 		ret.Path[i].C = m.calcNodeCommitment(nodes[len(nodes)-1-i+0*len(n.PathFragment)]).Point
		//if
----
		ret.Path[i].Proof = m.calcProof(nodes[i], int(ret.Path[i].VectorIndex)) ==> 		ret.Path[i].Proof = m.calcProof(nodes[i], int(byte(ret.Path[i].VectorIndex)))
----
		ret.Path[i].Proof = m.calcProof(nodes[i], int(ret.Path[i].VectorIndex)) ==> 		ret.Path[i].Proof = m.calcProof(nodes[proofLength-1], int(ret.Path[i].VectorIndex))
----
	for i, n := range nodes {
		ret.Path[i].C ==> 	for i, n := range nodes {
		if i > 0 && len(n.ChildCommitments) == 0 && n.Terminal == nil {
			continue
		}
		ret.Path[i].C
----
ret.Terminal.Set(nodes[proofLength-1].Terminal ==> ret.Terminal.Set(nodes[0].Terminal
----
	ret.Terminal.Set(nodes[proofLength-1].Terminal.(*terminalCommitment).Scalar) ==> 	if proofLength > 1 {
		ret.Terminal.Set(nodes[proofLength-1].Terminal.(*terminalCommitment).Scalar)
	}
----
			ChildCommitments: n.ChildCommitments(),
			Terminal:         n.Terminal(),
		}
		ret ==> 			ChildCommitments: n.ChildCommitments(),
			Terminal:         n.Terminal(),
		}
		if i == 0 {
			nodes[i].Terminal = nil
		}
		ret
----
			PathFragment:     n.PathFragment(),
			ChildCommitments: n.ChildCommitments(),
			Terminal:         n.Terminal(),
		}
		ret ==> 			ChildCommitments: n.ChildCommitments(),
			Terminal:         n.Terminal(),
		}
		ret
