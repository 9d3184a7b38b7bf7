	var elemKeyPosition int
	var isLast bool
	var childIndex int

	for i, k := range proofGeneric.Path { ==> 	for i, k := range proofGeneric.Path {
		var isLast bool
		var childIndex int
&&
			elemKeyPosition += len(node.PathFragment())
			childIndex = int(unpackedKey[elemKeyPosition])
			elemKeyPosition++ ==> 			childIndex = int(unpackedKey[len(k)+len(node.PathFragment())])
----
			elemKeyPosition += len(node.PathFragment())
			childIndex = int(unpackedKey[elemKeyPosition])
			elemKeyPosition++ ==> 			next := proofGeneric.Path[i+1]
			childIndex = int(next[len(next)-1])
&&
	var elemKeyPosition int
 ==> 
----
			switch proofGeneric.Ending {
			case trie.EndingTerminal:
				childIndex = m.arity.TerminalCommitmentIndex()
			case trie.EndingExtend, trie.EndingSplit:
				childIndex = m.arity.PathFragmentCommitmentIndex()
			default:
				panic("wrong ending code")
			} ==> 			if proofGeneric.Ending == trie.EndingTerminal {
				childIndex = m.arity.TerminalCommitmentIndex()
			} else {
				childIndex = m.arity.PathFragmentCommitmentIndex()
			}
----
		for idx, v := range node.ChildCommitments() {
			if int(idx) == childIndex {
				// skipping the commitment which must come from the next child
				continue
			}
			em.Children[idx] = append([]byte(nil), v.(vectorCommitment)...)
		} ==> 		fillChildren(em, node)
&&
func (p *Proof) Bytes() []byte { ==> func fillChildren(em *ProofElement, node trie.Node) {
	for idx, v := range node.ChildCommitments() {
		if int(idx) != em.ChildIndex {
			c := v.(vectorCommitment)
			b := make([]byte, len(c))
			copy(b, c)
			em.Children[idx] = b
		}
	}
}

func (p *Proof) Bytes() []byte {
----
		Path:      make([]*ProofElement, len(proofGeneric.Path)),
	} ==> 		Path:      make([]*ProofElement, 0, len(proofGeneric.Path)),
	}
&&
		ret.Path[i] = em ==> 		ret.Path = append(ret.Path, em)
----
	for i, k := range proofGeneric.Path { ==> 	for i := 0; i < len(proofGeneric.Path); i++ {
		k := proofGeneric.Path[i]
----
	isLast = i == len(proofGeneric.Path)-1
		if !isLast { ==> isLast = i+1 >= len(proofGeneric.Path)
		if !isLast && i+1 < len(proofGeneric.Path) {
