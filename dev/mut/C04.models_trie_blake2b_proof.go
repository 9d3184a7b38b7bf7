elemKeyPosition++
		} else { ==> } else {
----
elemKeyPosition += len(node.PathFragment())
			childIndex ==> childIndex
----
case trie.EndingTerminal:
				childIndex = m.arity.TerminalCommitmentIndex() ==> case trie.EndingTerminal:
				childIndex = m.arity.PathFragmentCommitmentIndex()
----
		if node.Terminal() != nil { ==> 		if node.Terminal() != nil && isLast {
----
if int(idx) == childIndex { ==> if int(idx) <= childIndex {
----
if int(idx) == childIndex { ==> if int(idx) == childIndex && false {
----
if int(idx) == childIndex { ==> if int(idx) == childIndex || len(em.Children) > 16 {
----
Key:       proofGeneric.Key, ==> Key:       key,
----
HashSize:  m.hashSize, ==> HashSize:  HashSize160,
----
PathFragment: append([]byte(nil), node.PathFragment()...), ==> PathFragment: append([]byte(nil), k...),
----
isLast = i == len(proofGeneric.Path)-1 ==> isLast = i >= len(proofGeneric.Path)-2
