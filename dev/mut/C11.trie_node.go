		n:                *n.n.Clone(), ==> 		n:                n.n,
----
		unpackedKey:      make([]byte, len(n.unpackedKey)), ==> 		unpackedKey:      n.unpackedKey,
----
	for k, v := range n.modifiedChildren {
		ret.modifiedChildren[k] = v
	}
 ==> 
----
	for k, v := range n.modifiedChildren {
		ret.modifiedChildren[k] = v
	}
 ==> ret.modifiedChildren = n.modifiedChildren
----
	for k, v := range n.modifiedChildren {
		ret.modifiedChildren[k] = v ==> 	for k, v := range n.modifiedChildren {
		if _, ok := n.n.ChildCommitments[k]; !ok {
			continue
		}
		ret.modifiedChildren[k] = v
----
		pathChanged:      n.pathChanged, ==> 		pathChanged:      false,
----
		newTerminal = n.newTerminal.Clone() ==> 		newTerminal = n.n.Terminal.Clone()
----
	copy(ret.unpackedKey, n.unpackedKey) ==> 	copy(ret.unpackedKey, n.n.PathFragment)
