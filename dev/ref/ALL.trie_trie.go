	isModified := n.pathChanged || len(n.modifiedChildren) > 0 || !tr.Model().EqualCommitments(n.newTerminal, n.n.Terminal)
	if !isModified {
		return
	} ==> 	if !n.pathChanged && len(n.modifiedChildren) == 0 && tr.Model().EqualCommitments(n.newTerminal, n.n.Terminal) {
		return
	}
----
	for childIndex := range n.modifiedChildren {
		curCommitment := mutate.ChildCommitments[childIndex] // may be nil
		tr.commitNode(childKey(n, childIndex), &curCommitment)
		childUpdates[childIndex] = curCommitment
	} ==> 	for childIndex := range n.modifiedChildren {
		childUpdates[childIndex] = tr.commitChild(n, childIndex)
	}
&&
// commitToValue returns terminal ==> func (tr *Trie) commitChild(n *bufferedNode, childIndex byte) VCommitment {
	cur := n.n.ChildCommitments[childIndex]
	tr.commitNode(childKey(n, childIndex), &cur)
	return cur
}

// commitToValue returns terminal
----
	n.n.Terminal = n.newTerminal
	if len(n.modifiedChildren) > 0 {
		// clean the modification marks if any
		n.modifiedChildren = make(map[byte]struct{})
	}
	n.pathChanged = false
} ==> 	n.markCommitted()
}

func (n *bufferedNode) markCommitted() {
	n.pathChanged = false
	n.modifiedChildren = make(map[byte]struct{})
	n.n.Terminal = n.newTerminal
}
----
	for i := len(proof) - 1; i > 0; i-- {
		k := proof[i]
		kPrev := proof[i-1]
		childIndex := k[len(k)-1]
		n := tr.nodeStore.mustGetNode(kPrev)
		n.markChildModified(childIndex)
	} ==> 	for i := 1; i < len(proof); i++ {
		k := proof[i]
		tr.nodeStore.mustGetNode(proof[i-1]).markChildModified(k[len(k)-1])
	}
----
	toCheck := make(map[byte]struct{})
	for c := range n.ChildCommitments() {
		toCheck[c] = struct{}{}
	}
	for c := range n.modifiedChildren {
		if tr.hasCommitment(childKey(n, c)) {
			toCheck[c] = struct{}{}
		} else {
			delete(toCheck, c)
		}
	}
	switch len(toCheck) {
	case 0:
		return nodeReorgRemove, 0
	case 1:
		for ret := range toCheck {
			return nodeReorgMerge, ret
		}
	}
	return nodeReorgNOP, 0 ==> 	remaining := make(map[byte]struct{})
	for c := range n.n.ChildCommitments {
		if _, modified := n.modifiedChildren[c]; !modified {
			remaining[c] = struct{}{}
		}
	}
	for c := range n.modifiedChildren {
		if tr.hasCommitment(childKey(n, c)) {
			remaining[c] = struct{}{}
		}
	}
	if len(remaining) == 0 {
		return nodeReorgRemove, 0
	}
	if len(remaining) == 1 {
		for ret := range remaining {
			return nodeReorgMerge, ret
		}
	}
	return nodeReorgNOP, 0
----
	nextKey := childKey(n, childIndex)
	nextNode := tr.nodeStore.mustGetNode(nextKey)

	tr.nodeStore.unDelete(key)
	ret := nextNode.Clone()
	ret.setNewKey(key)
	ret.setNewPathFragment(Concat(n.PathFragment(), childIndex, nextNode.PathFragment()))
	tr.nodeStore.replaceNode(ret)
	tr.nodeStore.removeKey(nextKey) ==> 	nextKey := Concat(n.unpackedKey, n.n.PathFragment, childIndex)
	nextNode := tr.nodeStore.mustGetNode(nextKey)
	pf := Concat(n.PathFragment(), childIndex, nextNode.PathFragment())

	ret := nextNode.Clone()
	ret.setNewPathFragment(pf)
	ret.setNewKey(key)
	tr.nodeStore.removeKey(nextKey)
	tr.nodeStore.unDelete(key)
	tr.nodeStore.replaceNode(ret)
----
	keyNewNode := make([]byte, childPosition+1)
	copy(keyNewNode, fullKey)
	Assert(splitIndex < len(n.n.PathFragment), "splitIndex < len(n.newPathFragment)")
	childContinue := n.n.PathFragment[splitIndex]
	keyNewNode[len(keyNewNode)-1] = childContinue ==> 	Assert(splitIndex < len(n.n.PathFragment), "splitIndex < len(n.newPathFragment)")
	childContinue := n.n.PathFragment[splitIndex]
	keyNewNode := Concat(fullKey[:childPosition], childContinue)
----
	switch ending {
	case EndingTerminal:
		tr.nodeStore.mustGetNode(lastKey).setNewTerminal(c)

	case EndingExtend:
		childIndexPosition := len(lastKey) + len(lastCommonPrefix)
		Assert(childIndexPosition < len(unpackedKey), "childPosition < len(unpackedKey)")
		childIndex := unpackedKey[childIndexPosition]
		tr.nodeStore.removeKey(unpackedKey[:childIndexPosition+1])
		tr.newTerminalNode(unpackedKey[:childIndexPosition+1], unpackedKey[childIndexPosition+1:], c)
		tr.nodeStore.mustGetNode(lastKey).markChildModified(childIndex) ==> 	switch ending {
	case EndingTerminal:
		n := tr.nodeStore.mustGetNode(lastKey)
		n.newTerminal = c

	case EndingExtend:
		tr.extend(unpackedKey, lastKey, lastCommonPrefix, c)
&&
// InsertKeyCommitment inserts ==> func (tr *Trie) extend(unpackedKey, lastKey, lastCommonPrefix []byte, c TCommitment) {
	pos := len(lastKey) + len(lastCommonPrefix)
	Assert(pos < len(unpackedKey), "childPosition < len(unpackedKey)")
	newKey, rest := unpackedKey[:pos+1], unpackedKey[pos+1:]
	tr.nodeStore.removeKey(newKey)
	tr.newTerminalNode(newKey, rest, c)
	tr.nodeStore.mustGetNode(lastKey).markChildModified(unpackedKey[pos])
}

// InsertKeyCommitment inserts
----
	n, ok := tr.nodeStore.getNode(key)
	if !ok {
		return false
	}
	if n.newTerminal != nil {
		// commits to Terminal
		return true
	}
	for childIndex := range n.modifiedChildren {
		if tr.hasCommitment(childKey(n, childIndex)) {
			// modified child commits to something
			return true
		}
	}
	// new commitments do not come from children
	if len(n.n.ChildCommitments) > 0 {
		// existing children commit
		return true
	}
	// node does not commit to anything
	return false ==> 	n, ok := tr.nodeStore.getNode(key)
	if ok && n.newTerminal != nil {
		return true
	}
	if !ok {
		return false
	}
	for childIndex := range n.modifiedChildren {
		if tr.hasCommitment(childKey(n, childIndex)) {
			return true
		}
	}
	return len(n.n.ChildCommitments) > 0
----
	proof, _, ending := proofPath(tr, unpackedKey)
	if len(proof) == 0 || ending != EndingTerminal {
		return
	}
	lastKey := proof[len(proof)-1]
	lastNode, ok := tr.nodeStore.getNode(lastKey)
	if !ok {
		return
	}
	lastNode.setNewTerminal(nil) ==> 	proof, _, ending := proofPath(tr, unpackedKey)
	if ending != EndingTerminal {
		return
	}
	if len(proof) == 0 {
		return
	}
	lastKey := proof[len(proof)-1]
	lastNode := tr.nodeStore.mustGetNode(lastKey)
	lastNode.newTerminal = nil
----
	mutate := NodeData{
		PathFragment:     n.n.PathFragment,
		ChildCommitments: n.n.ChildCommitments,
		Terminal:         n.n.Terminal,
	} ==> 	mutate := n.n
----
		p, _, ending := proofPath(tr, UnpackBytes(k, tr.PathArity()))
		if len(p) > 0 && ending == EndingTerminal {
			lastKey := p[len(p)-1]
			n, ok := tr.GetNode(lastKey)
			if !ok {
				ret = append(ret, k)
			} else {
				if !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) {
					ret = append(ret, k)
				}
			}
		} else {
			ret = append(ret, k)
		}
		return true ==> 		if !tr.isProven(k, v) {
			ret = append(ret, k)
		}
		return true
&&
// UpdateAll mass-updates ==> func (tr *Trie) isProven(k, v []byte) bool {
	p, _, ending := proofPath(tr, UnpackBytes(k, tr.PathArity()))
	if len(p) == 0 || ending != EndingTerminal {
		return false
	}
	n, ok := tr.GetNode(p[len(p)-1])
	return ok && tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal())
}

// UpdateAll mass-updates
----
	return tr.Model().CalcNodeCommitment(&NodeData{
		PathFragment:     n.PathFragment(),
		ChildCommitments: n.ChildCommitments(),
		Terminal:         n.Terminal(),
	}) ==> 	data := NodeData{}
	data.PathFragment = n.PathFragment()
	data.ChildCommitments = n.ChildCommitments()
	data.Terminal = n.Terminal()
	m := tr.Model()
	return m.CalcNodeCommitment(&data)
