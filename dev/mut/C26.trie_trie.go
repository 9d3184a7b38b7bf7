	newNode.setNewPathFragment(n.PathFragment()[splitIndex+1:]) ==> 	newNode.setNewPathFragment(n.PathFragment()[splitIndex:])
----
		tr.newTerminalNode(unpackedKey[:childIndexPosition+1], unpackedKey[childIndexPosition+1:], c) ==> 		tr.newTerminalNode(unpackedKey[:childIndexPosition+1], unpackedKey[childIndexPosition:], c)
----
	n.n.Terminal = nil
	n.newTerminal = nil ==> 	n.n.Terminal = nil
----
	n.modifiedChildren = make(map[uint8]struct{})
 ==> 
----
	n.n.ChildCommitments = make(map[uint8]VCommitment)
 ==> 
----
	n.markChildModified(childContinue)
 ==> 
----
	n.setNewPathFragment(commonPrefix) ==> 	n.setNewPathFragment(n.PathFragment()[:splitIndex+1])
----
	tr.nodeStore.insertNewNode(newNode)
 ==> 
----
	if childPosition == len(fullKey) { ==> 	if childPosition+1 >= len(fullKey) {
----
	ret.setNewPathFragment(Concat(n.PathFragment(), childIndex, nextNode.PathFragment())) ==> 	ret.setNewPathFragment(Concat(n.PathFragment(), nextNode.PathFragment()))
----
	tr.nodeStore.removeKey(nextKey)
 ==> 
----
	ret.setNewKey(key)
 ==> 
----
			if reorg == nodeReorgMerge { ==> 			if reorg == nodeReorgMerge && len(proof) > 2 {
----
		if len(proof) >= 2 {
			tr.mark ==> 		if len(proof) >= 3 {
			tr.mark
----
	if n.newTerminal != nil {
		return nodeReorgNOP, 0
	} ==> 	if n.n.Terminal != nil {
		return nodeReorgNOP, 0
	}
----
		} else {
			delete(toCheck, c)
		} ==> 		}
----
		if tr.hasCommitment(childKey(n, c)) {
			toCheck[c] = struct{}{} ==> 		if _, ok := tr.nodeStore.getNode(childKey(n, c)); ok {
			toCheck[c] = struct{}{}
----
	if n.newTerminal != nil {
		// commits to Terminal
		return true
	} ==> 	if n.n.Terminal != nil {
		// commits to Terminal
		return true
	}
----
	lastNode.setNewTerminal(nil)
	reorg, mergeChildIndex := tr.checkReorg(lastNode) ==> 	reorg, mergeChildIndex := tr.checkReorg(lastNode)
	lastNode.setNewTerminal(nil)
----
	if len(proof) == 0 || ending != EndingTerminal {
		return
	}
	lastKey ==> 	if len(proof) == 0 || ending == EndingExtend {
		return
	}
	lastKey
----
	if len(proof) == 0 || ending != EndingTerminal {
		return
	}
	lastKey ==> 	if len(proof) <= 1 || ending != EndingTerminal {
		return
	}
	lastKey
----
		tr.nodeStore.mustGetNode(lastKey).setNewTerminal(c) ==> 		if n := tr.nodeStore.mustGetNode(lastKey); n.newTerminal == nil {
			n.setNewTerminal(c)
		}
----
		tr.mergeNode(lastKey, lastNode, mergeChildIndex) ==> 		if lastNode.pathChanged {
			tr.mergeNode(lastKey, lastNode, mergeChildIndex)
		}
----
	nextNode := tr.nodeStore.mustGetNode(nextKey)

	tr.nodeStore.unDelete(key) ==> 	nextNode := tr.nodeStore.mustGetNode(nextKey)
	if len(nextNode.n.ChildCommitments) == 0 && nextNode.newTerminal == nil {
		return
	}
	tr.nodeStore.unDelete(key)
