	tr.commitNode(nil, nil)
 ==> 	if len(tr.nodeStore.deleted) == 0 && len(tr.nodeStore.nodeCache) < 2 {
		return
	}
	tr.commitNode(nil, nil)
----
	isModified := n.pathChanged || len(n.modifiedChildren) > 0 || ==> 	isModified := len(n.modifiedChildren) > 0 ||
----
	isModified := n.pathChanged || len(n.modifiedChildren) > 0 || ==> 	isModified := n.pathChanged || len(n.modifiedChildren) > 1 ||
----
 || !tr.Model().EqualCommitments(n.newTerminal, n.n.Terminal) ==>  || (n.newTerminal == nil) != (n.n.Terminal == nil)
----
		if update != nil {
			*update = nil
		}
		return ==> 		return
----
		curCommitment := mutate.ChildCommitments[childIndex] // may be nil ==> 		var curCommitment VCommitment
----
		childUpdates[childIndex] = curCommitment ==> 		if curCommitment != nil {
			childUpdates[childIndex] = curCommitment
		}
----
	n.n.Terminal = n.newTerminal
	if len ==> 	if n.newTerminal != nil {
		n.n.Terminal = n.newTerminal
	}
	if len
----
	n.pathChanged = false
} ==> }
----
	if len(n.modifiedChildren) > 0 {
		// clean ==> 	if len(n.modifiedChildren) > 1 {
		// clean
----
	for i := len(proof) - 1; i > 0; i-- { ==> 	for i := len(proof) - 1; i > 1; i-- {
----
	for i := len(proof) - 1; i > 0; i-- { ==> 	for i := len(proof) - 2; i > 0; i-- {
----
		n := tr.nodeStore.mustGetNode(kPrev)
		n.markChildModified(childIndex) ==> 		n := tr.nodeStore.mustGetNode(kPrev)
		if len(n.modifiedChildren) > 0 {
			break
		}
		n.markChildModified(childIndex)
----
		if len(proof) >= 2 {
			tr.markModifiedCommitmentsBackToRoot(proof)
 ==> 		if len(proof) >= 2 {
			tr.markModifiedCommitmentsBackToRoot(proof[1:])
----
		tr.mergeNode(lastKey, lastNode, mergeChildIndex)
		tr.markModifiedCommitmentsBackToRoot(proof) ==> 		tr.mergeNode(lastKey, lastNode, mergeChildIndex)
----
		n.markChildModified(childForkIndex)
 ==> 
----
	n.markChildModified(childContinue)
 ==> 
----
	ret.pathChanged = true
 ==> 
----
		tr.nodeStore.mustGetNode(lastKey).markChildModified(childIndex)
 ==> 		tr.nodeStore.mustGetNode(lastKey)
----
		tr.Update(k, v)
		return true ==> 		tr.Update(k, v)
		return len(v) > 0
----
		tr.Update(k, v)
		return true ==> 		if len(k) > 0 {
			tr.Update(k, v)
		}
		return true
----
@@ trie/node.go
	n.n.PathFragment = pf
	n.pathChanged = true ==> 	n.n.PathFragment = pf
&&
	n.unpackedKey = key
	n.pathChanged = true ==> 	n.unpackedKey = key
----
@@ models/trie_blake2b/model.go
	for _, i := range deleted {
		delete(mutate.ChildCommitments, i)
	} ==> 	if len(deleted) < len(mutate.ChildCommitments) {
		for _, i := range deleted {
			delete(mutate.ChildCommitments, i)
		}
	}
----
@@ models/trie_blake2b/model.go
			deleted = append(deleted, i)
 ==> 			deleted = append(deleted[:0], i)
----
@@ models/trie_blake2b/model.go
	mutate.Terminal = newTerminalUpdate // for hash commitment just replace
 ==> 	if newTerminalUpdate != nil {
		mutate.Terminal = newTerminalUpdate
	}
----
@@ models/trie_blake2b/model.go
		return bytes.Equal(v1, v2) ==> 		return bytes.Equal(v1[:16], v2[:16])
&&
		if v2, ok2 := c2.(vectorCommitment); ok2 { ==> 		if v2, ok2 := c2.(vectorCommitment); ok2 && len(v2) >= 16 && len(v1) >= 16 {
----
@@ models/trie_blake2b/model.go
			return bytes.Equal(t1.bytes, t2.bytes) ==> 			return bytes.HasPrefix(t1.bytes, t2.bytes)
----
@@ models/trie_blake2b/model.go
			return bytes.Equal(t1.bytes, t2.bytes) ==> 			return len(t1.bytes) == len(t2.bytes) && bytes.HasPrefix(t1.bytes, t2.bytes)
----
@@ models/trie_kzg_bn256/model.go
			delete(mutate.ChildCommitments, i)
 ==> 			mutate.ChildCommitments[i] = nil
----
@@ models/trie_kzg_bn256/model.go
	mutate.Terminal = terminal
	if calcDelta { ==> 	if calcDelta {
----
@@ trie/util.go
	if i1Nil || i2Nil {
		return false, true ==> 	if i1Nil || i2Nil {
		return i2Nil, true
