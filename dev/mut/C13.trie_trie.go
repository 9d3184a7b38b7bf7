	case 1:
		for ret := range toCheck {
			return nodeReorgMerge, ret
		} ==> 	case 1, 2:
		for ret := range toCheck {
			return nodeReorgMerge, ret
		}
----
		if tr.hasCommitment(childKey(n, childIndex)) {
			// modified child commits to something
			return true
		} ==> 		// modified child commits to something
		return tr.hasCommitment(childKey(n, childIndex))
----
	childUpdates := make(map[byte]VCommitment)
	for childIndex := range n.modifiedChildren {
		curCommitment := mutate.ChildCommitments[childIndex] // may be nil
		tr.commitNode ==> 	childUpdates := make(map[byte]VCommitment)
	var curCommitment VCommitment
	for childIndex := range n.modifiedChildren {
		if c := mutate.ChildCommitments[childIndex]; c != nil {
			curCommitment = c
		}
		tr.commitNode
----
	for c := range n.ChildCommitments() {
		toCheck[c] = struct{}{}
	} ==> 	for c := range n.ChildCommitments() {
		toCheck[c] = struct{}{}
		if len(toCheck) > 16 {
			break
		}
	}
