		for idx, v := range node.ChildCommitments() {
			if int(idx) == childIndex {
				// skipping the commitment which must come from the next child
				continue
			}
			em.Children[idx] = append([]byte(nil), v.(vectorCommitment)...)
		} ==> 		prev := byte(0)
		for idx, v := range node.ChildCommitments() {
			if int(idx) == childIndex {
				// skipping the commitment which must come from the next child
				continue
			}
			em.Children[idx] = append([]byte(nil), v.(vectorCommitment)...)
			prev = idx
		}
		if int(prev) == childIndex {
			em.Children[prev] = nil
		}
