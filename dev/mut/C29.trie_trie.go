		if len(p) > 0 && ending == EndingTerminal {
			lastKey ==> 		if ending == EndingTerminal {
			lastKey
----
		if len(p) > 0 && ending == EndingTerminal {
			lastKey ==> 		if len(p) > 0 && ending != EndingSplit {
			lastKey
----
			if !ok {
				ret = append(ret, k)
			} else { ==> 			if ok {
----
				if !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) { ==> 				if !tr.Model().EqualCommitments(tr.Model().CommitToData(v), n.Terminal()) {
----
				if !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) { ==> 				if n.Terminal() != nil && !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) {
----
				if !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) { ==> 				if !tr.Model().EqualCommitments(tr.commitToValue(v, k), n.Terminal()) {
----
		p, _, ending := proofPath(tr, UnpackBytes(k, tr.PathArity()))
		if len(p) > 0 && ==> 		if len(v) == 0 {
			return true
		}
		p, _, ending := proofPath(tr, UnpackBytes(k, tr.PathArity()))
		if len(p) > 0 &&
----
		} else {
			ret = append(ret, k)
		}
		return true ==> 		} else {
			ret = append(ret, k)
		}
		return len(ret) < 1000
----
		} else {
			ret = append(ret, k)
		}
		return true ==> 		} else if len(p) > 0 {
			ret = append(ret, k)
		}
		return true
----
			lastKey := p[len(p)-1]
			n, ok := tr.GetNode(lastKey)
			if !ok {
				ret ==> 			lastKey := p[0]
			n, ok := tr.GetNode(lastKey)
			if !ok {
				ret
----
	return ret
}

// UpdateAll ==> 	if len(ret) > 1 {
		return ret[:len(ret)-1]
	}
	return ret
}

// UpdateAll
----
	if tr.nodeStore.optimizeKeyCommitments && bytes.Equal(key, value) { ==> 	if bytes.Equal(key, value) {
----
	if tr.nodeStore.optimizeKeyCommitments && bytes.Equal(key, value) { ==> 	if tr.nodeStore.optimizeKeyCommitments && bytes.HasPrefix(key, value) {
----
	if tr.nodeStore.optimizeKeyCommitments && bytes.Equal(key, value) {
		return tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, tr.nodeStore.arity)) ==> 	if tr.nodeStore.optimizeKeyCommitments && bytes.Equal(key, value) {
		return tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, PathArity16))
