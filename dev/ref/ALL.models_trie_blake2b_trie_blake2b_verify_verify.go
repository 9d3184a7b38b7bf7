	lastElem := p.Path[len(p.Path)-1]
	switch {
	case p.PathArity.IsChildIndex(lastElem.ChildIndex):
		if _, ok := lastElem.Children[byte(lastElem.ChildIndex)]; ok {
			panic("nil child commitment expected for proof of absence")
		}
		return p.Key, nil
	case lastElem.ChildIndex == p.PathArity.TerminalCommitmentIndex():
		if len(lastElem.Terminal) == 0 {
			// empty terminal is not committed to: it is the same as no terminal
			return p.Key, nil
		}
		return p.Key, lastElem.Terminal
	case lastElem.ChildIndex == p.PathArity.PathFragmentCommitmentIndex():
		return p.Key, nil
	}
	panic("wrong lastElem.ChildIndex") ==> 	lastElem := p.Path[len(p.Path)-1]
	idx := lastElem.ChildIndex
	if p.PathArity.IsChildIndex(idx) {
		_, exists := lastElem.Children[byte(idx)]
		if exists {
			panic("nil child commitment expected for proof of absence")
		}
		return p.Key, nil
	}
	if idx == p.PathArity.TerminalCommitmentIndex() {
		if len(lastElem.Terminal) > 0 {
			return p.Key, lastElem.Terminal
		}
		return p.Key, nil
	}
	if idx != p.PathArity.PathFragmentCommitmentIndex() {
		panic("wrong lastElem.ChildIndex")
	}
	return p.Key, nil
----
	if len(p.Path) == 0 {
		if len(rootBytes) != 0 {
			return xerrors.New("proof is empty")
		}
		return nil
	}
	c, err := verify(p, 0, 0)
	if err != nil {
		return err
	}
	if !bytes.Equal(c, rootBytes) {
		return xerrors.New("invalid proof: commitment not equal to the root")
	}
	return nil ==> 	if len(p.Path) == 0 && len(rootBytes) == 0 {
		return nil
	}
	if len(p.Path) == 0 {
		return xerrors.New("proof is empty")
	}
	c, err := verify(p, 0, 0)
	switch {
	case err != nil:
		return err
	case bytes.Equal(c, rootBytes):
		return nil
	}
	return xerrors.New("invalid proof: commitment not equal to the root")
----
	_, r := MustKeyWithTerminal(p)
	if len(r) == 0 {
		return errors.New("key is not present in the state")
	}
	if !bytes.Equal(trie_blake2b.CommitToDataRaw(value, p.HashSize), r) {
		return errors.New("key does not correspond to the given value")
	}
	return nil ==> 	if _, r := MustKeyWithTerminal(p); len(r) == 0 {
		return errors.New("key is not present in the state")
	} else if expected := trie_blake2b.CommitToDataRaw(value, p.HashSize); !bytes.Equal(r, expected) {
		return errors.New("key does not correspond to the given value")
	}
	return nil
----
	hashes := make([][]byte, arity.VectorLength())
	for idx, c := range e.Children {
		trie.Assert(arity.IsChildIndex(int(idx)), "arity.IsChildIndex(int(idx)")
		hashes[idx] = c
	}
	if len(e.Terminal) > 0 {
		hashes[arity.TerminalCommitmentIndex()] = e.Terminal
	}
	hashes[arity.PathFragmentCommitmentIndex()] = trie_blake2b.CommitToDataRaw(e.PathFragment, sz)
	if arity.IsChildIndex(e.ChildIndex) {
		hashes[e.ChildIndex] = missingCommitment
	}
	return hashes ==> 	hashes := make([][]byte, arity.VectorLength())
	if len(e.Terminal) > 0 {
		hashes[arity.TerminalCommitmentIndex()] = e.Terminal
	}
	pathFragment := trie_blake2b.CommitToDataRaw(e.PathFragment, sz)
	hashes[arity.PathFragmentCommitmentIndex()] = pathFragment
	for childIndex, childCommitment := range e.Children {
		i := int(childIndex)
		trie.Assert(arity.IsChildIndex(i), "arity.IsChildIndex(int(idx)")
		hashes[i] = childCommitment
	}
	if arity.IsChildIndex(e.ChildIndex) {
		hashes[e.ChildIndex] = missingCommitment
	}
	return hashes
----
		nextKeyIdx := keyIdx + len(elem.PathFragment) + 1
		if nextKeyIdx > len(p.Key) {
			return nil, fmt.Errorf("wrong proof: proof path out of key bounds. Path position: %d, key position %d", pathIdx, keyIdx)
		}
		if int(p.Key[nextKeyIdx-1]) != elem.ChildIndex { ==> 		childPos := keyIdx + len(elem.PathFragment)
		if childPos >= len(p.Key) {
			return nil, fmt.Errorf("wrong proof: proof path out of key bounds. Path position: %d, key position %d", pathIdx, keyIdx)
		}
		nextKeyIdx := childPos + 1
		if int(p.Key[childPos]) != elem.ChildIndex {
----
	if !last {
		trie.Assert(isPrefix, "assertion: isPrefix")
		if !p.PathArity.IsChildIndex(elem.ChildIndex) {
			return nil, fmt.Errorf("wrong proof: wrong child index. Path position: %d, key position %d", pathIdx, keyIdx)
		}
		if _, ok := elem.Children[byte(elem.ChildIndex)]; ok {
			return nil, fmt.Errorf("wrong proof: unexpected commitment at child index %d. Path position: %d, key position %d", elem.ChildIndex, pathIdx, keyIdx)
		}
		nextKeyIdx := keyIdx + len(elem.PathFragment) + 1
		if nextKeyIdx > len(p.Key) {
			return nil, fmt.Errorf("wrong proof: proof path out of key bounds. Path position: %d, key position %d", pathIdx, keyIdx)
		}
		if int(p.Key[nextKeyIdx-1]) != elem.ChildIndex {
			return nil, fmt.Errorf("wrong proof: child index %d does not follow the key. Path position: %d, key position %d", elem.ChildIndex, pathIdx, keyIdx)
		}
		c, err := verify(p, pathIdx+1, nextKeyIdx)
		if err != nil {
			return nil, err
		}
		return hashIt(elem, c, p.PathArity, p.HashSize), nil
	}
	// it is the last in the path ==> 	if !last {
		return verifyInner(p, elem, pathIdx, keyIdx)
	}
	// it is the last in the path
&&
func makeHashVector(e ==> func verifyInner(p *trie_blake2b.Proof, elem *trie_blake2b.ProofElement, pathIdx, keyIdx int) ([]byte, error) {
	if !p.PathArity.IsChildIndex(elem.ChildIndex) {
		return nil, fmt.Errorf("wrong proof: wrong child index. Path position: %d, key position %d", pathIdx, keyIdx)
	}
	if _, ok := elem.Children[byte(elem.ChildIndex)]; ok {
		return nil, fmt.Errorf("wrong proof: unexpected commitment at child index %d. Path position: %d, key position %d", elem.ChildIndex, pathIdx, keyIdx)
	}
	nextKeyIdx := keyIdx + len(elem.PathFragment) + 1
	if nextKeyIdx > len(p.Key) {
		return nil, fmt.Errorf("wrong proof: proof path out of key bounds. Path position: %d, key position %d", pathIdx, keyIdx)
	}
	if int(p.Key[nextKeyIdx-1]) != elem.ChildIndex {
		return nil, fmt.Errorf("wrong proof: child index %d does not follow the key. Path position: %d, key position %d", elem.ChildIndex, pathIdx, keyIdx)
	}
	c, err := verify(p, pathIdx+1, nextKeyIdx)
	if err != nil {
		return nil, err
	}
	return hashIt(elem, c, p.PathArity, p.HashSize), nil
}

func makeHashVector(e
----
	if elem.ChildIndex != p.PathArity.TerminalCommitmentIndex() && elem.ChildIndex != p.PathArity.PathFragmentCommitmentIndex() {
		return nil, fmt.Errorf("wrong proof: child index expected to be %d or %d. Path position: %d, key position %d",
			p.PathArity.TerminalCommitmentIndex(), p.PathArity.PathFragmentCommitmentIndex(), pathIdx, keyIdx)
	}
	if elem.ChildIndex == p.PathArity.TerminalCommitmentIndex() {
		// terminal of the node says something about the key only if the key ends exactly at the node
		if !bytes.Equal(tail, elem.PathFragment) {
			return nil, fmt.Errorf("wrong proof: key does not end at the last element. Path position: %d, key position %d", pathIdx, keyIdx)
		}
		return hashIt(elem, nil, p.PathArity, p.HashSize), nil
	}
	// path fragment proves absence only if the key either diverges from the path fragment
	// or continues through a child which is missing in the node
	if isPrefix {
		if len(tail) == len(elem.PathFragment) {
			return nil, fmt.Errorf("wrong proof: key ends at the last element. Path position: %d, key position %d", pathIdx, keyIdx)
		}
		if _, ok := elem.Children[tail[len(elem.PathFragment)]]; ok {
			return nil, fmt.Errorf("wrong proof: path does not contain the next element of the key. Path position: %d, key position %d", pathIdx, keyIdx)
		}
	}
	return hashIt(elem, nil, p.PathArity, p.HashSize), nil
} ==> 	switch elem.ChildIndex {
	case p.PathArity.TerminalCommitmentIndex():
		// terminal of the node says something about the key only if the key ends exactly at the node
		if !isPrefix || len(tail) != len(elem.PathFragment) {
			return nil, fmt.Errorf("wrong proof: key does not end at the last element. Path position: %d, key position %d", pathIdx, keyIdx)
		}
	case p.PathArity.PathFragmentCommitmentIndex():
		if isPrefix {
			if len(tail) == len(elem.PathFragment) {
				return nil, fmt.Errorf("wrong proof: key ends at the last element. Path position: %d, key position %d", pathIdx, keyIdx)
			}
			next := tail[len(elem.PathFragment)]
			if _, ok := elem.Children[next]; ok {
				return nil, fmt.Errorf("wrong proof: path does not contain the next element of the key. Path position: %d, key position %d", pathIdx, keyIdx)
			}
		}
	default:
		return nil, fmt.Errorf("wrong proof: child index expected to be %d or %d. Path position: %d, key position %d",
			p.PathArity.TerminalCommitmentIndex(), p.PathArity.PathFragmentCommitmentIndex(), pathIdx, keyIdx)
	}
	return hashIt(elem, nil, p.PathArity, p.HashSize), nil
}
----
	tail := p.Key[keyIdx:]
	isPrefix := bytes.HasPrefix(tail, elem.PathFragment) ==> 	tail := p.Key[keyIdx:]
	isPrefix := len(tail) >= len(elem.PathFragment) && bytes.Equal(tail[:len(elem.PathFragment)], elem.PathFragment)
----
	return trie_blake2b.HashTheVector(makeHashVector(e, missingCommitment, arity, sz), arity, sz) ==> 	vector := makeHashVector(e, missingCommitment, arity, sz)
	return trie_blake2b.HashTheVector(vector, arity, sz)
----
	_, r := MustKeyWithTerminal(p)
	return r == nil ==> 	_, terminal := MustKeyWithTerminal(p)
	if terminal != nil {
		return false
	}
	return true
