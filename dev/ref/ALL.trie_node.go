	isKeyCommitment := false
	if fullKey := Concat(n.unpackedKey, n.n.PathFragment); optimizeKeyCommitments && len(fullKey) > 0 {
		keyCommitment := model.CommitToData(fullKey)
		isKeyCommitment = model.EqualCommitments(n.n.Terminal, keyCommitment)
	}
	var buf bytes.Buffer
	skipStoreTerminal := n.n.Terminal != nil && !model.ForceStoreTerminalWithNode(n.n.Terminal)
	err := n.n.Write(&buf, arity, isKeyCommitment, skipStoreTerminal)
	Assert(err == nil, "trie::bufferedNode::Bytes: %v", err)
	return buf.Bytes() ==> 	t := n.n.Terminal
	isKeyCommitment := optimizeKeyCommitments && n.commitsToKey(model)
	skipStoreTerminal := false
	if t != nil {
		skipStoreTerminal = !model.ForceStoreTerminalWithNode(t)
	}
	buf := new(bytes.Buffer)
	if err := n.n.Write(buf, arity, isKeyCommitment, skipStoreTerminal); err != nil {
		Assert(false, "trie::bufferedNode::Bytes: %v", err)
	}
	return buf.Bytes()
&&
func childKey(n Node, ==> func (n *bufferedNode) commitsToKey(model CommitmentModel) bool {
	fullKey := Concat(n.unpackedKey, n.n.PathFragment)
	if len(fullKey) == 0 {
		return false
	}
	return model.EqualCommitments(n.n.Terminal, model.CommitToData(fullKey))
}

func childKey(n Node,
----
	var newTerminal TCommitment
	if n.newTerminal == nil {
		newTerminal = nil
	} else {
		newTerminal = n.newTerminal.Clone()
	}
	ret := &bufferedNode{
		n:                *n.n.Clone(),
		unpackedKey:      make([]byte, len(n.unpackedKey)),
		newTerminal:      newTerminal,
		modifiedChildren: make(map[byte]struct{}),
		pathChanged:      n.pathChanged,
	}
	copy(ret.unpackedKey, n.unpackedKey)
	for k, v := range n.modifiedChildren {
		ret.modifiedChildren[k] = v
	}
	return ret ==> 	ret := newBufferedNode(append([]byte{}, n.unpackedKey...))
	ret.n = *n.n.Clone()
	ret.pathChanged = n.pathChanged
	if n.newTerminal != nil {
		ret.newTerminal = n.newTerminal.Clone()
	}
	for k := range n.modifiedChildren {
		ret.markChildModified(k)
	}
	return ret
----
	ret, err := NodeDataFromBytes(model, data, unpackedKey, arity, valueStore)
	if err != nil {
		return nil, err
	}
	return &nodeReadOnly{
		n:   *ret,
		key: unpackedKey,
	}, nil ==> 	nd, err := NodeDataFromBytes(model, data, unpackedKey, arity, valueStore)
	if err == nil {
		ret := &nodeReadOnly{key: unpackedKey}
		ret.n = *nd
		return ret, nil
	}
	return nil, err
