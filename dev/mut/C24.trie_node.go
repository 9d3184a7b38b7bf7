	if fullKey := Concat(n.unpackedKey, n.n.PathFragment); optimizeKeyCommitments ==> 	if fullKey := Concat(n.unpackedKey); optimizeKeyCommitments
----
	if fullKey := Concat(n.unpackedKey, n.n.PathFragment); optimizeKeyCommitments && len(fullKey) > 0 { ==> 	if fullKey := Concat(n.unpackedKey, n.n.PathFragment); optimizeKeyCommitments {
----
		isKeyCommitment = model.EqualCommitments(n.n.Terminal, keyCommitment) ==> 		isKeyCommitment = model.EqualCommitments(n.newTerminal, keyCommitment)
----
		isKeyCommitment = model.EqualCommitments(n.n.Terminal, keyCommitment) ==> 		isKeyCommitment = !model.EqualCommitments(n.n.Terminal, keyCommitment)
----
	skipStoreTerminal := n.n.Terminal != nil && !model.ForceStoreTerminalWithNode(n.n.Terminal) ==> 	skipStoreTerminal := n.n.Terminal != nil && model.ForceStoreTerminalWithNode(n.n.Terminal)
----
	skipStoreTerminal := n.n.Terminal != nil && !model.ForceStoreTerminalWithNode(n.n.Terminal) ==> 	skipStoreTerminal := n.n.Terminal != nil && (isKeyCommitment || !model.ForceStoreTerminalWithNode(n.newTerminal))
----
	err := n.n.Write(&buf, arity, isKeyCommitment, skipStoreTerminal) ==> 	err := n.n.Write(&buf, arity, skipStoreTerminal, isKeyCommitment)
----
		keyCommitment := model.CommitToData(fullKey) ==> 		keyCommitment := model.CommitToData(fullKey[1:])
----
	if fullKey := Concat(n.unpackedKey, n.n.PathFragment); optimizeKeyCommitments && len(fullKey) > 0 { ==> 	if fullKey := Concat(n.unpackedKey, n.n.PathFragment); len(n.unpackedKey) > 0 && optimizeKeyCommitments && len(fullKey) > 0 {
