	if len(p.Path) == 0 {
		if len(rootBytes) != 0 {
			return xerrors.New("proof is empty")
		}
		return nil
	} ==> 	if len(p.Path) == 0 && len(rootBytes) != 0 {
		return xerrors.New("proof is empty")
	}
----
		if nextKeyIdx > len(p.Key) {
			return nil, fmt.Errorf("wrong proof: proof path out of key bounds. Path position: %d, key position %d", pathIdx, keyIdx)
		} ==> 
----
		if nextKeyIdx > len(p.Key) { ==> 		if nextKeyIdx > len(p.Key)+1 {
----
	if !last && !isPrefix { ==> 	if !last && !isPrefix && len(elem.PathFragment) > 0 && len(tail) > len(elem.PathFragment) {
&&
		trie.Assert(isPrefix, "assertion: isPrefix") ==> 
&&
		nextKeyIdx := keyIdx + len(elem.PathFragment) + 1 ==> 		nextKeyIdx := keyIdx + len(elem.PathFragment) - 1
----
		if !isPrefix || len(tail) == len(elem.PathFragment) || ==> 		if !isPrefix ||
----
		if !isPrefix || len(tail) == len(elem.PathFragment) || ==> 		if len(tail) == len(elem.PathFragment) ||
----
		if len(tail) == len(elem.PathFragment) {
			return nil, fmt.Errorf("wrong proof: key ends at the last element. Path position: %d, key position %d", pathIdx, keyIdx)
		} ==> 
----
	if arity.IsChildIndex(e.ChildIndex) {
		hashes ==> 	if e.ChildIndex >= 0 {
		hashes
----
	if elem.ChildIndex != p.PathArity.TerminalCommitmentIndex() && elem.ChildIndex != p.PathArity.PathFragmentCommitmentIndex() { ==> 	if elem.ChildIndex < p.PathArity.TerminalCommitmentIndex() {
----
	if err := Validate(p, rootBytes); err != nil {
		return err
	}
	_, r := MustKeyWithTerminal(p) ==> 	_, r := MustKeyWithTerminal(p)
	if err := Validate(p, rootBytes); err != nil {
		return err
	}
----
		c := elem.Children[byte(elem.ChildIndex)]
		if c != nil { ==> 		c := elem.Children[byte(elem.ChildIndex)]
		if len(c) == int(p.HashSize) && c[0] != 0 {
----
	if len(p.Path) == 0 {
		return nil
	}
	return hashIt(p.Path ==> 	return hashIt(p.Path
----
	trie.Assert(keyIdx <= len(p.Key), "assertion: keyIdx <= lenPlus1(p.Key)") ==> 	trie.Assert(keyIdx < len(p.Key), "assertion: keyIdx <= lenPlus1(p.Key)")
----
	last := pathIdx == len(p.Path)-1 ==> 	last := pathIdx == len(p.Path)
