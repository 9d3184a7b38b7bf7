	trie.Assert(len(t.bytes) <= 32, "len(t.bytes) <= 32")
	l := ==> 	l :=
----
	for i, c := range nodeData.ChildCommitments { ==> 	for i, c := range nodeData.ChildCommitments {
		i += byte(len(nodeData.PathFragment))
