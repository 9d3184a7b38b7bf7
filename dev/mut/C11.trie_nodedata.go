ret.ChildCommitments[i] = c.Clone() ==> ret.ChildCommitments[i] = c
----
		ret.Terminal = n.Terminal.Clone() ==> 		ret.Terminal = n.Terminal
----
		ChildCommitments: make(map[byte]VCommitment),
	}
	if n.Terminal ==> 		ChildCommitments: n.ChildCommitments,
	}
	if n.Terminal
----
	copy(ret.PathFragment, n.PathFragment) ==> 	ret.PathFragment = n.PathFragment
