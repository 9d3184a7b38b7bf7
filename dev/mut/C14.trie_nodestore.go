	n, err := nodeReadOnlyFromBytes ==> 	if s, ok := sr.trieStore.(KVWriter); ok && len(nodeBin) == 1 {
		s.Set(encodedKey, nil)
	}
	n, err := nodeReadOnlyFromBytes
----
	arity      PathArity
}

func ==> 	arity      PathArity
	last       []byte
}

func
&&
	nodeBin := sr.trieStore.Get(encodedKey) ==> 	sr.last = encodedKey
	nodeBin := sr.trieStore.Get(encodedKey)
