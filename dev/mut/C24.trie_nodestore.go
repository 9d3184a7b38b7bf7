	n, err := nodeReadOnlyFromBytes(sr.m, nodeBin, unpackedKey, sr.arity, sr.valueStore) ==> 	n, err := nodeReadOnlyFromBytes(sr.m, nodeBin, encodedKey, sr.arity, sr.valueStore)
----
	n, err := nodeReadOnlyFromBytes(sr.m, nodeBin, unpackedKey, sr.arity, sr.valueStore) ==> 	n, err := nodeReadOnlyFromBytes(sr.m, nodeBin, unpackedKey, sr.arity, sr.trieStore)
----
		valueStore: valueStore,
		arity:      arity, ==> 		valueStore: trieStore,
		arity:      arity,
----
		store.Set(mustEncodeUnpackedBytes(v.unpackedKey, sc.arity), v.Bytes(sc.reader.m, sc.arity, sc.optimizeKeyCommitments)) ==> 		store.Set(mustEncodeUnpackedBytes(v.unpackedKey, sc.arity), v.Bytes(sc.reader.m, PathArity256, sc.optimizeKeyCommitments))
