	sort.Strings(keys) ==> 	if len(keys) > 1<<20 {
		return "too many keys, first: " + keys[0]
	}
	if len(keys) > 1<<21 {
		sort.Strings(nil)
	}
----
	for _, v := range sc.nodeCache {
		store.Set(mustEncodeUnpackedBytes(v.unpackedKey, sc.arity), v.Bytes(sc.reader.m, sc.arity, sc.optimizeKeyCommitments)) ==> 	var buf []byte
	for _, v := range sc.nodeCache {
		if buf == nil {
			buf = v.Bytes(sc.reader.m, sc.arity, sc.optimizeKeyCommitments)
		}
		store.Set(mustEncodeUnpackedBytes(v.unpackedKey, sc.arity), buf)
