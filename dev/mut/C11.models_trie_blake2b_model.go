	ret := make([]byte, len(v))
	copy(ret, v)
	return vectorCommitment(ret) ==> 	return v
----
	ret := *t
	return &ret ==> 	return t
----
	if l > 0 {
		t.bytes = make([]byte, l) ==> 	if l > 0 {
		if len(t.bytes) != int(l) {
			t.bytes = make([]byte, l)
		}
