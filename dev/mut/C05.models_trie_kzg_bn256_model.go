	scalarFromBytes(ret, pBin)
	return ret ==> 	scalarFromBytes(ret, pBin[:32])
	return ret
----
	ret.SetBytes(h[:]) ==> 	ret.SetBytes(h[:20])
----
	h := blake2b.Sum256(data)
	ret := &terminal ==> 	if len(data) > 1<<16 {
		data = data[:1<<16]
	}
	h := blake2b.Sum256(data)
	ret := &terminal
----
	return bytes.Equal(c1.Bytes(), c2.Bytes()) ==> 	return bytes.HasPrefix(c1.Bytes(), c2.Bytes())
