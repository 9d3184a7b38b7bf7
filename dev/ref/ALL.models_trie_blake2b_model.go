	deleted := make([]byte, 0, 256)
	for i, upd := range childUpdates {
		mutate.ChildCommitments[i] = upd
		if upd == nil {
			// if update == nil, it means child commitment must be removed
			deleted = append(deleted, i)
		}
	}
	for _, i := range deleted {
		delete(mutate.ChildCommitments, i)
	} ==> 	for i, upd := range childUpdates {
		if upd == nil {
			// if update == nil, it means child commitment must be removed
			delete(mutate.ChildCommitments, i)
			continue
		}
		mutate.ChildCommitments[i] = upd
	}
----
	mutate.Terminal = newTerminalUpdate // for hash commitment just replace
	if len(mutate.ChildCommitments) == 0 && mutate.Terminal == nil {
		return
	}
	if update != nil {
		*update = (vectorCommitment)(HashTheVector(m.makeHashVector(mutate), m.arity, m.hashSize))
	} ==> 	mutate.Terminal = newTerminalUpdate // for hash commitment just replace
	commits := len(mutate.ChildCommitments) > 0 || mutate.Terminal != nil
	if commits && update != nil {
		hashes := m.makeHashVector(mutate)
		*update = vectorCommitment(HashTheVector(hashes, m.arity, m.hashSize))
	}
----
	if len(par.ChildCommitments) == 0 && par.Terminal == nil {
		return nil
	}
	return vectorCommitment(HashTheVector(m.makeHashVector(par), m.arity, m.hashSize)) ==> 	if par.Terminal != nil || len(par.ChildCommitments) > 0 {
		return vectorCommitment(HashTheVector(m.makeHashVector(par), m.arity, m.hashSize))
	}
	return nil
----
	var ret []byte
	if len(data) <= int(sz) {
		ret = make([]byte, len(data))
		copy(ret, data)
	} else {
		ret = blakeIt(data, sz)
	}
	return ret ==> 	if len(data) > int(sz) {
		return blakeIt(data, sz)
	}
	return append(make([]byte, 0, len(data)), data...)
----
	hashes := make([][]byte, m.arity.VectorLength())
	for i, c := range nodeData.ChildCommitments {
		trie.Assert(int(i) < m.arity.VectorLength(), "int(i)<m.arity.VectorLength()")
		hashes[i] = c.Bytes()
	}
	if nodeData.Terminal != nil {
		hashes[m.arity.TerminalCommitmentIndex()] = nodeData.Terminal.(*terminalCommitment).bytes
	}
	hashes[m.arity.PathFragmentCommitmentIndex()] = CommitToDataRaw(nodeData.PathFragment, m.hashSize)
	return hashes ==> 	n := m.arity.VectorLength()
	hashes := make([][]byte, n)
	hashes[m.arity.PathFragmentCommitmentIndex()] = CommitToDataRaw(nodeData.PathFragment, m.hashSize)
	if t := nodeData.Terminal; t != nil {
		hashes[m.arity.TerminalCommitmentIndex()] = t.(*terminalCommitment).bytes
	}
	for i, c := range nodeData.ChildCommitments {
		pos := int(i)
		trie.Assert(pos < n, "int(i)<m.arity.VectorLength()")
		hashes[pos] = c.Bytes()
	}
	return hashes
----
	for i, h := range hashes {
		if h == nil {
			continue
		}
		pos := i * msz
		copy(buf[pos:pos+msz], h)
	}
	return blakeIt(buf, sz) ==> 	for i := 0; i < len(hashes); i++ {
		if h := hashes[i]; h != nil {
			copy(buf[i*msz:(i+1)*msz], h)
		}
	}
	return blakeIt(buf, sz)
----
	for i, h := range hashes {
		if h == nil {
			continue
		}
		pos := i * msz
		copy(buf[pos:pos+msz], h)
	}
	return blakeIt(buf, sz) ==> 	pos := 0
	for _, h := range hashes {
		copy(buf[pos:pos+msz], h)
		pos += msz
	}
	return blakeIt(buf, sz)
----
	if equals, conclusive := trie.CheckNils(c1, c2); conclusive {
		return equals
	}
	// both not nils
	if t1, ok1 := c1.(*terminalCommitment); ok1 {
		if t2, ok2 := c2.(*terminalCommitment); ok2 {
			return bytes.Equal(t1.bytes, t2.bytes)
		}
	}
	if v1, ok1 := c1.(vectorCommitment); ok1 {
		if v2, ok2 := c2.(vectorCommitment); ok2 {
			return bytes.Equal(v1, v2)
		}
	}
	return false ==> 	if equals, conclusive := trie.CheckNils(c1, c2); conclusive {
		return equals
	}
	switch x := c1.(type) {
	case *terminalCommitment:
		y, ok := c2.(*terminalCommitment)
		return ok && bytes.Equal(x.bytes, y.bytes)
	case vectorCommitment:
		y, ok := c2.(vectorCommitment)
		return ok && bytes.Equal(x, y)
	}
	return false
----
	switch sz {
	case HashSize160:
		ret := trie.Blake2b160(data)
		return ret[:]
	case HashSize256:
		ret := blake2b.Sum256(data)
		return ret[:]
	}
	panic("must be 160 of 256") ==> 	if sz == HashSize160 {
		ret := trie.Blake2b160(data)
		return ret[:]
	}
	if sz != HashSize256 {
		panic("must be 160 of 256")
	}
	ret := blake2b.Sum256(data)
	return ret[:]
----
	return &terminalCommitment{
		bytes:              CommitToDataRaw(data, m.hashSize),
		isCostlyCommitment: len(data) > m.valueSizeOptimizationThreshold,
	} ==> 	ret := newTerminalCommitment(m.hashSize)
	ret.bytes = CommitToDataRaw(data, m.hashSize)
	if len(data) > m.valueSizeOptimizationThreshold {
		ret.isCostlyCommitment = true
	}
	return ret
----
	if len(data) == 0 {
		// empty slice -> no data (deleted)
		return nil
	}
	return m.commitToData(data) ==> 	if len(data) > 0 {
		return m.commitToData(data)
	}
	return nil
----
	t.isCostlyCommitment = (l & costlyCommitmentMask) != 0
	l &= sizeMask

	if l > 32 {
		return fmt.Errorf("wrong data size")
	}
	if l > 0 {
		t.bytes = make([]byte, l)

		if _, err = io.ReadFull(r, t.bytes); err != nil {
			return err
		}
	}
	return nil ==> 	t.isCostlyCommitment = (l & costlyCommitmentMask) != 0
	size := int(l & sizeMask)
	if size > 32 {
		return fmt.Errorf("wrong data size")
	}
	if size == 0 {
		return nil
	}
	t.bytes = make([]byte, size)
	_, err = io.ReadFull(r, t.bytes)
	return err
----
	l := byte(len(t.bytes))
	if t.isCostlyCommitment {
		l |= costlyCommitmentMask
	}
	if err := trie.WriteByte(w, l); err != nil {
		return err
	}
	_, err := w.Write(t.bytes)
	return err ==> 	flags := byte(0)
	if t.isCostlyCommitment {
		flags = costlyCommitmentMask
	}
	err := trie.WriteByte(w, byte(len(t.bytes))|flags)
	if err == nil {
		_, err = w.Write(t.bytes)
	}
	return err
----
	if len(v) == 0 {
		return nil
	}
	ret := make([]byte, len(v))
	copy(ret, v)
	return vectorCommitment(ret) ==> 	if len(v) == 0 {
		return nil
	}
	return append(vectorCommitment(nil), v...)
