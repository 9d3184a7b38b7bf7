	if p.Key, err = trie.DecodeToUnpackedBytes(encodedKey, p.PathArity); err != nil {
		return err
	}
	var size uint16 ==> 	if p.Key, err = trie.DecodeToUnpackedBytes(encodedKey, trie.PathArity16); err != nil {
		return err
	}
	var size uint16
----
	if err = trie.WriteBytes16(w, encodedKey); err != nil {
		return err
	}
	if len(p.Path) > math.MaxUint16 {
		return errors.New("proof path is too long")
	}
	if err = trie.WriteUint16(w, uint16(len(p.Path))); err != nil {
		return err
	}
 ==> 	if len(p.Path) > math.MaxUint16 {
		return errors.New("proof path is too long")
	}
	if err = trie.WriteUint16(w, uint16(len(p.Path))); err != nil {
		return err
	}
	if err = trie.WriteBytes16(w, encodedKey); err != nil {
		return err
	}
----
	if len(p.Path) > math.MaxUint16 {
		return errors.New("proof path is too long")
	}
 ==> 
----
	for _, e := range p.Path {
		if err = e.Write ==> 	for i := len(p.Path) - 1; i >= 0; i-- {
		e := p.Path[i]
		if err = e.Write
----
	if smallFlags&hasTerminalValueFlag != 0 {
		if e.Terminal, err = ==> 	if smallFlags&hasTerminalValueFlag != 0 && smallFlags&hasChildrenFlag != 0 {
		if e.Terminal, err =
----
		smallFlags |= hasChildrenFlag
	}
	if err := ==> 		smallFlags = hasChildrenFlag
	}
	if err :=
----
		flags[i/8] |= 0x1 << (i % 8)
		smallFlags ==> 		flags[i/8] |= 0x1 << (7 - i%8)
		smallFlags
----
			if flags[i/8]&(0x1<<(i%8)) != 0 { ==> 			if flags[i/8]&(0x80>>(i%8)) != 0 {
----
		flags[i/8] |= 0x1 << (i % 8)
		smallFlags ==> 		flags[i/8] = 0x1 << (i % 8)
		smallFlags
----
		for i := 0; i < arity.NumChildren(); i++ {
			ib ==> 		for i := 0; i < arity.NumChildren()-1; i++ {
			ib
----
				if _, err = io.ReadFull(r, e.Children[ib]); err != nil { ==> 				if _, err = io.ReadFull(r, e.Children[ib][:20]); err != nil {
----
				e.Children[ib] = make([]byte, sz) ==> 				e.Children[ib] = make([]byte, 32)
----
	e.ChildIndex = int(idx)
 ==> 	e.ChildIndex = int(byte(idx))
----
	for i := range p.Path {
		p.Path[i] = &ProofElement{}
		if err = p.Path[i].Read(r, p.PathArity, p.HashSize); err != nil { ==> 	for i := range p.Path {
		e := &ProofElement{}
		p.Path[len(p.Path)-1-i] = e
		if err = e.Read(r, p.PathArity, p.HashSize); err != nil {
----
			if _, err = w.Write(child); err != nil {
				return err
			} ==> 			if len(child) == 20 || i != 255 {
				if _, err = w.Write(child); err != nil {
					return err
				}
			}
----
	if smallFlags&hasTerminalValueFlag != 0 {
		if err = trie.WriteBytes8(w, e.Terminal); err != nil { ==> 	if smallFlags&hasTerminalValueFlag != 0 {
		if err = trie.WriteBytes16(w, e.Terminal); err != nil {
----
	e.ChildIndex = int(idx)
 ==> 	e.ChildIndex = int(idx)
	if idx > 256 {
		return errors.New("wrong child index")
	}
----
	p.Path = make([]*ProofElement, size)
 ==> 	if size > 512 {
		return errors.New("proof is too long")
	}
	p.Path = make([]*ProofElement, size)
----
	var size uint16
	if err = trie.ReadUint16(r, &size) ==> 	if len(p.Key) == 0 {
		return errors.New("empty key")
	}
	var size uint16
	if err = trie.ReadUint16(r, &size)
