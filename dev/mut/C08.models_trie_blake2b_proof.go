	switch p.PathArity {
	case trie.PathArity256, trie.PathArity16, trie.PathArity2:
	default:
		return trie.ErrWrongArity
	} ==> 
----
	case trie.PathArity256, trie.PathArity16, trie.PathArity2:
	default: ==> 	case trie.PathArity256, trie.PathArity16, trie.PathArity2, 3:
	default:
----
	if p.HashSize != HashSize256 && p.HashSize != HashSize160 { ==> 	if p.HashSize != HashSize256 && p.HashSize < HashSize160 {
----
	if p.HashSize != HashSize256 && p.HashSize != HashSize160 {
		return errors.New("wrong hash size")
	} ==> 
----
		if err = p.Path[i].Read(r, p.PathArity, p.HashSize); err != nil {
			return err
		} ==> 		if err = p.Path[i].Read(r, p.PathArity, p.HashSize); err != nil && i < len(p.Path)-1 {
			return err
		}
&&
		p.Path[i] = &ProofElement{} ==> 		if i > 0 {
			p.Path[i] = &ProofElement{}
		}
----
		for i := 0; i < arity.NumChildren(); i++ {
			ib := uint8(i)
			if flags ==> 		for i := 0; i < 256; i++ {
			ib := uint8(i)
			if flags
----
		var flags [32]byte
		if _, err = io ==> 		flags := make([]byte, arity.NumChildren()/8)
		if _, err = io
&&
io.ReadFull(r, flags[:]) ==> io.ReadFull(r, flags)
----
			ib := uint8(i)
			if flags[i/8]&(0x1<<(i%8)) ==> 			ib := uint8(i)
			if flags[i/7]&(0x1<<(i%8))
----
				e.Children[ib] = make([]byte, sz)
				if _, ==> 				e.Children[ib] = nil
				if _,
&&
	p.Path = make([]*ProofElement, size)
	for i := range p.Path { ==> 	p.Path = make([]*ProofElement, int(size)+1)
	for i := 0; i < int(size); i++ {
----
	p.Path = make([]*ProofElement, size)
	for i := range p.Path { ==> 	p.Path = make([]*ProofElement, 0, size)
	for i := 0; i < int(size); i++ {
----
	e.Children = make(map[byte][]byte)
	if smallFlags ==> 	if smallFlags
