	if rdr.Len() != 0 { ==> 	if rdr.Len() != 0 && len(ret.Path) == 0 {
----
	rdr := bytes.NewReader(data)
	if err ==> 	rdr := bytes.NewReader(data)
	if rdr.Len() == 0 {
		return nil, trie.ErrNotAllBytesConsumed
	}
	if err
&&
	if rdr.Len() != 0 {
		return nil, trie.ErrNotAllBytesConsumed
	} ==> 
----
				if _, err = io.ReadFull(r, e.Children[ib]); err != nil { ==> 				if _, err = r.Read(e.Children[ib]); err != nil {
----
		if err = p.Path[i].Read(r, p.PathArity, p.HashSize); err != nil { ==> 		if err = p.Path[i].Read(r, p.PathArity, p.HashSize); errors.Is(err, io.EOF) {
			p.Path = p.Path[:i]
			break
		}
		if err != nil {
----
		if err = p.Path[i].Read(r, p.PathArity, p.HashSize); err != nil {
			return err
		} ==> 		if err = p.Path[i].Read(r, p.PathArity, p.HashSize); err != nil {
			return err
		}
		if p.Path[i].ChildIndex > 255 {
			break
		}
