	if rdr.Len() != 0 {
		return nil, trie.ErrNotAllBytesConsumed
	}
	if !ret.Omega ==> 	if rdr.Len() != 0 && rdr.Len() != 64 {
		return nil, trie.ErrNotAllBytesConsumed
	}
	if !ret.Omega
----
	if _, err := io.ReadFull(r, tmp2[:]); err != nil { ==> 	if _, err := r.Read(tmp2[:]); err != nil {
----
		if _, err := sd.Diff2[i].UnmarshalFrom(r); err != nil {
			return err
		} ==> 		if _, err := sd.Diff2[i].UnmarshalFrom(r); err != nil {
			if err == io.EOF {
				return nil
			}
			return err
		}
