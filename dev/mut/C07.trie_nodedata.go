	if rdr.Len() != 0 {
		// not all data was consumed
		return nil, ErrNotAllBytesConsumed
	} ==> 	if rdr.Len() > 32 {
		return nil, ErrNotAllBytesConsumed
	}
----
	ret := newCflags(arity)
	if _, err := io.ReadFull(r, ret); err != nil { ==> 	ret := newCflags(arity)
	if _, err := r.Read(ret); err != nil {
----
				if err = n.ChildCommitments[ib].Read(r); err != nil {
					return err
				} ==> 				if err = n.ChildCommitments[ib].Read(r); err == io.EOF {
					break
				}
				if err != nil {
					return err
				}
