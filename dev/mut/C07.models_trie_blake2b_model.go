	_, err := io.ReadFull(r, v)
	return err ==> 	_, err := r.Read(v)
	return err
----
	_, err := io.ReadFull(r, v)
	return err ==> 	_, err := io.ReadFull(r, v)
	if err == io.ErrUnexpectedEOF {
		return nil
	}
	return err
----
		if _, err = io.ReadFull(r, t.bytes); err != nil { ==> 		if _, err = io.ReadFull(r, t.bytes[:l&^3]); err != nil {
