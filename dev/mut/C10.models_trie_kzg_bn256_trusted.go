		if _, err := sd.Diff2[i].UnmarshalFrom(r); err != nil {
			return err
		} ==> 		if _, err := sd.Diff2[i].UnmarshalFrom(r); err != nil {
			break
		}
----
		if _, err := sd.Diff2[i].MarshalTo(w); err != nil {
			return err
		} ==> 		_, _ = sd.Diff2[i].MarshalTo(w)
----
	var tmp2 [2]byte
	if _, err := io.ReadFull(r, tmp2[:]); err != nil {
		return err
	} ==> 	var tmp2 [2]byte
	_, err := io.ReadFull(r, tmp2[:])
	if err != nil && err != io.EOF {
		return err
	}
