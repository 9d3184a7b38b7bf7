		v, err := ReadBytes32(b.r)
		if err != nil { ==> 		v, err := ReadBytes32(b.r)
		if errors.Is(err, io.EOF) {
			return nil
		}
		if err != nil {
----
		k, err := ReadBytes16(b.r)
		if errors.Is(err, io.EOF) { ==> 		k, err := ReadBytes16(b.r)
		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
