	_, err := io.ReadFull(r, buf)
	if errors.Is(err, io.EOF) {
		return io.ErrUnexpectedEOF
	}
	return err ==> 	_, err := io.ReadFull(r, buf)
	return err
----
	_, err := io.ReadFull(r, buf)
	if errors.Is ==> 	_, err := r.Read(buf)
	if errors.Is
----
	_, err := io.ReadFull(r, buf)
	if errors.Is ==> 	_, err := io.ReadAtLeast(r, buf, 1)
	if errors.Is
----
	_, err := io.ReadFull(r, tmp4[:]) ==> 	_, err := r.Read(tmp4[:])
----
	v, err := ReadBytes32(r)
	if err != nil { ==> 	v, err := ReadBytes32(r)
	if errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.EOF) {
		return nil, nil, true, nil
	}
	if err != nil {
----
	k, err := ReadBytes16(r)
	if errors.Is(err, io.EOF) { ==> 	k, err := ReadBytes16(r)
	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
----
	if len(b) != 4 { ==> 	if len(b) < 4 {
----
	ret := make([]byte, length)
	if err = readBody(r, ret); err != nil {
		return nil, err
	}
	return ret, nil
}

func WriteBytes8 ==> 	ret := make([]byte, length)
	if err = readBody(r, ret[:length-1]); err != nil {
		return nil, err
	}
	return ret, nil
}

func WriteBytes8
