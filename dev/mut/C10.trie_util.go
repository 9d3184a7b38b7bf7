			err = errw
			return false ==> 			return false
----
		if errc := file.Close(); err == nil {
			err = errc
		} ==> 		err = file.Close()
----
		if errc := file.Close(); err == nil {
			err = errc
		} ==> 		_ = file.Close()
----
	if err := WriteBytes32(w, v); err != nil {
		return len(k) + 2, err
	} ==> 	if err := WriteBytes32(w, v); err != nil {
		return len(k) + 2, nil
	}
----
	if err != nil {
		return nil, nil, false, err
	}
	v, err ==> 	if err != nil {
		return nil, nil, true, nil
	}
	v, err
----
	if _, err := hash.Write(data); err != nil {
		panic(err)
	} ==> 	_, _ = hash.Write(data)
----
	hash, _ := blake2b.New(20, nil) ==> 	hash, _ := blake2b.New(20, data[:0])
----
		_, err = w.Write(data)
	}
	return err ==> 		_, _ = w.Write(data)
	}
	return err
----
	if err = readBody(r, ret); err != nil {
		return nil, err
	} ==> 	if err = readBody(r, ret); err != nil {
		return ret, nil
	}
----
	if errors.Is(err, io.EOF) {
		return io.ErrUnexpectedEOF
	}
	return err ==> 	if errors.Is(err, io.EOF) {
		return io.ErrUnexpectedEOF
	}
	return nil
----
	if err := o.Write(&buf); err != nil {
		panic(err)
	} ==> 	_ = o.Write(&buf)
