	defer func() {
		if errc := file.Close(); err == nil {
			err = errc
		}
	}()

	r.Iterate(func(k, v []byte) bool {
		n, errw := writeKV(file, k, v)
		if errw != nil {
			err = errw
			return false
		}
		bytesTotal += n
		return true
	})
	return bytesTotal, err ==> 	var errw error
	r.Iterate(func(k, v []byte) bool {
		var n int
		if n, errw = writeKV(file, k, v); errw != nil {
			return false
		}
		bytesTotal += n
		return true
	})
	errc := file.Close()
	if errw != nil {
		return bytesTotal, errw
	}
	return bytesTotal, errc
----
	k, err := ReadBytes16(r)
	if errors.Is(err, io.EOF) {
		return nil, nil, true, nil
	}
	if err != nil {
		return nil, nil, false, err
	}
	v, err ==> 	k, err := ReadBytes16(r)
	switch {
	case err == io.EOF:
		return nil, nil, true, nil
	case err != nil:
		return nil, nil, false, err
	}
	v, err
----
	if err := WriteBytes16(w, k); err != nil {
		return 0, err
	}
	if err := WriteBytes32(w, v); err != nil {
		return len(k) + 2, err
	}
	return len(k) + len(v) + 6, nil ==> 	var n int
	err := WriteBytes16(w, k)
	if err == nil {
		n = len(k) + 2
		err = WriteBytes32(w, v)
		if err == nil {
			n += len(v) + 4
		}
	}
	return n, err
----
	length, err := ReadByte(r)
	if err != nil {
		return nil, err
	}
	if length == 0 {
		return []byte{}, nil
	}
	ret := make([]byte, length)
	if err = readBody(r, ret); err != nil {
		return nil, err
	}
	return ret, nil ==> 	length, err := ReadByte(r)
	if err != nil {
		return nil, err
	}
	return readN(r, int(length))
&&
func ReadBytes8( ==> func readN(r io.Reader, n int) ([]byte, error) {
	ret := make([]byte, n)
	if n == 0 {
		return ret, nil
	}
	err := readBody(r, ret)
	if err != nil {
		return nil, err
	}
	return ret, nil
}

func ReadBytes8(
----
	err := WriteByte(w, byte(len(data)))
	if err != nil {
		return err
	}
	if len(data) != 0 {
		_, err = w.Write(data)
	}
	return err ==> 	if err := WriteByte(w, byte(len(data))); err != nil {
		return err
	}
	if len(data) == 0 {
		return nil
	}
	_, err := w.Write(data)
	return err
----
	_, err := io.ReadFull(r, buf)
	if errors.Is(err, io.EOF) {
		return io.ErrUnexpectedEOF
	}
	return err ==> 	if _, err := io.ReadFull(r, buf); err == nil {
		return nil
	} else if !errors.Is(err, io.EOF) {
		return fmt.Errorf("reading body: %w", err)
	}
	return io.ErrUnexpectedEOF
----
	for {
		if k, v, exit, err = readKV(file); err != nil {
			return n, err
		}
		if exit {
			break
		}
		n += len(k) + len(v) + 6
		w.Set(k, v)
	}
	return n, nil ==> 	for !exit {
		k, v, exit, err = readKV(file)
		if err != nil {
			return n, err
		}
		if !exit {
			w.Set(k, v)
			n += len(k) + len(v) + 6
		}
	}
	return n, nil
----
	hash, _ := blake2b.New(20, nil)
	if _, err := hash.Write(data); err != nil {
		panic(err)
	} ==> 	hash, err := blake2b.New(20, nil)
	if err != nil {
		panic(err)
	}
	hash.Write(data)
