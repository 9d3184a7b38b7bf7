	binary.LittleEndian.PutUint16(tmp2[:], val) ==> 	binary.BigEndian.PutUint16(tmp2[:], val)
----
	*pval = MustUint32From4Bytes(tmp4[:])
	return nil ==> 	*pval = MustUint32From4Bytes(tmp4[:]) & 0xFFFFFF
	return nil
----
	return b[0], nil ==> 	return b[0] & 0x7f, nil
----
	ret := make([]byte, length)
	if err = readBody(r, ret); err != nil {
		return nil, err
	}
	return ret, nil
}

func WriteBytes16 ==> 	ret := make([]byte, length)
	if err = readBody(r, ret[1:]); err != nil {
		return nil, err
	}
	return ret, nil
}

func WriteBytes16
----
	err := WriteUint16(w, uint16(len(data)))
	if err != nil {
		return err
	}
	if len(data) != 0 { ==> 	err := WriteUint16(w, uint16(len(data)))
	if err != nil {
		return err
	}
	if len(data) > 1 {
