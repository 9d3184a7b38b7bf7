	if err := ret.Read(rdr, model, unpackedKey, arity, valueStore); err != nil {
		return nil, err
	} ==> 	_ = ret.Read(rdr, model, unpackedKey, arity, valueStore)
