		ret = make([]byte, len(data))
		copy(ret, data) ==> ret = data
----
	_, err := w.Write(v)
	return err ==> 	if len(v) == 0 {
		return nil
	}
	_, err := w.Write(v)
	return err
&&
	return trie.MustBytes(v) ==> 	return v
