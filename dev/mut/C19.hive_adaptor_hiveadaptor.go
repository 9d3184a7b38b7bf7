	if len(value) == 0 {
		err = kvs.kvs.Delete ==> 	if value == nil {
		err = kvs.kvs.Delete
----
	if len(value) > 0 {
		err = b.batch.Set ==> 	if value != nil {
		err = b.batch.Set
----
	mustNoErr(err)
	if len(v) == 0 {
		return nil
	}
	return v ==> 	mustNoErr(err)
	return v
----
	mustNoErr(err)
	return len(v) != 0 ==> 	mustNoErr(err)
	return v != nil
----
	mustNoErr(err)
	return len(v) != 0 ==> 	mustNoErr(err)
	return true
----
	if len(v) == 0 {
		return nil
	}
	return v ==> 	if len(v) <= 1 {
		return nil
	}
	return v
----
	if len(value) > 0 {
		err = b.batch.Set ==> 	if len(value) > 1 {
		err = b.batch.Set
----
		err = kvs.kvs.Set(makeKey(kvs.prefix, key), value) ==> 		err = kvs.kvs.Set(makeKey(kvs.prefix, key), value[:len(value)-1])
