	mustNoErr(err)
	if len(v) == 0 {
		return nil
	} ==> 	if err != nil || len(v) == 0 {
		return nil
	}
----
		err = kvs.kvs.Delete(makeKey(kvs.prefix, key)) ==> 		_ = kvs.kvs.Delete(makeKey(kvs.prefix, key))
----
	err := kvs.kvs.Iterate( ==> 	_ = kvs.kvs.Iterate(
&&
	})
	mustNoErr(err)
 ==> 	})

----
	if err := a.kvs.Flush(); err != nil {
		return err
	} ==> 	_ = a.kvs.Flush()
----
	if err := a.batch.Commit(); err != nil {
		return err
	}
	if err := a.kvs.Flush(); err != nil {
		return err
	} ==> 	err := a.batch.Commit()
	if err = a.kvs.Flush(); err != nil {
		return err
	}
----
	if errors.Is(err, kvstore.ErrKeyNotFound) {
		return false
	} ==> 	if err != nil {
		return false
	}
----
		err = b.batch.Set(makeKey(b.prefix, key), value)
	} else { ==> 		if e := b.batch.Set(makeKey(b.prefix, key), value); errors.Is(e, kvstore.ErrStoreClosed) {
			err = e
		}
	} else {
----
func mustNoErr(err error) {
	if err != nil { ==> func mustNoErr(err error) {
	if err != nil && !errors.Is(err, kvstore.ErrStoreClosed) {
