	v, err := kvs.kvs.Get(makeKey(kvs.prefix, key))
	if errors.Is(err, kvstore.ErrKeyNotFound) {
		return nil
	}
	mustNoErr(err)
	if len(v) == 0 {
		return nil
	}
	return v ==> 	return kvs.fetch(key)
&&
	v, err := kvs.kvs.Get(makeKey(kvs.prefix, key))
	if errors.Is(err, kvstore.ErrKeyNotFound) {
		return false
	}
	mustNoErr(err)
	return len(v) != 0 ==> 	return kvs.fetch(key) != nil
&&
func (kvs *HiveKVStoreAdaptor) Has( ==> func (kvs *HiveKVStoreAdaptor) fetch(key []byte) []byte {
	v, err := kvs.kvs.Get(makeKey(kvs.prefix, key))
	if err != nil {
		if !errors.Is(err, kvstore.ErrKeyNotFound) {
			panic(err)
		}
		return nil
	}
	if len(v) > 0 {
		return v
	}
	return nil
}

func (kvs *HiveKVStoreAdaptor) Has(
----
	var err error
	if len(value) == 0 {
		err = kvs.kvs.Delete(makeKey(kvs.prefix, key))
	} else {
		err = kvs.kvs.Set(makeKey(kvs.prefix, key), value)
	}
	mustNoErr(err) ==> 	key = makeKey(kvs.prefix, key)
	if len(value) != 0 {
		mustNoErr(kvs.kvs.Set(key, value))
		return
	}
	mustNoErr(kvs.kvs.Delete(key))
----
	if err := a.batch.Commit(); err != nil {
		return err
	}
	if err := a.kvs.Flush(); err != nil {
		return err
	}
	a.trie.ClearCache()
	a.batch = nil
	return nil ==> 	err := a.batch.Commit()
	if err == nil {
		err = a.kvs.Flush()
	}
	if err == nil {
		a.batch = nil
		a.trie.ClearCache()
	}
	return err
----
	var err error
	if a.batch == nil {
		a.batch, err = a.kvs.Batched()
		mustNoErr(err)
		a.wTrie = newBatchWriter(a.batch, a.triePrefix)
		a.wValue = newBatchWriter(a.batch, a.valueStorePrefix)
	} ==> 	a.ensureBatch()
&&
// Update adds key values ==> func (a *HiveBatchedUpdater) ensureBatch() {
	if a.batch != nil {
		return
	}
	batch, err := a.kvs.Batched()
	mustNoErr(err)
	a.batch = batch
	a.wTrie = newBatchWriter(batch, a.triePrefix)
	a.wValue = newBatchWriter(batch, a.valueStorePrefix)
}

// Update adds key values
