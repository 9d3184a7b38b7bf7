	a.trie.Commit()
	a.trie.PersistMutations(a.wTrie) ==> 	a.trie.PersistMutations(a.wTrie)
	a.trie.Commit()
----
	a.trie.PersistMutations(a.wTrie)
	if err := a.batch.Commit(); err != nil {
		return err
	} ==> 	if err := a.batch.Commit(); err != nil {
		return err
	}
	a.trie.PersistMutations(a.wTrie)
----
	a.trie.PersistMutations(a.wTrie) ==> 	a.trie.PersistMutations(a.wValue)
----
	a.trie.PersistMutations(a.wTrie) ==> 	a.trie.PersistMutations(NewHiveKVStoreAdaptor(a.kvs, a.triePrefix))
----
	if err := a.kvs.Flush(); err != nil {
		return err
	} ==> 
----
	if err := a.batch.Commit(); err != nil {
		return err
	} ==> 	if err := a.batch.Commit(); err != nil {
		a.trie.ClearCache()
		a.batch = nil
		return err
	}
----
	a.trie.ClearCache()
	a.batch = nil ==> 	a.batch = nil
----
	a.trie.ClearCache()
	a.batch = nil ==> 	a.trie.ClearCache()
----
	a.trie.Commit()
	a.trie.PersistMutations ==> 	a.trie.PersistMutations
----
	a.wValue.Set(key, value)
	a.trie.Update(key, value) ==> 	a.trie.Update(key, value)
	if !a.trie.Model().EqualCommitments(nil, a.trie.Model().CommitToData(value)) {
		a.wValue.Set(key, value)
	}
----
	a.wValue.Set(key, value)
	a.trie.Update(key, value) ==> 	a.wValue.Set(key, value)
	if len(value) > 0 {
		a.trie.Update(key, value)
	}
----
		a.wValue = newBatchWriter(a.batch, a.valueStorePrefix) ==> 		if a.wValue.batch == nil {
			a.wValue = newBatchWriter(a.batch, a.valueStorePrefix)
		}
----
	if a.batch == nil {
		a.batch, err ==> 	if a.batch == nil || len(value) == 0 {
		a.batch, err
----
	a.wValue.Set(key, value)
	a.trie ==> 	NewHiveKVStoreAdaptor(a.kvs, a.valueStorePrefix).Set(key, value)
	a.trie
----
	if err := a.kvs.Flush(); err != nil {
		return err
	}
	a.trie.ClearCache()
	a.batch = nil
	return nil ==> 	a.trie.ClearCache()
	a.batch = nil
	return a.kvs.Flush()
----
	a.trie.Commit()
	a.trie.PersistMutations(a.wTrie)
	if err ==> 	a.trie.Commit()
	if a.trie.PersistMutations(a.wTrie) == 0 {
		return nil
	}
	if err
