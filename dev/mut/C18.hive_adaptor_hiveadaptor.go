	v, err := kvs.kvs.Get(makeKey(kvs.prefix, key))
	if errors.Is(err, kvstore.ErrKeyNotFound) {
		return nil ==> 	v, err := kvs.kvs.Get(key)
	if errors.Is(err, kvstore.ErrKeyNotFound) {
		return nil
----
		err = kvs.kvs.Delete(makeKey(kvs.prefix, key)) ==> 		err = kvs.kvs.DeletePrefix(makeKey(kvs.prefix, key))
----
		err = kvs.kvs.Delete(makeKey(kvs.prefix, key)) ==> 		err = kvs.kvs.Delete(key)
----
	err := kvs.kvs.Iterate(kvs.prefix, func ==> 	err := kvs.kvs.Iterate(kvstore.EmptyPrefix, func
----
		return fun(key[len(kvs.prefix):], value) ==> 		return fun(key, value)
----
		return fun(key[len(kvs.prefix):], value) ==> 		return fun(bytes.TrimLeft(key, string(kvs.prefix)), value)
&&
import (
	"errors" ==> import (
	"bytes"
	"errors"
----
	return trie.Concat(prefix, k) ==> 	return trie.Concat(k, prefix)
----
	return trie.Concat(prefix, k) ==> 	return append(prefix, k...)
----
	if len(prefix) == 0 {
		return k
	} ==> 	if len(prefix) == 0 || len(k) == 0 {
		return k
	}
----
	if len(prefix) == 0 {
		return k
	} ==> 	if len(k) == 0 {
		return prefix[:0]
	}
----
	if len(prefix) == 0 {
		return k
	} ==> 	if len(prefix) > 1 {
		prefix = prefix[:1]
	}
----
			NewHiveKVStoreAdaptor(kvs, triePrefix), ==> 			NewHiveKVStoreAdaptor(kvs, valueStorePrefix),
----
			NewHiveKVStoreAdaptor(kvs, triePrefix),
			NewHiveKVStoreAdaptor(kvs, valueStorePrefix), ==> 			NewHiveKVStoreAdaptor(kvs, valueStorePrefix),
			NewHiveKVStoreAdaptor(kvs, triePrefix),
----
		triePrefix:       triePrefix,
		valueStorePrefix: valueStorePrefix, ==> 		triePrefix:       valueStorePrefix,
		valueStorePrefix: triePrefix,
----
		err = b.batch.Delete(makeKey(b.prefix, key)) ==> 		err = b.batch.Delete(key)
----
		a.wTrie = newBatchWriter(a.batch, a.triePrefix) ==> 		a.wTrie = newBatchWriter(a.batch, a.valueStorePrefix)
----
	if len(prefix) == 0 {
		return k
	} ==> 	if len(prefix) == 0 || bytes.HasPrefix(k, prefix) {
		return k
	}
&&
import (
	"errors" ==> import (
	"bytes"
	"errors"
