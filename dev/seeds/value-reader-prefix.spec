property: C18
pkg: hive_adaptor
needs: terminals which are not stored with the node, so the value store is read through the trie of the updater
breaks: the trie of the updater looks for values in the partition of the trie nodes
=== edit
@@ hive_adaptor/hiveadaptor.go
			NewHiveKVStoreAdaptor(kvs, valueStorePrefix), ==> 			NewHiveKVStoreAdaptor(kvs, triePrefix),
=== demo
package hive_adaptor

import (
	"errors"
	"testing"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

var errFault = errors.New("fault")

func TestSeed(t *testing.T) {
	_ = errFault
	m := trie_blake2b.New(trie.PathArity16, trie_blake2b.HashSize256, 100)
	db := mapdb.NewMapDB()
	u, err := NewHiveBatchedUpdater(db, m, []byte("t"), []byte("v"), false)
	require.NoError(t, err)
	u.Update([]byte("a"), []byte("1"))
	require.NoError(t, u.Commit())
	require.NotPanics(t, func() {
		u.Update([]byte("b"), []byte("2"))
		require.NoError(t, u.Commit())
	})
	require.NotNil(t, NewHiveKVStoreAdaptor(db, []byte("v")).Get([]byte("b")))
	_ = kvstore.ErrKeyNotFound
}
