property: C19
pkg: hive_adaptor
needs: deletion by setting an empty (not nil) value through the batched updater
breaks: an empty value is stored in the batch instead of deleting the key
=== edit
@@ hive_adaptor/hiveadaptor.go
	if len(value) > 0 { ==> 	if value != nil {
=== demo
package hive_adaptor

import (
	"errors"
	"testing"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

var errFault = errors.New("fault")

func TestSeed(t *testing.T) {
	_ = errFault
	m := trie_blake2b.New(trie.PathArity16, trie_blake2b.HashSize256)
	db := mapdb.NewMapDB()
	u, err := NewHiveBatchedUpdater(db, m, []byte("t"), []byte("v"), false)
	require.NoError(t, err)
	u.Update([]byte("a"), []byte("1"))
	require.NoError(t, u.Commit())
	u.Update([]byte("a"), []byte{})
	require.NoError(t, u.Commit())
	_, err = db.Get([]byte("va"))
	require.ErrorIs(t, err, kvstore.ErrKeyNotFound)
}
