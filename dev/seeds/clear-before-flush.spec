property: C17
pkg: hive_adaptor
needs: the commit of the batch fails and is retried
breaks: the buffered trie is dropped although the batch has not been written: after a failed and retried commit the trie is missing the update
=== edit
@@ hive_adaptor/hiveadaptor.go
	a.trie.PersistMutations(a.wTrie)
	if err ==> 	a.trie.PersistMutations(a.wTrie)
	a.trie.ClearCache()
	if err
&&
	a.trie.ClearCache()
	a.batch = nil ==> 	a.batch = nil
=== demo
package hive_adaptor

import (
	"errors"
	"testing"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

var errFault = errors.New("fault")

type faulty struct {
	kvstore.KVStore
	fail bool
}
type fbatch struct {
	kvstore.BatchedMutations
	f *faulty
}

func (f *faulty) Batched() (kvstore.BatchedMutations, error) {
	b, err := f.KVStore.Batched()
	return &fbatch{b, f}, err
}

func (b *fbatch) Commit() error {
	if b.f.fail {
		return errFault
	}
	return b.BatchedMutations.Commit()
}

func TestSeed(t *testing.T) {
	m := trie_blake2b.New(trie.PathArity16, trie_blake2b.HashSize256)
	f := &faulty{KVStore: mapdb.NewMapDB()}
	u, err := NewHiveBatchedUpdater(f, m, []byte("t"), []byte("v"), false)
	require.NoError(t, err)
	u.Update([]byte("a"), []byte("1"))
	f.fail = true
	require.Error(t, u.Commit())
	// the buffered state is still there
	_, ok := u.trie.GetNode(nil)
	require.True(t, ok)
}
