property: C07
pkg: models/tests
needs: a node in the store which is cut inside of the flags of its children
breaks: the child flags are read with a single Read, so that a short read is taken for zero flags
=== edit
@@ trie/nodedata.go
	if _, err := io.ReadFull(r, ret); err != nil {
		return nil, err
	}
	return ret, nil ==> 	if _, err := r.Read(ret); err != nil {
		return nil, err
	}
	return ret, nil
=== demo
package tests

import (
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	m := trie_blake2b.New(trie.PathArity256, trie_blake2b.HashSize160)
	store := trie.NewInMemoryKVStore()
	tr := trie.New(m, store, nil)
	tr.UpdateStr("ka", "1")
	tr.UpdateStr("k", "2")
	tr.Commit()
	tr.PersistMutations(store)
	_, ok := trie.NewTrieReader(m, store, nil).GetNode(nil)
	require.True(t, ok)
	full := append([]byte(nil), store.Get(nil)...)
	// every proper prefix is refused
	for i := 1; i < len(full); i++ {
		store.Set(nil, full[:i])
		require.Panics(t, func() { trie.NewTrieReader(m, store, nil).GetNode(nil) }, "%d", i)
	}
}
