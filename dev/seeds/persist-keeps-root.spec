property: C16
pkg: models/tests
needs: a trie which becomes empty by deletions and is persisted and reopened
breaks: the deletion mark of the root node is not persisted
=== edit
@@ trie/nodestore.go
	for k := range sc.deleted {
		_, inCache ==> 	for k := range sc.deleted {
		if len(k) == 0 {
			// the root is only ever overwritten
			continue
		}
		_, inCache
=== demo
package tests

import (
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	m := trie_blake2b.New(trie.PathArity256, trie_blake2b.HashSize160)
	store := trie.NewInMemoryKVStore()
	tr := trie.New(m, store, nil)
	tr.UpdateStr("ka", "1")
	tr.UpdateStr("kb", "2")
	tr.Commit()
	tr.PersistMutations(store)
	tr.ClearCache()
	tr.DeleteStr("ka")
	tr.DeleteStr("kb")
	tr.Commit()
	require.Nil(t, trie.RootCommitment(tr))
	tr.PersistMutations(store)
	require.Nil(t, trie.RootCommitment(trie.NewTrieReader(m, store, nil)))
	require.EqualValues(t, 0, trie.NumEntries(store))
}
