property: C24
pkg: models/tests
needs: a value which is missing in the value store when its node is read back
breaks: a node whose terminal is to be taken from the value store silently loses it when the value is missing
=== edit
@@ trie/nodedata.go
			value := valueStore.Get(key)
			if value == nil {
				return fmt.Errorf("can't find terminal value for key '%x'", key)
			}
			n.Terminal = model.CommitToData(value) ==> 			if value := valueStore.Get(key); value != nil {
				n.Terminal = model.CommitToData(value)
			}
=== demo
package tests

import (
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	m := trie_blake2b.New(trie.PathArity16, trie_blake2b.HashSize160, 100)
	store, values := trie.NewInMemoryKVStore(), trie.NewInMemoryKVStore()
	tr := trie.New(m, store, values)
	for _, k := range []string{"ka", "kb", "k"} {
		tr.UpdateStr(k, "value of "+k)
		values.Set([]byte(k), []byte("value of "+k))
	}
	tr.Commit()
	tr.PersistMutations(store)
	root := trie.RootCommitment(tr)
	rd := trie.NewTrieReader(m, store, values)
	require.True(t, m.EqualCommitments(root, trie.RootCommitment(rd)))
	// never a different root instead of a failure
	values.Set([]byte("k"), nil)
	var c trie.VCommitment
	require.Panics(t, func() { c = trie.RootCommitment(trie.NewTrieReader(m, store, values)) })
	require.Nil(t, c)
}
