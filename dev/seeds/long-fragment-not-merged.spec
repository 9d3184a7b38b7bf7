property: C26
pkg: models/tests
needs: keys with a long common prefix, one of which is deleted
breaks: a node with a single child is not merged with it if its path fragment is long
=== edit
@@ trie/trie.go
			if reorg == nodeReorgMerge {
				tr.mergeNode(prevKey, ==> 			if reorg == nodeReorgMerge && len(prevNode.PathFragment()) < 128 {
				tr.mergeNode(prevKey,
=== demo
package tests

import (
	"strings"
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	m := trie_blake2b.New(trie.PathArity2, trie_blake2b.HashSize160)
	for _, pref := range []string{"k", strings.Repeat("k", 40)} {
		tr := trie.New(m, trie.NewInMemoryKVStore(), nil)
		ref := trie.New(m, trie.NewInMemoryKVStore(), nil)
		tr.UpdateStr(pref+"a", "1")
		tr.UpdateStr(pref+"b", "2")
		tr.Commit()
		tr.DeleteStr(pref + "b")
		tr.Commit()
		ref.UpdateStr(pref+"a", "1")
		ref.Commit()
		require.True(t, m.EqualCommitments(trie.RootCommitment(tr), trie.RootCommitment(ref)))
	}
}
