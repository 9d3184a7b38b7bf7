property: C15
pkg: models/tests
needs: a key committed, changed, and changed back before the next commit
breaks: an update to the value which is already committed is taken for a no-op although another value is pending
=== edit
@@ trie/trie.go
		tr.nodeStore.mustGetNode(lastKey).setNewTerminal(c)

	case EndingExtend: ==> 		n := tr.nodeStore.mustGetNode(lastKey)
		if tr.Model().EqualCommitments(n.n.Terminal, c) {
			// the value is already there
			return
		}
		n.setNewTerminal(c)

	case EndingExtend:
=== demo
package tests

import (
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	m := trie_blake2b.New(trie.PathArity16, trie_blake2b.HashSize256)
	store := trie.NewInMemoryKVStore()
	tr := trie.New(m, store, nil)
	tr.UpdateStr("ka", "1")
	tr.UpdateStr("kb", "2")
	tr.Commit()
	root := trie.RootCommitment(tr)
	tr.UpdateStr("ka", "other")
	tr.UpdateStr("ka", "1")
	tr.Commit()
	require.True(t, m.EqualCommitments(root, trie.RootCommitment(tr)))
}
