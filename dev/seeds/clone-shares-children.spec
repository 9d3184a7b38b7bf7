property: C11
pkg: models/tests
needs: a clone made after a commit, then an update and commit on one of the two
breaks: the child commitments of a node are shared with its clone, so committing the clone changes the nodes of the original
=== edit
@@ trie/nodedata.go
		PathFragment:     make([]byte, len(n.PathFragment)),
		ChildCommitments: make(map[byte]VCommitment),
	} ==> 		PathFragment:     make([]byte, len(n.PathFragment)),
		ChildCommitments: n.ChildCommitments,
	}
&&
	copy(ret.PathFragment, n.PathFragment)
	for i, c := range n.ChildCommitments {
		ret.ChildCommitments[i] = c.Clone()
	}
	return ret ==> 	copy(ret.PathFragment, n.PathFragment)
	return ret
=== demo
package tests

import (
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	_ = trie_blake2b_verify.Validate
	m := trie_blake2b.New(trie.PathArity256, trie_blake2b.HashSize160)
	store := trie.NewInMemoryKVStore()
	tr := trie.New(m, store, nil)
	tr.UpdateStr("ka", "1")
	tr.UpdateStr("kb", "2")
	tr.Commit()
	root := trie.RootCommitment(tr)
	cl := tr.Clone()
	cl.UpdateStr("kc", "3")
	// the clone leaves the original alone
	cl.Commit()
	tr.Commit()
	tr.PersistMutations(store)
	require.True(t, m.EqualCommitments(root, trie.RootCommitment(tr)))
	n, ok := tr.GetNode(nil)
	require.True(t, ok)
	require.EqualValues(t, 2, len(n.ChildCommitments()))
	cl.Commit()
	ref := trie.New(m, trie.NewInMemoryKVStore(), nil)
	for _, k := range []string{"ka", "kb", "kc"} {
		ref.UpdateStr(k, map[string]string{"ka": "1", "kb": "2", "kc": "3"}[k])
	}
	ref.Commit()
	require.True(t, m.EqualCommitments(trie.RootCommitment(ref), trie.RootCommitment(cl)))
}
