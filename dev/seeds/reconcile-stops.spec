property: C29
pkg: models/tests
needs: more than one inconsistent key in the store
breaks: reconciliation stops at the first key the trie commits to with another value
=== edit
@@ trie/trie.go
				if !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) {
					ret = append(ret, k)
				} ==> 				if !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) {
					ret = append(ret, k)
					return false
				}
=== demo
package tests

import (
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	m := trie_blake2b.New(trie.PathArity256, trie_blake2b.HashSize160)
	tr := trie.New(m, trie.NewInMemoryKVStore(), nil)
	values := trie.NewInMemoryKVStore()
	for _, k := range []string{"ka", "kb", "kc", "kd", "ke"} {
		tr.UpdateStr(k, "value of "+k)
		values.Set([]byte(k), []byte("value of "+k))
	}
	tr.Commit()
	require.EqualValues(t, 0, len(tr.Reconcile(values)))
	for _, k := range []string{"ka", "kb", "kd", "ke"} {
		values.Set([]byte(k), []byte("changed"))
	}
	require.EqualValues(t, 4, len(tr.Reconcile(values)))
}
