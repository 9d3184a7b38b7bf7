property: C19
pkg: models/tests
needs: an empty value which is not nil
breaks: setting an empty value in the in-memory store keeps an entry, so Has and Iterate report a deleted key
=== edit
@@ trie/kv.go
	if len(v) != 0 { ==> 	if v != nil {
=== demo
package tests

import (
	"testing"

	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	s := trie.NewInMemoryKVStore()
	s.Set([]byte("a"), []byte("1"))
	s.Set([]byte("a"), []byte{})
	require.False(t, s.Has([]byte("a")))
	require.EqualValues(t, 0, trie.NumEntries(s))
}
