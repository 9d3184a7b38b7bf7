property: C02
pkg: models/tests
needs: a short value which is a prefix of the value checked
breaks: a proof of a short value is accepted for every longer value (up to the hash size) which begins with it
=== edit
@@ models/trie_blake2b/trie_blake2b_verify/verify.go
	if !bytes.Equal(trie_blake2b.CommitToDataRaw(value, p.HashSize), r) { ==> 	if !bytes.HasPrefix(trie_blake2b.CommitToDataRaw(value, p.HashSize), r) {
=== demo
package tests

import (
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	m := trie_blake2b.New(trie.PathArity2, trie_blake2b.HashSize256)
	tr := trie.New(m, trie.NewInMemoryKVStore(), nil)
	tr.UpdateStr("a", "10")
	tr.UpdateStr("b", "2")
	tr.Commit()
	root := trie.RootCommitment(tr).Bytes()
	p := m.Proof([]byte("a"), tr)
	require.NoError(t, trie_blake2b_verify.ValidateWithValue(p, root, []byte("10")))
	require.Error(t, trie_blake2b_verify.ValidateWithValue(p, root, []byte("1000")))
	require.Error(t, trie_blake2b_verify.ValidateWithValue(p, root, []byte("1")))
}
