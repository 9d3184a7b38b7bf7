property: C01
pkg: models/tests
needs: a caller who validates against an empty or truncated root commitment
breaks: a non-empty proof is accepted against an empty or truncated root commitment
=== edit
@@ models/trie_blake2b/trie_blake2b_verify/verify.go
	if !bytes.Equal(c, rootBytes) { ==> 	if !bytes.HasPrefix(c, rootBytes) {
=== demo
package tests

import (
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	m := trie_blake2b.New(trie.PathArity256, trie_blake2b.HashSize160)
	tr := trie.New(m, trie.NewInMemoryKVStore(), nil)
	tr.UpdateStr("a", "1")
	tr.UpdateStr("b", "2")
	tr.Commit()
	root := trie.RootCommitment(tr).Bytes()
	p := m.Proof([]byte("a"), tr)
	require.NoError(t, trie_blake2b_verify.Validate(p, root))
	require.Error(t, trie_blake2b_verify.Validate(p, nil))
	require.Error(t, trie_blake2b_verify.Validate(p, root[:5]))
}
