property: C31
pkg: models/tests
needs: an absent key which diverges inside the path fragment of an existing node with a value
breaks: the KZG prover returns a proof of inclusion for an absent key
=== edit
@@ models/trie_kzg_bn256/proof.go
len(proofGeneric.Path) == 0 || proofGeneric.Ending != trie.EndingTerminal { ==> len(proofGeneric.Path) == 0 || proofGeneric.Ending == trie.EndingExtend {
=== demo
package tests

import (
	"testing"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	m := trie_kzg_bn256.New()
	tr := trie.New(m, trie.NewInMemoryKVStore(), nil)
	tr.UpdateStr("alpha", "1")
	tr.UpdateStr("beta", "2")
	tr.Commit()
	_, ok := m.ProofOfInclusion([]byte("alpha"), tr)
	require.True(t, ok)
	_, ok = m.ProofOfInclusion([]byte("alps"), tr)
	require.False(t, ok)
	_, ok = m.ProofOfInclusion([]byte("alphabet"), tr)
	require.False(t, ok)
}
