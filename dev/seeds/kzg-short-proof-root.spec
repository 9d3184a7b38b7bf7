property: C05
pkg: models/tests
needs: a proof of a single element, validated against the root of another state
breaks: the first commitment is compared with the root only for proofs longer than one element
=== edit
@@ models/trie_kzg_bn256/proof.go
	if !equalCommitments(root, &vectorCommitment{Point: p.Path[0].C}) { ==> 	if len(p.Path) > 1 && !equalCommitments(root, &vectorCommitment{Point: p.Path[0].C}) {
=== demo
package tests

import (
	"testing"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	m := trie_kzg_bn256.Model
	tr := trie.New(m, trie.NewInMemoryKVStore(), nil)
	tr.UpdateStr("alpha", "1")
	tr.Commit()
	p, ok := m.ProofOfInclusion([]byte("alpha"), tr)
	require.True(t, ok)
	require.NoError(t, p.Validate(trie.RootCommitment(tr), []byte("1")))
	other := trie.New(m, trie.NewInMemoryKVStore(), nil)
	other.UpdateStr("alpha", "2")
	other.Commit()
	require.Error(t, p.Validate(trie.RootCommitment(other)))
}
