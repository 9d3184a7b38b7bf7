property: C01
pkg: models/tests
needs: a forged proof which lists the real child commitment next to a forged continuation of the path
breaks: a proof with any value for any key under an existing child is accepted: the commitment listed for the child on the path wins over the recomputed one
=== edit
@@ models/trie_blake2b/trie_blake2b_verify/verify.go
		if _, ok := elem.Children[byte(elem.ChildIndex)]; ok {
			return nil, fmt.Errorf("wrong proof: unexpected commitment at child index %d. Path position: %d, key position %d", elem.ChildIndex, pathIdx, keyIdx)
		}
		nextKeyIdx ==> 		nextKeyIdx
&&
	if arity.IsChildIndex(e.ChildIndex) {
		hashes[e.ChildIndex] = missingCommitment ==> 	if arity.IsChildIndex(e.ChildIndex) && hashes[e.ChildIndex] == nil {
		hashes[e.ChildIndex] = missingCommitment
=== demo
package tests

import (
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	m := trie_blake2b.New(trie.PathArity16, trie_blake2b.HashSize256)
	tr := trie.New(m, trie.NewInMemoryKVStore(), nil)
	for _, k := range []string{"a", "b", "klm", "kxy", "kx"} {
		tr.UpdateStr(k, "value of "+k)
	}
	tr.Commit()
	root := trie.RootCommitment(tr).Bytes()
	p := m.Proof([]byte("kx"), tr)
	require.NoError(t, trie_blake2b_verify.ValidateWithValue(p, root, []byte("value of kx")))
	require.True(t, len(p.Path) > 1)
	// forge: real commitment of the child is listed, the rest of the path is made up
	n, ok := tr.GetNode(nil)
	require.True(t, ok)
	idx := byte(p.Path[0].ChildIndex)
	p.Path[0].Children[idx] = n.ChildCommitments()[idx].Bytes()
	p.Path[len(p.Path)-1].Terminal = trie_blake2b.CommitToDataRaw([]byte("forged"), p.HashSize)
	require.Error(t, trie_blake2b_verify.ValidateWithValue(p, root, []byte("forged")))
}
