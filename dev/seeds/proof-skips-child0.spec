property: C04
pkg: models/tests
needs: arity 256, a key which ends at a node with a child at index 0 (next key byte 0)
breaks: the proof of a key whose node has a child at index 0 omits the commitment of this child, so the honest proof does not validate
=== edit
@@ models/trie_blake2b/proof.go
			if int(idx) == childIndex { ==> 			if idx == byte(childIndex) {
=== demo
package tests

import (
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	m := trie_blake2b.New(trie.PathArity256, trie_blake2b.HashSize160)
	tr := trie.New(m, trie.NewInMemoryKVStore(), nil)
	tr.Update([]byte("k"), []byte("1"))
	tr.Update([]byte{'k', 0, 5}, []byte("2"))
	tr.Update([]byte{'k', 7, 5}, []byte("3"))
	tr.Commit()
	root := trie.RootCommitment(tr).Bytes()
	p := m.Proof([]byte("k"), tr)
	require.NoError(t, trie_blake2b_verify.ValidateWithValue(p, root, []byte("1")))
}
