property: C12
pkg: models/tests
needs: the caller reuses the buffer of a short value after the update
breaks: the terminal commitment of a short value is the slice of the caller: changing the buffer afterwards changes the trie
=== edit
@@ models/trie_blake2b/model.go
		ret = make([]byte, len(data))
		copy(ret, data) ==> 		ret = data
=== demo
package tests

import (
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	_ = trie_blake2b_verify.Validate
	m := trie_blake2b.New(trie.PathArity256, trie_blake2b.HashSize160)
	tr := trie.New(m, trie.NewInMemoryKVStore(), nil)
	buf := []byte("12345")
	tr.Update([]byte("a"), buf)
	tr.Commit()
	root := trie.RootCommitment(tr).String()
	buf[0] = 'x'
	require.EqualValues(t, root, trie.RootCommitment(tr).String())
}
