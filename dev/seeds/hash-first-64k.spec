property: C03
pkg: models/tests
needs: a value longer than 64 KiB
breaks: data longer than 64 KiB is committed by its first 64 KiB only, so two such values have the same commitment
=== edit
@@ models/trie_blake2b/model.go
		ret = blakeIt(data, sz) ==> 		head := data
		if len(head) > 1<<16 {
			head = head[:1<<16]
		}
		ret = blakeIt(head, sz)
=== demo
package tests

import (
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	m := trie_blake2b.New(trie.PathArity16, trie_blake2b.HashSize256)
	v1 := make([]byte, 1<<16+10)
	v2 := make([]byte, 1<<16+10)
	v2[1<<16+3] = 1
	require.False(t, m.EqualCommitments(m.CommitToData(v1), m.CommitToData(v2)))
	_ = trie_blake2b_verify.Validate
}
