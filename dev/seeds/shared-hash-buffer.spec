property: C14
pkg: models/tests
needs: two goroutines computing commitments at the same time
breaks: the buffer of the vector being hashed is shared by all computations of commitments
=== edit
@@ models/trie_blake2b/model.go
func HashTheVector(hashes [][]byte, arity trie.PathArity, sz HashSize) []byte {
	msz := sz.MaxCommitmentSize()
	buf := make([]byte, arity.VectorLength()*msz) ==> // vectorBuffer is big enough for any arity and hash size
var vectorBuffer [258 * 33]byte

func HashTheVector(hashes [][]byte, arity trie.PathArity, sz HashSize) []byte {
	msz := sz.MaxCommitmentSize()
	buf := vectorBuffer[:arity.VectorLength()*msz]
	for i := range buf {
		buf[i] = 0
	}
=== demo
package tests

import (
	"bytes"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	m := trie_blake2b.New(trie.PathArity256, trie_blake2b.HashSize256)
	var roots [8][]byte
	var tries [8]*trie.Trie
	for i := range tries {
		tries[i] = trie.New(m, trie.NewInMemoryKVStore(), nil)
		for j := 0; j < 20; j++ {
			tries[i].Update([]byte{byte(i), byte(j)}, []byte{byte(j + 1), byte(i)})
		}
		tries[i].Commit()
		roots[i] = trie.RootCommitment(tries[i]).Bytes()
	}
	var wg sync.WaitGroup
	wrong := int32(0)
	for i := range tries {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for n := 0; n < 3000; n++ {
				if !bytes.Equal(roots[i], trie.RootCommitment(tries[i]).Bytes()) {
					atomic.AddInt32(&wrong, 1)
				}
			}
		}(i)
	}
	wg.Wait()
	require.EqualValues(t, 0, wrong)
}
