property: C25
pkg: trie
needs: an encoded binary path with the highest padded bit set
breaks: the decoder of binary paths does not check the first padded bit, so that two encodings decode to one path
=== edit
@@ trie/encode.go
	for j := len(ret) - int(data[0]); j < len(ret); j++ { ==> 	for j := len(ret) - 1; j > len(ret)-int(data[0]); j-- {
=== demo
package trie

import (
	"testing"

	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	for n := 1; n < 20; n++ {
		k := make([]byte, n)
		k[0] = 1
		enc, err := EncodeUnpackedBytes(k, PathArity2)
		require.NoError(t, err)
		back, err := DecodeToUnpackedBytes(enc, PathArity2)
		require.NoError(t, err)
		require.EqualValues(t, k, back)
		for bit := 0; bit < int(enc[0]); bit++ {
			bad := append([]byte(nil), enc...)
			bad[len(bad)-1] |= 1 << bit
			_, err = DecodeToUnpackedBytes(bad, PathArity2)
			require.Error(t, err)
		}
	}
}
