property: C30
pkg: trie
needs: a pair with the empty key in the middle of the stream
breaks: the stream iterator takes an empty key for the end of the stream
=== edit
@@ trie/kv.go
		if err != nil {
			return err
		}
		v, err := ReadBytes32(b.r) ==> 		if err != nil {
			return err
		}
		if len(k) == 0 {
			return nil
		}
		v, err := ReadBytes32(b.r)
=== demo
package trie

import (
	"bytes"
	"testing"

	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	var buf bytes.Buffer
	w := NewBinaryStreamWriter(&buf)
	for _, k := range []string{"a", "", "b"} {
		require.NoError(t, w.Write([]byte(k), []byte("v"+k)))
	}
	var got []string
	require.NoError(t, NewBinaryStreamIterator(&buf).Iterate(func(k, v []byte) bool {
		got = append(got, string(k)+string(v))
		return true
	}))
	require.EqualValues(t, []string{"ava", "v", "bvb"}, got)
	require.EqualValues(t, 3, len(got))
}
