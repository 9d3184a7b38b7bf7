property: C09
pkg: trie
needs: data longer than its length field can tell
breaks: data which does not fit its length field is cut to the longest which does, without an error
=== edit
@@ trie/util.go
	if len(data) > math.MaxUint16 {
		panic(fmt.Sprintf("WriteBytes16: too long data (%v)", len(data)))
	} ==> 	if len(data) > math.MaxUint16 {
		data = data[:math.MaxUint16]
	}
=== demo
package trie

import (
	"bytes"
	"testing"

	"github.com/stretchr/testify/require"
)

func TestSeed(t *testing.T) {
	var buf bytes.Buffer
	require.NoError(t, WriteBytes16(&buf, make([]byte, 65535)))
	back, err := ReadBytes16(&buf)
	require.NoError(t, err)
	require.EqualValues(t, 65535, len(back))
	buf.Reset()
	failed := false
	func() {
		defer func() {
			if recover() != nil {
				failed = true
			}
		}()
		failed = WriteBytes16(&buf, make([]byte, 65536)) != nil
	}()
	require.True(t, failed)
}
