property: C22
pkg: models/trie_kzg_bn256
needs: the bytes of a setup whose root of unity is one
breaks: a setup with repeated points of the domain is loaded without an error
=== edit
@@ models/trie_kzg_bn256/trusted.go
			if i > 0 && ret.Domain[i].Equal(ret.OneG1) { ==> 			if i > 1 && ret.Domain[i].Equal(ret.OneG1) {
=== demo
package trie_kzg_bn256

import (
	"testing"

	"github.com/stretchr/testify/require"
	"go.dedis.ch/kyber/v3/pairing/bn256"
)

func TestSeed(t *testing.T) {
	suite := bn256.NewSuite()
	sd, err := TrustedSetupFromSeed(suite, 2, []byte("a seed for the demonstration"))
	require.NoError(t, err)
	back, err := TrustedSetupFromBytes(suite, sd.Bytes())
	require.NoError(t, err)
	require.EqualValues(t, sd.Bytes(), back.Bytes())
	// omega = 1: both points of the domain are the same
	sd.Omega.One()
	_, err = TrustedSetupFromBytes(suite, sd.Bytes())
	require.Error(t, err)
}
