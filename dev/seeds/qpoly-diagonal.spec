property: C28
pkg: models/trie_kzg_bn256
needs: an opening at a position whose own element is absent, of a vector on a domain of powers
breaks: the sum on the diagonal is left out for absent elements
=== edit
@@ models/trie_kzg_bn256/fun.go
	// i == m
	ret.Zero()
	t := ==> 	// i == m
	ret.Zero()
	if y == nil && m+1 == len(vect) {
		return
	}
	t :=
=== demo
package trie_kzg_bn256

import (
	"testing"

	"github.com/stretchr/testify/require"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/pairing/bn256"
)

func TestSeed(t *testing.T) {
	suite := bn256.NewSuite()
	sd, err := TrustedSetupFromSeed(suite, 5, []byte("a seed for the demonstration"))
	require.NoError(t, err)
	vect := make([]kyber.Scalar, 5)
	vect[1] = suite.G1().Scalar().SetInt64(7)
	vect[3] = suite.G1().Scalar().SetInt64(11)
	c := sd.commit(vect)
	for i := range vect {
		v := vect[i]
		if v == nil {
			v = sd.ZeroG1
		}
		require.True(t, sd.verify(c, sd.prove(vect, i), v, i))
	}
}
