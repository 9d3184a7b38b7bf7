property: C21
pkg: models/trie_kzg_bn256
needs: an opening of a vector with absent elements, and the vector used again afterwards
breaks: computing an opening negates the opened value in place
=== edit
@@ models/trie_kzg_bn256/fun.go
		ret.Neg(vj)
	default: ==> 		ret.Set(vj.Neg(vj))
		vj.Neg(vj)
		vj.Set(ret)
	default:
=== demo
package trie_kzg_bn256

import (
	"testing"

	"github.com/stretchr/testify/require"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/pairing/bn256"
)

func TestSeed(t *testing.T) {
	suite := bn256.NewSuite()
	sd, err := TrustedSetupFromSeed(suite, 5, []byte("a seed for the demonstration"))
	require.NoError(t, err)
	vect := make([]kyber.Scalar, 5)
	vect[1] = suite.G1().Scalar().SetInt64(7)
	vect[3] = suite.G1().Scalar().SetInt64(11)
	c := sd.commit(vect)
	pi := sd.prove(vect, 1)
	require.True(t, sd.verify(c, pi, suite.G1().Scalar().SetInt64(7), 1))
	require.True(t, vect[1].Equal(suite.G1().Scalar().SetInt64(7)))
	require.True(t, sd.commit(vect).Equal(c))
}
