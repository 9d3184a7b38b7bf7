property: C20
pkg: models/trie_kzg_bn256
needs: a setup generated from a secret which is refused
breaks: the error of the generation contains the secret
=== edit
@@ models/trie_kzg_bn256/trusted.go
		powerSimple(sd.Suite, sd.Omega, i, sd.Domain[i])
		if sd.Domain[i].Equal(secret) {
			return errWrongSecret
		} ==> 		powerSimple(sd.Suite, sd.Omega, i, sd.Domain[i])
		if sd.Domain[i].Equal(secret) {
			return xerrors.Errorf("%w: %s is a point of the domain", errWrongSecret, secret)
		}
=== demo
package trie_kzg_bn256

import (
	"strings"
	"testing"

	"github.com/stretchr/testify/require"
	"go.dedis.ch/kyber/v3/pairing/bn256"
)

func TestSeed(t *testing.T) {
	suite := bn256.NewSuite()
	omega := suite.G1().Scalar().SetBytes([]byte("some quite long omega, 32 bytes."))
	_, err := TrustedSetupFromSecretPowers(suite, 4, omega, omega)
	require.Error(t, err)
	require.False(t, strings.Contains(err.Error(), omega.String()))
}
