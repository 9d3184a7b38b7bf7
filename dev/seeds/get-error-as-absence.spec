property: C10
pkg: hive_adaptor
needs: the database fails while reading
breaks: a failed read of the database is reported as absence of the key
=== edit
@@ hive_adaptor/hiveadaptor.go
	if errors.Is(err, kvstore.ErrKeyNotFound) {
		return nil
	}
	mustNoErr(err)
	if len(v) == 0 {
		return nil
	} ==> 	if !errors.Is(err, kvstore.ErrKeyNotFound) && len(v) > 0 {
		mustNoErr(err)
	}
	if len(v) == 0 {
		return nil
	}
=== demo
package hive_adaptor

import (
	"errors"
	"testing"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/trie"
	"github.com/stretchr/testify/require"
)

var errFault = errors.New("fault")

type faulty struct{ kvstore.KVStore }

func (f *faulty) Get(kvstore.Key) (kvstore.Value, error) { return nil, errFault }

func TestSeed(t *testing.T) {
	s := NewHiveKVStoreAdaptor(&faulty{mapdb.NewMapDB()}, []byte("p"))
	require.Panics(t, func() { s.Get([]byte("k")) })
	_, _ = trie.PathArity16, trie_blake2b.HashSize160
}
