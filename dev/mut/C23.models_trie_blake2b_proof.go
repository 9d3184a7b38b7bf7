		PathArity: tr.PathArity(), ==> 		PathArity: trie.PathArity256,
----
	case trie.PathArity256, trie.PathArity16, trie.PathArity2:
	default: ==> 	case trie.PathArity256, trie.PathArity16, trie.PathArity2, 0:
	default:
----
	if p.HashSize != HashSize256 && p.HashSize != HashSize160 {
		return errors.New("wrong hash size")
	} ==> 	if p.HashSize != HashSize256 {
		p.HashSize = HashSize160
	}
----
	if p.HashSize != HashSize256 && p.HashSize != HashSize160 { ==> 	if p.HashSize > HashSize256 {
----
p.Key, err = trie.DecodeToUnpackedBytes(encodedKey, p.PathArity) ==> p.Key, err = trie.DecodeToUnpackedBytes(encodedKey, trie.PathArity256)
----
	if p.HashSize != HashSize256 && p.HashSize != HashSize160 {
		return ==> 	if p.HashSize != HashSize256 {
		return
