return proof, prefix, EndingSplit ==> return proof, prefix, EndingExtend
----
if bytes.Equal(unpackedKey[len(key):], n.PathFragment()) { ==> if bytes.HasPrefix(unpackedKey[len(key):], n.PathFragment()) {
----
if bytes.Equal(unpackedKey[len(key):], n.PathFragment()) { ==> if len(unpackedKey) == len(key)+len(n.PathFragment()) {
----
proof = append(proof, key) ==> if len(key) != 1 {
proof = append(proof, key)
}
----
if b1[i] != b2[i] { ==> if b1[i]|0x20 != b2[i]|0x20 {
----
for i := 0; i < len(b1) && i < len(b2); i++ { ==> for i := 0; i < len(b1) && i < len(b2) && i < 64; i++ {
----
key = childKey(n, unpackedKey[childIndexPosition]) ==> key = childKey(n, unpackedKey[len(key)])
----
Path:   p, ==> Path:   p[:len(p):len(p)],
