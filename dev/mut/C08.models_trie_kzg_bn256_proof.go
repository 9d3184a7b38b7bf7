last != (p.Path[i].VectorIndex == 256) || p.Path[i].VectorIndex > 256 { ==> p.Path[i].VectorIndex > 256 {
&&
"wrong vector index ==> "wrong vector index %t
&&
 at path position %d", p.Path[i].VectorIndex, i) ==>  at path position %d", last, p.Path[i].VectorIndex, i)
----
last != (p.Path[i].VectorIndex == 256) || p.Path[i].VectorIndex > 256 { ==> last != (p.Path[i].VectorIndex >= 256) {
----
last != (p.Path[i].VectorIndex == 256) || p.Path[i].VectorIndex > 256 { ==> last != (p.Path[i].VectorIndex == 258) || p.Path[i].VectorIndex > 258 {
----
	if len(p.Path) == 0 {
		return xerrors.New("proof path is empty")
	} ==> 
