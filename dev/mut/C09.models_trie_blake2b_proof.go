	if len(p.Path) > math.MaxUint16 { ==> 	if len(p.Path) > math.MaxUint16 && len(p.Key) > 0 {
----
	if e.ChildIndex < 0 || e.ChildIndex > math.MaxUint16 { ==> 	if e.ChildIndex > math.MaxUint16 {
----
	if e.ChildIndex < 0 || e.ChildIndex > math.MaxUint16 { ==> 	if e.ChildIndex < 0 && e.ChildIndex > math.MaxUint16 {
----
	if err = trie.WriteUint16(w, uint16(e.ChildIndex)); err != nil { ==> 	if err = trie.WriteUint16(w, uint16(uint8(e.ChildIndex))); err != nil {
----
		for i := 0; i < arity.NumChildren(); i++ {
			child, ok ==> 		for i := 0; i <= arity.NumChildren(); i++ {
			child, ok
