	if err := trie.WriteUint16(w, e.VectorIndex); err != nil {
		return err
	}
	if _, err := e.Proof.MarshalTo(w); err != nil {
		return err
	} ==> 	if _, err := e.Proof.MarshalTo(w); err != nil {
		return err
	}
	if err := trie.WriteUint16(w, e.VectorIndex); err != nil {
		return err
	}
----
	e.Proof = Model.Suite.G1().Point()
	if _, err := e.Proof.UnmarshalFrom(r); err != nil { ==> 	e.Proof = Model.Suite.G1().Point()
	if _, err := e.C.UnmarshalFrom(r); err != nil {
----
	if _, err := p.Terminal.MarshalTo(w); err != nil {
		return err
	}
 ==> 	if p.Path != nil {
		if _, err := p.Terminal.MarshalTo(w); err != nil {
			return err
		}
	}
----
	if err := trie.WriteBytes16(w, p.Key); err != nil { ==> 	if err := trie.WriteBytes8(w, p.Key); err != nil {
----
	if err := trie.WriteUint16(w, e.VectorIndex); err != nil { ==> 	if err := trie.WriteUint16(w, uint16(byte(e.VectorIndex))); err != nil {
----
	if err := trie.ReadUint16(r, &e.VectorIndex); err != nil {
		return err
	} ==> 	var v uint16
	if err := trie.ReadUint16(r, &v); err != nil {
		return err
	}
	e.VectorIndex = v % 256
