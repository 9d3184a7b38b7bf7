		smallFlags |= serializePathFragmentFlag
 ==> 		if len(n.ChildCommitments) > 0 {
			smallFlags |= serializePathFragmentFlag
		}
----
			if flags.hasFlag(ib) {
				n.ChildCommitments[ib] = model.NewVectorCommitment()
				if err = n.ChildCommitments[ib].Read(r); err != nil {
					return err
				}
 ==> 			if flags.hasFlag(ib) {
				n.ChildCommitments[ib] = model.NewVectorCommitment()
				if err = n.ChildCommitments[ib^1].Read(r); err != nil {
					return err
				}
----
	return fl[i/8]&(0x1<<(i%8)) != 0 ==> 	return fl[i/8]&(0x1<<(i%4)) != 0
----
		for i := 0; i < int(arity)+1; i++ {
			child, ok ==> 		for i := 1; i < int(arity)+1; i++ {
			child, ok
----
	if n.Terminal != nil {
		smallFlags ==> 	if n.Terminal != nil && !isKeyCommitment {
		smallFlags
----
		if n.PathFragment, err = DecodeToUnpackedBytes(encoded, arity); err != nil { ==> 		if n.PathFragment, err = DecodeToUnpackedBytes(encoded, 255); err != nil {
----
	if _, err := io.ReadFull(r, ret); err != nil { ==> 	if _, err := io.ReadFull(r, ret[:len(ret)/2+1]); err != nil {
----
	// write Terminal commitment if not skipped for at least one of three reasons
	if smallFlags&terminalExistsFlag != 0 { ==> 	// write Terminal commitment if not skipped for at least one of three reasons
	if smallFlags&terminalExistsFlag != 0 && smallFlags&serializePathFragmentFlag != 0 {
----
	} else {
		n.PathFragment = nil
	}
 ==> 	} else {
		n.PathFragment = nil
	}
	if smallFlags == serializeChildrenFlag {
		return errors.New("wrong flag")
	}
----
	} else {
		n.PathFragment = nil
	}
 ==> 	} else {
		n.PathFragment = nil
	}
	if smallFlags&^(terminalExistsFlag|takeTerminalFromValueFlag|takeTerminalFromKeyFlag|serializeChildrenFlag) != 0 {
		return errors.New("wrong flag")
	}
