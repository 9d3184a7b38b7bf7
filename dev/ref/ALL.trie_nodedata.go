	ret := NewNodeData()
	rdr := bytes.NewReader(data)
	if err := ret.Read(rdr, model, unpackedKey, arity, valueStore); err != nil {
		return nil, err
	}
	if rdr.Len() != 0 {
		// not all data was consumed
		return nil, ErrNotAllBytesConsumed
	}
	return ret, nil ==> 	rdr := bytes.NewReader(data)
	ret := &NodeData{ChildCommitments: make(map[byte]VCommitment)}
	err := ret.Read(rdr, model, unpackedKey, arity, valueStore)
	if err != nil {
		return nil, err
	}
	if rdr.Len() > 0 {
		return nil, ErrNotAllBytesConsumed
	}
	return ret, nil
----
	ret := &NodeData{
		PathFragment:     make([]byte, len(n.PathFragment)),
		ChildCommitments: make(map[byte]VCommitment),
	}
	if n.Terminal != nil {
		ret.Terminal = n.Terminal.Clone()
	}
	copy(ret.PathFragment, n.PathFragment)
	for i, c := range n.ChildCommitments {
		ret.ChildCommitments[i] = c.Clone()
	}
	return ret ==> 	ret := NewNodeData()
	ret.PathFragment = append(make([]byte, 0, len(n.PathFragment)), n.PathFragment...)
	for i := range n.ChildCommitments {
		ret.ChildCommitments[i] = n.ChildCommitments[i].Clone()
	}
	if n.Terminal != nil {
		ret.Terminal = n.Terminal.Clone()
	}
	return ret
----
		childrenFlags := newCflags(arity)
		// compress children childrenFlags 32 bytes, if any
		for i := range n.ChildCommitments {
			childrenFlags.setFlag(i)
		}
		if _, err = w.Write(childrenFlags); err != nil {
			return err
		}
		for i := 0; i < int(arity)+1; i++ {
			child, ok := n.ChildCommitments[uint8(i)]
			if !ok {
				continue
			}
			if err = child.Write(w); err != nil {
				return err
			}
		}
	}
	return nil
} ==> 		return n.writeChildren(w, arity)
	}
	return nil
}

func (n *NodeData) writeChildren(w io.Writer, arity PathArity) error {
	childrenFlags := newCflags(arity)
	for i := range n.ChildCommitments {
		childrenFlags.setFlag(i)
	}
	if _, err := w.Write(childrenFlags); err != nil {
		return err
	}
	for i := 0; i < arity.NumChildren(); i++ {
		if child, ok := n.ChildCommitments[uint8(i)]; ok {
			if err := child.Write(w); err != nil {
				return err
			}
		}
	}
	return nil
}
----
		for i := 0; i < int(arity)+1; i++ {
			ib := uint8(i)
			if flags.hasFlag(ib) {
				n.ChildCommitments[ib] = model.NewVectorCommitment()
				if err = n.ChildCommitments[ib].Read(r); err != nil {
					return err
				}
			}
		} ==> 		for i := 0; i <= int(arity); i++ {
			ib := uint8(i)
			if !flags.hasFlag(ib) {
				continue
			}
			c := model.NewVectorCommitment()
			if err = c.Read(r); err != nil {
				return err
			}
			n.ChildCommitments[ib] = c
		}
----
		for i := 0; i < int(arity)+1; i++ {
			ib := uint8(i)
			if flags.hasFlag(ib) { ==> 		for i, last := 0, int(arity); i <= last; i++ {
			ib := byte(i)
			if flags.hasFlag(ib) {
----
			fullKey := Concat(unpackedKey, n.PathFragment)
			if len(fullKey) == 0 {
				return xerrors.New("non-empty unpackedKey expected")
			}
			n.Terminal = model.CommitToData(fullKey) ==> 			if len(unpackedKey)+len(n.PathFragment) == 0 {
				return xerrors.New("non-empty unpackedKey expected")
			}
			n.Terminal = model.CommitToData(Concat(unpackedKey, n.PathFragment))
----
		if smallFlags&takeTerminalFromKeyFlag != 0 {
			// terminal is in key
			fullKey := Concat(unpackedKey, n.PathFragment)
			if len(fullKey) == 0 {
				return xerrors.New("non-empty unpackedKey expected")
			}
			n.Terminal = model.CommitToData(fullKey)
		} else if smallFlags&takeTerminalFromValueFlag != 0 {
			// terminal should be taken from the value store
			if valueStore == nil {
				return errors.New("can't read node: value store not provided")
			}
			key, err := PackUnpackedBytes(Concat(unpackedKey, n.PathFragment), arity)
			if err != nil {
				return err
			}
			value := valueStore.Get(key)
			if value == nil {
				return fmt.Errorf("can't find terminal value for key '%x'", key)
			}
			n.Terminal = model.CommitToData(value)
		} else {
			n.Terminal = model.NewTerminalCommitment()
			if err = n.Terminal.Read(r); err != nil {
				return err
			}
		} ==> 		fullKey := Concat(unpackedKey, n.PathFragment)
		switch {
		case smallFlags&takeTerminalFromKeyFlag != 0:
			if len(fullKey) == 0 {
				return xerrors.New("non-empty unpackedKey expected")
			}
			n.Terminal = model.CommitToData(fullKey)
		case smallFlags&takeTerminalFromValueFlag != 0:
			if n.Terminal, err = terminalFromValue(model, fullKey, arity, valueStore); err != nil {
				return err
			}
		default:
			t := model.NewTerminalCommitment()
			if err = t.Read(r); err != nil {
				return err
			}
			n.Terminal = t
		}
&&
// Read deserialize node data ==> func terminalFromValue(model CommitmentModel, fullKey []byte, arity PathArity, valueStore KVReader) (TCommitment, error) {
	if valueStore == nil {
		return nil, errors.New("can't read node: value store not provided")
	}
	key, err := PackUnpackedBytes(fullKey, arity)
	if err != nil {
		return nil, err
	}
	value := valueStore.Get(key)
	if value == nil {
		return nil, fmt.Errorf("can't find terminal value for key '%x'", key)
	}
	return model.CommitToData(value), nil
}

// Read deserialize node data
----
	var smallFlags byte
	if n.Terminal != nil {
		smallFlags |= terminalExistsFlag
	}
	if skipTerminal {
		smallFlags |= takeTerminalFromValueFlag
	}
	if isKeyCommitment {
		smallFlags |= takeTerminalFromKeyFlag
	}
	if len(n.ChildCommitments) > 0 {
		smallFlags |= serializeChildrenFlag
	}
	if smallFlags == 0 {
		return xerrors.New("non-committing node can't be serialized")
	} ==> 	smallFlags := n.flags(isKeyCommitment, skipTerminal)
	if smallFlags == 0 {
		return xerrors.New("non-committing node can't be serialized")
	}
&&
// Read deserialize node data ==> func (n *NodeData) flags(isKeyCommitment bool, skipTerminal bool) (ret byte) {
	if n.Terminal != nil {
		ret |= terminalExistsFlag
	}
	if skipTerminal {
		ret |= takeTerminalFromValueFlag
	}
	if isKeyCommitment {
		ret |= takeTerminalFromKeyFlag
	}
	if len(n.ChildCommitments) > 0 {
		ret |= serializeChildrenFlag
	}
	return
}

// Read deserialize node data
----
	if smallFlags&terminalExistsFlag != 0 {
		// terminal exists
		if smallFlags&takeTerminalFromKeyFlag == 0 &&
			smallFlags&takeTerminalFromValueFlag == 0 {
			// terminal will be stored in the node
			if err = n.Terminal.Write(w); err != nil {
				return err
			}
		}
	} ==> 	if n.Terminal != nil && !isKeyCommitment && !skipTerminal {
		// terminal will be stored in the node
		if err = n.Terminal.Write(w); err != nil {
			return err
		}
	}
----
	if ret := (int(arity) + 1) / 8; ret != 0 {
		return ret
	}
	return 1 ==> 	ret := arity.NumChildren() / 8
	if ret < 1 {
		ret = 1
	}
	return ret
----
	fl[i/8] |= 0x1 << (i % 8) ==> 	fl[i>>3] |= 1 << (i & 7)
&&
	return fl[i/8]&(0x1<<(i%8)) != 0 ==> 	return fl[i>>3]>>(i&7)&1 == 1
