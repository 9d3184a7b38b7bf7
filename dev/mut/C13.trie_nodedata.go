		for i := 0; i < int(arity)+1; i++ {
			child, ok := n.ChildCommitments[uint8(i)]
			if !ok {
				continue
			}
			if err = child.Write(w); err != nil {
				return err
			}
		} ==> 		for _, child := range n.ChildCommitments {
			if err = child.Write(w); err != nil {
				return err
			}
		}
----
	for i, c := range n.ChildCommitments {
		ret.ChildCommitments[i] = c.Clone()
	} ==> 	var last VCommitment
	for i, c := range n.ChildCommitments {
		if last != nil && last.String() == c.String() {
			ret.ChildCommitments[i] = last
		} else {
			ret.ChildCommitments[i] = c.Clone()
			last = c
		}
	}
----
	return ret
}

func (n *NodeData) String ==> 	for i := range n.ChildCommitments {
		if i > 100 {
			ret.PathFragment = append(ret.PathFragment, i)
			break
		}
	}
	return ret
}

func (n *NodeData) String
