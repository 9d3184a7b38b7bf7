	for i := range p.Path {
		if last := i == len(p.Path)-1; last != (p.Path[i].VectorIndex == 256) || p.Path[i].VectorIndex > 256 {
			return xerrors.New(fmt.Sprintf("wrong vector index %d at path position %d", p.Path[i].VectorIndex, i))
		}
		if p.Path[i].VectorIndex < 256 { ==> 	for i := range p.Path {
		last := i == len(p.Path)-1
		if last && p.Path[i].VectorIndex != 256 {
			return xerrors.New("wrong vector index")
		}
		if !last && p.Path[i].VectorIndex >= 256 {
			return xerrors.New("wrong vector index")
		}
		if !last {
----
	for i := range p.Path {
		if last ==> 	for i := 0; i < len(p.Path); i++ {
		if last
----
	var val kyber.Scalar

	for i := range p.Path {
		if last := i == len(p.Path)-1; last != (p.Path[i].VectorIndex == 256) || p.Path[i].VectorIndex > 256 {
			return xerrors.New(fmt.Sprintf("wrong vector index %d at path position %d", p.Path[i].VectorIndex, i))
		}
		if p.Path[i].VectorIndex < 256 {
			val = scalarFromPoint(Model.Suite.G1().Scalar(), p.Path[i+1].C)
		} else {
			val = p.Terminal
		}
		if !Model.verify(p.Path[i].C, p.Path[i].Proof, val, int(p.Path[i].VectorIndex)) { ==> 	for i, e := range p.Path {
		if last := i == len(p.Path)-1; last != (e.VectorIndex == 256) || e.VectorIndex > 256 {
			return xerrors.New(fmt.Sprintf("wrong vector index %d at path position %d", e.VectorIndex, i))
		}
		val := p.Terminal
		if e.VectorIndex != 256 {
			val = scalarFromPoint(Model.Suite.G1().Scalar(), p.Path[i+1].C)
		}
		if !Model.verify(e.C, e.Proof, val, int(e.VectorIndex)) {
----
	for i := range p.Path {
		if last := i == len(p.Path)-1; last != (p.Path[i].VectorIndex == 256) || p.Path[i].VectorIndex > 256 {
			return xerrors.New(fmt.Sprintf("wrong vector index %d at path position %d", p.Path[i].VectorIndex, i))
		}
		if p.Path[i].VectorIndex < 256 {
			val = scalarFromPoint(Model.Suite.G1().Scalar(), p.Path[i+1].C)
		} else {
			val = p.Terminal
		}
		if !Model.verify(p.Path[i].C, p.Path[i].Proof, val, int(p.Path[i].VectorIndex)) {
			return xerrors.New(fmt.Sprintf("proof is invalid at path position %d", i))
		}
	}
	return nil ==> 	lastPos := len(p.Path) - 1
	for i := 0; i < lastPos; i++ {
		if p.Path[i].VectorIndex >= 256 {
			return xerrors.New(fmt.Sprintf("wrong vector index %d at path position %d", p.Path[i].VectorIndex, i))
		}
		val = scalarFromPoint(Model.Suite.G1().Scalar(), p.Path[i+1].C)
		if !Model.verify(p.Path[i].C, p.Path[i].Proof, val, int(p.Path[i].VectorIndex)) {
			return xerrors.New(fmt.Sprintf("proof is invalid at path position %d", i))
		}
	}
	if p.Path[lastPos].VectorIndex != 256 {
		return xerrors.New(fmt.Sprintf("wrong vector index %d at path position %d", p.Path[lastPos].VectorIndex, lastPos))
	}
	if !Model.verify(p.Path[lastPos].C, p.Path[lastPos].Proof, p.Terminal, 256) {
		return xerrors.New(fmt.Sprintf("proof is invalid at path position %d", lastPos))
	}
	return nil
----
		if p.Path[i].VectorIndex < 256 {
			val = scalarFromPoint(Model.Suite.G1().Scalar(), p.Path[i+1].C)
		} else {
			val = p.Terminal
		} ==> 		val = p.valueAt(i)
&&
func (p *ProofOfInclusion) Write( ==> func (p *ProofOfInclusion) valueAt(i int) kyber.Scalar {
	if p.Path[i].VectorIndex < 256 {
		return scalarFromPoint(Model.Suite.G1().Scalar(), p.Path[i+1].C)
	}
	return p.Terminal
}

func (p *ProofOfInclusion) Write(
----
	for i := range p.Path {
		if last := i == len(p.Path)-1; last != (p.Path[i].VectorIndex == 256) || p.Path[i].VectorIndex > 256 {
			return xerrors.New(fmt.Sprintf("wrong vector index %d at path position %d", p.Path[i].VectorIndex, i))
		}
		if p.Path[i].VectorIndex < 256 { ==> 	for i := range p.Path {
		if err := p.checkIndex(i); err != nil {
			return err
		}
		if p.Path[i].VectorIndex < 256 {
&&
func (p *ProofOfInclusion) Write( ==> func (p *ProofOfInclusion) checkIndex(i int) error {
	idx := p.Path[i].VectorIndex
	if i == len(p.Path)-1 {
		if idx != 256 {
			return xerrors.New("wrong vector index")
		}
		return nil
	}
	if idx > 255 {
		return xerrors.New("wrong vector index")
	}
	return nil
}

func (p *ProofOfInclusion) Write(
----
	if len(value) > 0 {
		ct := commitToData(value[0], Model.Suite)
		if !equalCommitments(ct, &terminalCommitment{Scalar: p.Terminal}) {
			return xerrors.New("terminal commitment not equal to the provided value")
		}
	}
	if len(p.Path) == 0 {
		return xerrors.New("proof path is empty")
	} ==> 	if len(p.Path) == 0 {
		return xerrors.New("proof path is empty")
	}
	if len(value) > 0 && !equalCommitments(commitToData(value[0], Model.Suite), &terminalCommitment{Scalar: p.Terminal}) {
		return xerrors.New("terminal commitment not equal to the provided value")
	}
----
nextKey[len(nextKey)-1] ==> key[len(nextKey)-1]
----
	for i, n := range nodes {
		ret.Path[i].C = m.calcNodeCommitment(n).Point
		//if ==> 	for i, e := range ret.Path {
		n := nodes[i]
		e.C = m.calcNodeCommitment(n).Point
		//if
&&
		ret.Path[i].Proof = m.calcProof(nodes[i], int(ret.Path[i].VectorIndex))
	} ==> 		e.Proof = m.calcProof(n, int(e.VectorIndex))
	}
----
		ret.Path[i] = &ProofElement{}
		if i == proofLength-1 {
			ret.Path[i].VectorIndex = 256
		} else {
			nextKey := proofGeneric.Path[i+1]
			ret.Path[i].VectorIndex = uint16(nextKey[len(nextKey)-1])
		}
	} ==> 		e := &ProofElement{VectorIndex: 256}
		if i < proofLength-1 {
			nextKey := proofGeneric.Path[i+1]
			e.VectorIndex = uint16(nextKey[len(nextKey)-1])
		}
		ret.Path[i] = e
	}
----
	if nodes[proofLength-1].Terminal == nil {
		// the path ends at a node which commits to children only: key is not present in the state
		return nil, false
	} ==> 	last := nodes[len(nodes)-1]
	if last.Terminal == nil {
		return nil, false
	}
&&
	ret.Terminal.Set(nodes[proofLength-1].Terminal.(*terminalCommitment).Scalar) ==> 	ret.Terminal.Set(last.Terminal.(*terminalCommitment).Scalar)
----
	if nodes[proofLength-1].Terminal == nil {
		// the path ends at a node which commits to children only: key is not present in the state
		return nil, false
	} ==> 	term, ok := nodes[len(nodes)-1].Terminal.(*terminalCommitment)
	if !ok {
		return nil, false
	}
&&
	ret.Terminal.Set(nodes[proofLength-1].Terminal.(*terminalCommitment).Scalar) ==> 	ret.Terminal.Set(term.Scalar)
----
	if proofGeneric == nil || len(proofGeneric.Path) == 0 || proofGeneric.Ending != trie.EndingTerminal {
		// key is not present in the state
		return nil, false
	} ==> 	if proofGeneric == nil {
		return nil, false
	}
	switch proofGeneric.Ending {
	case trie.EndingTerminal:
	default:
		return nil, false
	}
	if len(proofGeneric.Path) == 0 {
		return nil, false
	}
----
		if i == proofLength-1 {
			ret.Path[i].VectorIndex = 256
		} else {
			nextKey := proofGeneric.Path[i+1]
			ret.Path[i].VectorIndex = uint16(nextKey[len(nextKey)-1])
		}
	} ==> 		ret.Path[i].VectorIndex = pathIndex(proofGeneric.Path, i)
	}
&&
// ProofOfPath returns ==> // pathIndex returns the position by which the path continues
func pathIndex(path [][]byte, i int) uint16 {
	if i == len(path)-1 {
		return 256
	}
	next := path[i+1]
	return uint16(next[len(next)-1])
}

// ProofOfPath returns
----
	nodes := make([]*trie.NodeData, proofLength)
 ==> 	nodes := make([]*trie.NodeData, 0, proofLength)

&&
		nodes[i] = &trie.NodeData{
			PathFragment:     n.PathFragment(),
			ChildCommitments: n.ChildCommitments(),
			Terminal:         n.Terminal(),
		} ==> 		nodes = append(nodes, &trie.NodeData{
			PathFragment:     n.PathFragment(),
			ChildCommitments: n.ChildCommitments(),
			Terminal:         n.Terminal(),
		})
----
		ret.Path[i] = &ProofElement{}
		if i == proofLength-1 {
			ret.Path[i].VectorIndex = 256
		} else {
			nextKey := proofGeneric.Path[i+1]
			ret.Path[i].VectorIndex = uint16(nextKey[len(nextKey)-1])
		}
	} ==> 	}
&&
	for i, n := range nodes {
		ret.Path[i].C = m.calcNodeCommitment(n).Point
		//if ==> 	for i, n := range nodes {
		idx := 256
		if i < proofLength-1 {
			nextKey := proofGeneric.Path[i+1]
			idx = int(nextKey[len(nextKey)-1])
		}
		ret.Path[i] = &ProofElement{VectorIndex: uint16(idx)}
		ret.Path[i].C = m.calcNodeCommitment(n).Point
		//if
&&
m.calcProof(nodes[i], int(ret.Path[i].VectorIndex)) ==> m.calcProof(nodes[i], idx)
