	for i, p := range n.ChildCommitments {
		if p == nil {
			continue
		}
		ret[i] = ts.Suite.G1().Scalar()
		scalarFromPoint(ret[i], p.(*vectorCommitment).Point)
	}
	if n.Terminal != nil {
		ret[256] = n.Terminal.(*terminalCommitment).Scalar
	}
	h := blake2b.Sum256(n.PathFragment)
	ret[257] = ts.Suite.G1().Scalar()
	scalarFromBytes(ret[257], h[:]) ==> 	g1 := ts.Suite.G1()
	for i, p := range n.ChildCommitments {
		if p != nil {
			s := g1.Scalar()
			scalarFromPoint(s, p.(*vectorCommitment).Point)
			ret[i] = s
		}
	}
	h := blake2b.Sum256(n.PathFragment)
	pf := g1.Scalar()
	scalarFromBytes(pf, h[:])
	ret[257] = pf
	if t := n.Terminal; t != nil {
		ret[256] = t.(*terminalCommitment).Scalar
	}
----
	var vect [258]kyber.Scalar
	makeVector(data, &m.TrustedSetup, &vect)
	return &vectorCommitment{Point: m.TrustedSetup.commit(vect[:])} ==> 	vect := new([258]kyber.Scalar)
	makeVector(data, &m.TrustedSetup, vect)
	c := m.TrustedSetup.commit(vect[:])
	return m.newVectorCommitment(c)
----
		// update mutated part
		if childUpd == nil {
			delete(mutate.ChildCommitments, i)
		} else {
			mutate.ChildCommitments[i] = childUpd
		}
	} ==> 		// update mutated part
		if childUpd != nil {
			mutate.ChildCommitments[i] = childUpd
			continue
		}
		delete(mutate.ChildCommitments, i)
	}
----
	} else {
		if update != nil {
			// otherwise, calculate commitment from scratch
			*update = m.CalcNodeCommitment(mutate)
		}
	} ==> 		return
	}
	if update == nil {
		return
	}
	// otherwise, calculate commitment from scratch
	*update = m.CalcNodeCommitment(mutate)
----
	if equals, conclusive := trie.CheckNils(c1, c2); conclusive {
		return equals
	}
	// both not nils
	return bytes.Equal(c1.Bytes(), c2.Bytes()) ==> 	equals, conclusive := trie.CheckNils(c1, c2)
	if !conclusive {
		// both not nils
		equals = bytes.Equal(c1.Bytes(), c2.Bytes())
	}
	return equals
----
	if len(p) == 0 {
		return &vectorCommitment{Point: m.Suite.G1().Point()}
	}
	return &vectorCommitment{Point: p[0]} ==> 	var point kyber.Point
	if len(p) > 0 {
		point = p[0]
	} else {
		point = m.Suite.G1().Point()
	}
	return &vectorCommitment{Point: point}
