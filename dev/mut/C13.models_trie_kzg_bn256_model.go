			elem.Mul(deltaS, m.TrustedSetup.LagrangeBasis[i])
			prevP.Add(prevP, elem) ==> 			elem.Mul(deltaS, m.TrustedSetup.LagrangeBasis[i])
			prevP.Sub(elem, prevP)
----
	for i, p := range n.ChildCommitments {
		if p == nil {
			continue
		}
		ret[i] = ts.Suite.G1().Scalar()
		scalarFromPoint(ret[i], p.(*vectorCommitment).Point)
	} ==> 	s := ts.Suite.G1().Scalar()
	for i, p := range n.ChildCommitments {
		if p == nil {
			continue
		}
		s = s.Clone().Add(s, ts.Suite.G1().Scalar().Zero())
		ret[i] = ts.Suite.G1().Scalar()
		scalarFromPoint(ret[i], p.(*vectorCommitment).Point)
		ret[i].Add(ret[i], s)
		s = ret[i]
	}
