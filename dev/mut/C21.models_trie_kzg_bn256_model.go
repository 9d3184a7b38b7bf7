			prevP = (*update).(*vectorCommitment).Point.Clone() ==> 			prevP = (*update).(*vectorCommitment).Point
----
		ret[256] = n.Terminal.(*terminalCommitment).Scalar ==> 		ret[256] = n.Terminal.(*terminalCommitment).Scalar
		ret[256].Mul(ret[256], ts.OneG1)
----
		elem := m.TrustedSetup.Suite.G1().Point()
		for i, deltaS ==> 		elem := m.TrustedSetup.LagrangeBasis[0]
		for i, deltaS
