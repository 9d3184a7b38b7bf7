ret.Terminal.Set(nodes[proofLength-1].Terminal.(*terminalCommitment).Scalar) ==> ret.Terminal = nodes[proofLength-1].Terminal.(*terminalCommitment).Scalar
----
append([]byte(nil), proofGeneric.Key...) ==> proofGeneric.Key
----
		ret.Path[i].C = m.calcNodeCommitment(n).Point
		//if ==> 		if i == 0 {
			ret.Path[i].C = m.calcNodeCommitment(n).Point
		} else {
			ret.Path[i].C = nodes[i-1].ChildCommitments[byte(ret.Path[i-1].VectorIndex)].(*vectorCommitment).Point
		}
		//if
