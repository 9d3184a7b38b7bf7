	return &vectorCommitment{Point: v.Point.Clone()} ==> 	return &vectorCommitment{Point: v.Point}
----
	return &terminalCommitment{Scalar: t.Scalar.Clone()} ==> 	return &terminalCommitment{Scalar: t.Scalar}
----
	return &vectorCommitment{Point: v.Point.Clone()} ==> 	return v
