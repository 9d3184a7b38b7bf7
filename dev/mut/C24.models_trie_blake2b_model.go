		isCostlyCommitment: len(data) > m.valueSizeOptimizationThreshold, ==> 		isCostlyCommitment: len(data) >= m.valueSizeOptimizationThreshold,
----
	return c.(*terminalCommitment).isCostlyCommitment ==> 	return !c.(*terminalCommitment).isCostlyCommitment
