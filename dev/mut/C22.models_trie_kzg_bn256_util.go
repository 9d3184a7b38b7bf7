	for i := 0; i < n; i++ {
		ret.Mul(ret, x) ==> 	for i := 1; i < n; i++ {
		ret.Mul(ret, x)
----
		ret = setTo[0]
	} else { ==> 		ret = setTo[0].Clone()
	} else {
----
	return powerBig(suite, rootOfUnity, bigFactor).Equal(suite.G1().Scalar().One()) ==> 	return !powerBig(suite, rootOfUnity, bigFactor).Equal(suite.G1().Scalar().Zero())
----
	return powerBig(suite, rootOfUnity, bigFactor).Equal(suite.G1().Scalar().One()) ==> 	return powerBig(suite, rootOfUnity, orderMinus1DivFactor).Equal(suite.G1().Scalar().One())
----
	if d > FACTOR {
		panic("d > FACTOR")
	} ==> 
----
			if i > 0 && len(retPowers[i].String()) < 50 {
				repeat = true
				break
			} ==> 			if i > 0 && len(retPowers[i].String()) < 50 {
				break
			}
----
			if i > 0 && len(retPowers[i].String()) < 50 { ==> 			if i > 1 && len(retPowers[i].String()) < 50 {
