	ret.One()
	for i := 0; i < n; i++ {
		ret.Mul(ret, x)
	}
	return ret ==> 	ret.One()
	for ; n > 0; n-- {
		ret.Mul(x, ret)
	}
	return ret
----
	repeat := true
	var rou kyber.Scalar
	retPowers := make([]kyber.Scalar, d)

	for repeat {
		repeat = false
		rou = generateRootOfUnity(suite)
		for i := range retPowers {
			retPowers[i] = powerSimple(suite, rou, i)
			if i > 0 && len(retPowers[i].String()) < 50 {
				repeat = true
				break
			}
		}
	}
	return rou, retPowers ==> 	retPowers := make([]kyber.Scalar, d)
again:
	for {
		rou := generateRootOfUnity(suite)
		for i := range retPowers {
			retPowers[i] = powerSimple(suite, rou, i)
			if i > 0 && len(retPowers[i].String()) < 50 {
				continue again
			}
		}
		return rou, retPowers
	}
----
	return powerBig(suite, rootOfUnity, bigFactor).Equal(suite.G1().Scalar().One()) ==> 	p := powerBig(suite, rootOfUnity, bigFactor)
	one := suite.G1().Scalar().One()
	return one.Equal(p)
