sd.precalc.ta[m][j])
		return ret ==> sd.precalc.ta[j][m])
		return ret
----
	ret.Mul(ret, sd.AprimeDomainI[m])
	ret.Div(ret, sd.AprimeDomainI[j]) ==> 	ret.Mul(ret, sd.AprimeDomainI[j])
	ret.Div(ret, sd.AprimeDomainI[m])
----
	ret.Mul(ret, sd.AprimeDomainI[m])
	ret.Div(ret, sd.AprimeDomainI[j]) ==> 	ret.Mul(ret, sd.AprimeDomainI[m])
----
ret.Set(sd.precalc.tk[m]) ==> ret.Set(sd.precalc.tk[0])
----
	ret.Zero()
	t := sd.Suite.G1().Scalar()
	for j := 0; j < int(sd.D); j++ { ==> 	ret.Zero()
	t := sd.Suite.G1().Scalar()
	for j := 0; j < int(byte(sd.D)); j++ {
----
	ret.Zero()
	t := sd.Suite.G1().Scalar()
	for j := 0; j < int(sd.D); j++ { ==> 	ret.Zero()
	t := sd.Suite.G1().Scalar()
	for j := 1; j < int(sd.D); j++ {
----
ret.Add(ret, sd.ta(m, j, t)) ==> ret.Add(ret, sd.ta(j, m, t))
----
	ret.Zero()
	t := sd.Suite.G1().Scalar()
	for j ==> 	t := sd.Suite.G1().Scalar()
	for j
----
	for j := 0; j < int(sd.D); j++ {
		tj.SetInt64 ==> 	for j := 0; j < int(sd.D)-1; j++ {
		tj.SetInt64
----
SetInt64(int64(m)) ==> SetInt64(int64(m%256))
----
			idx := int(sd.D) - 1 + m - j
			sd.precalc ==> 			idx := int(sd.D) - 1 + j - m
			sd.precalc
----
			sd.precalc.invsub[idx].Inv(sd.precalc.invsub[idx])
 ==> 
----
	tj := sd.Suite.G1().Scalar()
	for j := 0; j < int(sd.D); j++ {
		tj.SetInt64(int64(j)) ==> 	tj := sd.Suite.G1().Scalar()
	for j := 0; j < int(sd.D); j++ {
		tj.SetInt64(int64(byte(j)))
----
sd.precalc.ta[m][j].Div(sd.precalc.ta[m][j], sd.AprimeDomainI[j]) ==> sd.precalc.ta[m][j].Div(sd.precalc.ta[m][j], sd.AprimeDomainI[m])
----
sd.precalc.ta[m][j].Mul(sd.precalc.ta[m][j], sd.invsub(m, j)) ==> sd.precalc.ta[m][j].Mul(sd.precalc.ta[m][j], sd.invsub(j, m))
----
		for m := range sd.precalc.ta[j] {
			if m == j { ==> 		for m := range sd.precalc.ta[j] {
			if m == j || sd.precalc.invsub[m] == nil {
----
	for m := range sd.precalc.tk { ==> 	for m := range sd.precalc.tk[1:] {
----
			sd.precalc.tk[m].Add(sd.precalc.tk[m], sd.precalc.ta[m][j]) ==> 			sd.precalc.tk[m].Add(sd.precalc.tk[m], sd.precalc.ta[j][m])
----
sd.precalc.tk[m] = sd.Suite.G1().Scalar().Zero() ==> sd.precalc.tk[m] = sd.Suite.G1().Scalar().One()
----
			if j == m {
				continue
			}
			sd.precalc.tk[m].Add ==> 			if j == m || j > 256 {
				continue
			}
			sd.precalc.tk[m].Add
----
		ret.Sub(sd.Domain[m], sd.Domain[j])
		ret.Inv(ret)
		return ret ==> 		ret.Sub(sd.Domain[m], sd.Domain[j])
		return ret
----
		ret.Sub(sd.Domain[m], sd.Domain[j])
		ret.Inv(ret)
		return ret ==> 		ret.Sub(sd.Domain[j], sd.Domain[m])
		ret.Inv(ret)
		return ret
----
	idx := int(sd.D) - 1 + m - j
	if len(set) > 0 { ==> 	idx := int(sd.D) - 1 + j - m
	if len(set) > 0 {
----
	sd.precalculate()
	return nil
} ==> 	return nil
}
&&
	// calculate [secret-rou^i]2 ==> 	sd.precalculate()
	// calculate [secret-rou^i]2
----
	for i := range ret.AprimeDomainI {
		ret.aprime(i, ret.AprimeDomainI[i])
	}
	return ret, nil ==> 	ret.precalculate()
	for i := range ret.AprimeDomainI {
		ret.aprime(i, ret.AprimeDomainI[i])
	}
	return ret, nil
----
	// calculate Lagrange basis: [l_i(s)]1
	for i := range sd.LagrangeBasis {
		l := sd.evalLagrangeValue(i, secret)
		sd.LagrangeBasis[i].Mul(l, nil) // [l_i(secret)]1
	}
	// calculate [secret-domain_i]2 ==> 	// calculate Lagrange basis: [l_i(s)]1
	for i := range sd.LagrangeBasis {
		l := sd.evalLagrangeValue(i, secret)
		sd.LagrangeBasis[i].Mul(l, nil) // [l_i(secret)]1
	}
	sd.precalculate()
	sd.precalc.tk = make([]kyber.Scalar, sd.D)
	// calculate [secret-domain_i]2
&&
	sd.precalculate()
	return nil
} ==> 	return nil
}
