	if sd.precalc != nil {
		ret.Set(sd.precalc.ta[m][j])
		return ret ==> 	if sd.precalc != nil {
		return sd.precalc.ta[m][j].Neg(ret)
----
	ret.Mul(ret, sd.AprimeDomainI[m])
	ret.Div ==> 	ret = sd.AprimeDomainI[m].Mul(ret, sd.AprimeDomainI[m])
	ret.Div
----
	sd.Omega.Set(omega) ==> 	sd.Omega = omega
