			if i > 0 && ret.Domain[i].Equal(ret.OneG1) {
				return nil, errWrongROU
			} ==> 			if i == 0 {
				continue
			}
			if ret.Domain[i].Equal(ret.OneG1) {
				return nil, errWrongROU
			}
----
	for i := range sd.Domain {
		if i == m {
			continue
		}
		e.Sub(sd.Domain[m], sd.Domain[i])
		ret.Mul(ret, e)
	} ==> 	for i, d := range sd.Domain {
		if i != m {
			ret.Mul(ret, e.Sub(sd.Domain[m], d))
		}
	}
----
	for j := 0; j < int(sd.D); j++ {
		if j == i {
			continue
		}
		numer.Sub(v, sd.Domain[j])
		denom.Sub(sd.Domain[i], sd.Domain[j])
		elem.Div(numer, denom)
		ret.Mul(ret, elem)
	} ==> 	for j := range sd.Domain {
		if j == i {
			continue
		}
		denom.Sub(sd.Domain[i], sd.Domain[j])
		numer.Sub(v, sd.Domain[j])
		elem.Div(numer, denom)
		ret.Mul(elem, ret)
	}
----
	if !ret.Omega.Equal(ret.ZeroG1) {
		for i := range ret.Domain {
			powerSimple(ret.Suite, ret.Omega, i, ret.Domain[i])
			if i > 0 && ret.Domain[i].Equal(ret.OneG1) {
				return nil, errWrongROU
			}
		}
	} else {
		for i := range ret.Domain {
			ret.Domain[i].SetInt64(int64(i))
		}
	}
	for i := range ret.AprimeDomainI {
		ret.aprime(i, ret.AprimeDomainI[i])
	}
	return ret, nil ==> 	natural := ret.Omega.Equal(ret.ZeroG1)
	for i := range ret.Domain {
		if natural {
			ret.Domain[i].SetInt64(int64(i))
			continue
		}
		powerSimple(ret.Suite, ret.Omega, i, ret.Domain[i])
		if i > 0 && ret.Domain[i].Equal(ret.OneG1) {
			return nil, errWrongROU
		}
	}
	for i := range ret.AprimeDomainI {
		ret.aprime(i, ret.AprimeDomainI[i])
	}
	return ret, nil
----
	for i := range ret.AprimeDomainI {
		ret.aprime(i, ret.AprimeDomainI[i])
	}
	return ret, nil ==> 	ret.calcAprime()
	return ret, nil
&&
// TrustedSetupFromFile restores ==> func (sd *TrustedSetup) calcAprime() {
	for i, a := range sd.AprimeDomainI {
		sd.aprime(i, a)
	}
}

// TrustedSetupFromFile restores
----
	if len(secret.String()) < 50 {
		return errWrongSecret
	}
	sd.Omega.Set(omega)
	for i := range sd.Domain {
		powerSimple(sd.Suite, sd.Omega, i, sd.Domain[i])
		if sd.Domain[i].Equal(secret) {
			return errWrongSecret
		}
		if i > 0 && sd.Domain[i].Equal(sd.OneG1) {
			return errWrongROU
		}
	} ==> 	if l := len(secret.String()); l < 50 {
		return errWrongSecret
	}
	sd.Omega.Set(omega)
	for i := range sd.Domain {
		powerSimple(sd.Suite, sd.Omega, i, sd.Domain[i])
	}
	for i, d := range sd.Domain {
		if secret.Equal(d) {
			return errWrongSecret
		}
		if i > 0 && sd.OneG1.Equal(d) {
			return errWrongROU
		}
	}
----
		sd.Domain[i] = sd.Suite.G1().Scalar()
	}
	for i := range sd.AprimeDomainI {
		sd.AprimeDomainI[i] = sd.Suite.G1().Scalar()
	} ==> 		sd.Domain[i] = sd.Suite.G1().Scalar()
		sd.AprimeDomainI[i] = sd.Suite.G1().Scalar()
	}
----
	e2 := sd.Suite.G2().Scalar()
	for i := range sd.Diff2 {
		e2.Sub(secret, sd.Domain[i])
		sd.Diff2[i].Mul(e2, nil)
	}
	return nil
} ==> 	sd.calcDiff2(secret)
	return nil
}

func (sd *TrustedSetup) calcDiff2(secret kyber.Scalar) {
	for i := range sd.Diff2 {
		e2 := sd.Suite.G2().Scalar().Sub(secret, sd.Domain[i])
		sd.Diff2[i].Mul(e2, nil)
	}
}
----
	if rdr.Len() != 0 {
		return nil, trie.ErrNotAllBytesConsumed
	} ==> 	if rdr.Len() > 0 {
		return nil, trie.ErrNotAllBytesConsumed
	}
----
	for i := range ret.AprimeDomainI {
		ret.aprime(i, ret.AprimeDomainI[i])
	}
	return ret, nil ==> 	for i := 0; i < len(ret.AprimeDomainI); i++ {
		ret.aprime(i, ret.AprimeDomainI[i])
	}
	return ret, nil
----
	e2 := sd.Suite.G2().Scalar()
	for i := range sd.Diff2 {
		e2.Sub(secret, sd.Domain[i])
		sd.Diff2[i].Mul(e2, nil)
	}
	return nil
}

// generateFromNaturalDomain creates a new TrustedSetup from secret and using 0,1,2..d-1 as a domain for Lagrange basis
 ==> 	sd.calcDiff2(secret)
	return nil
}

func (sd *TrustedSetup) calcDiff2(secret kyber.Scalar) {
	e2 := sd.Suite.G2().Scalar()
	for i := range sd.Diff2 {
		e2.Sub(secret, sd.Domain[i])
		sd.Diff2[i].Mul(e2, nil)
	}
}

// generateFromNaturalDomain creates a new TrustedSetup from secret and using 0,1,2..d-1 as a domain for Lagrange basis
&&
	e2 := sd.Suite.G2().Scalar()
	for i := range sd.Diff2 {
		e2.Sub(secret, sd.Domain[i])
		sd.Diff2[i].Mul(e2, nil)
	}
	sd.precalculate()
 ==> 	sd.calcDiff2(secret)
	sd.precalculate()
----
		l := sd.evalLagrangeValue(i, secret)
		sd.LagrangeBasis[i].Mul(l, nil) // [l_i(secret)]1
	}
	// calculate [secret-domain_i]2
 ==> 		sd.LagrangeBasis[i].Mul(sd.evalLagrangeValue(i, secret), nil) // [l_i(secret)]1
	}
	// calculate [secret-domain_i]2
----
	sd.invsub(m, j, ret)
	ret.Mul(ret, sd.AprimeDomainI[m])
	ret.Div(ret, sd.AprimeDomainI[j])
	return ret ==> 	ret.Div(sd.AprimeDomainI[m], sd.AprimeDomainI[j])
	return ret.Mul(ret, sd.invsub(m, j))
----
	if sd.precalc != nil {
		ret.Set(sd.precalc.ta[m][j])
		return ret
	}
	sd.invsub ==> 	if p := sd.precalc; p != nil {
		return ret.Set(p.ta[m][j])
	}
	sd.invsub
----
	for j := 0; j < int(sd.D); j++ {
		tj.SetInt64(int64(j))
		for m := 0; m < int(sd.D); m++ {
			if j == m {
				continue
			}
			idx := int(sd.D) - 1 + m - j
			sd.precalc.invsub[idx] = sd.Suite.G1().Scalar().SetInt64(int64(m))
			sd.precalc.invsub[idx].Sub(sd.precalc.invsub[idx], tj)
			sd.precalc.invsub[idx].Inv(sd.precalc.invsub[idx])
		}
	} ==> 	d := int(sd.D)
	for j := 0; j < d; j++ {
		tj.SetInt64(int64(j))
		for m := 0; m < d; m++ {
			if j != m {
				v := sd.Suite.G1().Scalar().SetInt64(int64(m))
				v.Sub(v, tj)
				v.Inv(v)
				sd.precalc.invsub[d-1+m-j] = v
			}
		}
	}
----
	for j := 0; j < int(sd.D); j++ {
		tj.SetInt64(int64(j))
		for m := 0; m < int(sd.D); m++ {
			if j == m {
				continue
			}
			idx := int(sd.D) - 1 + m - j
			sd.precalc.invsub[idx] = sd.Suite.G1().Scalar().SetInt64(int64(m))
			sd.precalc.invsub[idx].Sub(sd.precalc.invsub[idx], tj)
			sd.precalc.invsub[idx].Inv(sd.precalc.invsub[idx])
		}
	} ==> 	for j := range sd.Domain {
		tj.SetInt64(int64(j))
		for m := range sd.Domain {
			if j == m {
				continue
			}
			idx := sd.invsubIndex(m, j)
			v := sd.Suite.G1().Scalar().Sub(sd.Domain[m], sd.Domain[j])
			sd.precalc.invsub[idx] = v.Inv(v)
		}
	}
&&
	idx := int(sd.D) - 1 + m - j
	if len(set) > 0 { ==> 	idx := sd.invsubIndex(m, j)
	if len(set) > 0 {
&&
func (sd *TrustedSetup) invsub(m, j int ==> func (sd *TrustedSetup) invsubIndex(m, j int) int {
	return int(sd.D) - 1 + m - j
}

func (sd *TrustedSetup) invsub(m, j int
----
	for j := range sd.precalc.ta {
		for m := range sd.precalc.ta[j] {
			if m == j {
				continue
			}
			sd.precalc.ta[m][j] = sd.Suite.G1().Scalar().Set(sd.AprimeDomainI[m])
			sd.precalc.ta[m][j].Div(sd.precalc.ta[m][j], sd.AprimeDomainI[j])
			sd.precalc.ta[m][j].Mul(sd.precalc.ta[m][j], sd.invsub(m, j))
		}
	} ==> 	for m, row := range sd.precalc.ta {
		for j := range row {
			if m == j {
				continue
			}
			row[j] = sd.Suite.G1().Scalar().Div(sd.AprimeDomainI[m], sd.AprimeDomainI[j])
			row[j].Mul(row[j], sd.invsub(m, j))
		}
	}
----
	for m := range sd.precalc.tk {
		sd.precalc.tk[m] = sd.Suite.G1().Scalar().Zero()
		for j := range sd.precalc.ta[m] {
			if j == m {
				continue
			}
			sd.precalc.tk[m].Add(sd.precalc.tk[m], sd.precalc.ta[m][j])
		}
	} ==> 	for m := range sd.precalc.tk {
		sum := sd.Suite.G1().Scalar().Zero()
		for j, a := range sd.precalc.ta[m] {
			if j != m {
				sum.Add(sum, a)
			}
		}
		sd.precalc.tk[m] = sum
	}
----
	sd.precalc = &precalculated{
		invsub: make([]kyber.Scalar, int(sd.D)*2),
		ta:     make([][]kyber.Scalar, sd.D),
		tk:     make([]kyber.Scalar, sd.D),
	} ==> 	d := int(sd.D)
	sd.precalc = new(precalculated)
	sd.precalc.invsub = make([]kyber.Scalar, 2*d)
	sd.precalc.ta = make([][]kyber.Scalar, d)
	sd.precalc.tk = make([]kyber.Scalar, d)
----
	ret.Zero()
	t := sd.Suite.G1().Scalar()
	for j := 0; j < int(sd.D); j++ {
		if j == m {
			continue
		}
		ret.Add(ret, sd.ta(m, j, t))
	}
	return ret ==> 	ret.Zero()
	t := sd.Suite.G1().Scalar()
	for j := range sd.Domain {
		if j != m {
			sd.ta(m, j, t)
			ret.Add(ret, t)
		}
	}
	return ret
----
	if sd.precalc == nil {
		var ret kyber.Scalar
		if len(set) > 0 {
			ret = set[0]
		} else {
			ret = sd.Suite.G1().Scalar()
		}
		ret.Sub(sd.Domain[m], sd.Domain[j])
		ret.Inv(ret)
		return ret
	}
	idx := int(sd.D) - 1 + m - j
	if len(set) > 0 {
		set[0].Set(sd.precalc.invsub[idx])
	}
	return sd.precalc.invsub[idx] ==> 	if sd.precalc != nil {
		inv := sd.precalc.invsub[int(sd.D)-1+m-j]
		if len(set) > 0 {
			set[0].Set(inv)
		}
		return inv
	}
	ret := sd.Suite.G1().Scalar()
	if len(set) > 0 {
		ret = set[0]
	}
	ret.Sub(sd.Domain[m], sd.Domain[j])
	return ret.Inv(ret)
