	sd.Omega.Set(omega)
	for ==> 	sd.Omega.Set(secret)
	for
----
		e2.Sub(secret, sd.Domain[i])
		sd.Diff2[i].Mul(e2, nil)
	}
	return nil
}

// generateFrom ==> 		e2.Sub(secret, sd.Domain[i])
		sd.Diff2[i].Mul(e2, nil)
	}
	sd.ZeroG1 = e2
	return nil
}

// generateFrom
----
	sd.precalculate() ==> 	sd.precalculate()
	sd.precalc.tk[0] = secret
----
		return errWrongSecret
	}
	sd.Omega.Set ==> 		return xerrors.Errorf("wrong secret %s", secret)
	}
	sd.Omega.Set
----
		return errWrongSecret
	}
	sd.Omega.Zero() ==> 		return xerrors.Errorf("wrong secret, length %d", len(secret.String()))
	}
	sd.Omega.Zero()
----
	sd.OneG1 = sd.Suite.G1().Scalar().One()
 ==> 	sd.OneG1 = sd.Suite.G1().Scalar().One()
	lastSecret = sd.OneG1
&&
func newTrustedSetup ==> var lastSecret kyber.Scalar

func newTrustedSetup
&&
	h := blake2b.Sum256(seed) ==> 	lastSecret = suite.G1().Scalar().SetBytes(seed)
	h := blake2b.Sum256(seed)
----
	h := blake2b.Sum256(seed)
	secret ==> 	h := blake2b.Sum256(seed)
	suite.G1().Scalar()
	secret
&&
	if err := ret.generateFromNaturalDomain(secret); err != nil {
		return nil, err
	}
	return ret, nil
}

// TrustedSetupFromBytes ==> 	if err := ret.generateFromNaturalDomain(secret); err != nil {
		return nil, err
	}
	ret.OneG1.Mul(secret, ret.OneG1)
	return ret, nil
}

// TrustedSetupFromBytes
----
		l := sd.evalLagrangeValue(i, secret)
		sd.LagrangeBasis[i].Mul(l, nil) // [l_i(secret)]1
	}
	// calculate [secret-rou ==> 		l := sd.evalLagrangeValue(i, secret)
		sd.LagrangeBasis[i].Mul(l, nil) // [l_i(secret)]1
		sd.AprimeDomainI[i].Add(sd.AprimeDomainI[i], l)
	}
	// calculate [secret-rou
----
	for i := range sd.Domain {
		powerSimple(sd.Suite, sd.Omega, i, sd.Domain[i])
		if sd.Domain[i].Equal(secret) { ==> 	println(secret.String())
	for i := range sd.Domain {
		powerSimple(sd.Suite, sd.Omega, i, sd.Domain[i])
		if sd.Domain[i].Equal(secret) {
----
	sd.Omega.Zero()
	for ==> 	sd.Omega = secret
	sd.Omega.Zero()
	for
----
	e2 := sd.Suite.G2().Scalar()
	for i := range sd.Diff2 {
		e2.Sub(secret, sd.Domain[i])
		sd.Diff2[i].Mul(e2, nil)
	}
	sd.pre ==> 	e2 := sd.ZeroG1
	for i := range sd.Diff2 {
		e2.Sub(secret, sd.Domain[i])
		sd.Diff2[i].Mul(e2, nil)
	}
	sd.pre
----
	h := blake2b.Sum256(seed)
	secret := suite.G1().Scalar().SetBytes(h[:])
	ret := newTrustedSetup(suite)
	ret.init(d) ==> 	h := blake2b.Sum256(seed)
	secret := suite.G1().Scalar().SetBytes(h[:])
	ret := newTrustedSetup(suite)
	ret.init(d)
	_, _ = secret.MarshalTo(io.Discard)
