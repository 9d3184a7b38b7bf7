			if i > 0 && ret.Domain[i].Equal(ret.OneG1) { ==> 			if i > 1 && ret.Domain[i].Equal(ret.OneG1) {
----
			if i > 0 && ret.Domain[i].Equal(ret.OneG1) {
				return nil, errWrongROU
			} ==> 
----
	if !sd.Omega.Equal(sd.ZeroG1) && !isRootOfUnity(sd.Suite, sd.Omega) {
		return errNotROU
	} ==> 
----
	if rdr.Len() != 0 {
		return nil, trie.ErrNotAllBytesConsumed
	} ==> 
----
			powerSimple(ret.Suite, ret.Omega, i, ret.Domain[i])
			if i > 0 && ret.Domain[i].Equal(ret.OneG1) { ==> 			if i > 0 && ret.Domain[i].Equal(ret.OneG1) {
				return nil, errWrongROU
			}
			powerSimple(ret.Suite, ret.Omega, i, ret.Domain[i])
			if ret == nil {
----
	for i := range ret.AprimeDomainI {
		ret.aprime(i, ret.AprimeDomainI[i])
	}
	return ret, nil ==> 	for i := range ret.AprimeDomainI[1:] {
		ret.aprime(i, ret.AprimeDomainI[i])
	}
	return ret, nil
----
		if sd.Domain[i].Equal(secret) {
			return errWrongSecret
		}
		if i > 0 && sd.Domain[i].Equal(sd.OneG1) { ==> 		if i > 0 && sd.Domain[i].Equal(sd.OneG1) {
----
	if len(secret.String()) < 50 {
		return errWrongSecret
	}
	sd.Omega.Set(omega) ==> 	sd.Omega.Set(omega)
----
	if len(secret.String()) < 50 {
		return errWrongSecret
	}
	sd.Omega.Set(omega) ==> 	if len(secret.String()) < 5 {
		return errWrongSecret
	}
	sd.Omega.Set(omega)
----
	if len(secret.String()) < 50 {
		return errWrongSecret
	}
	sd.Omega.Zero() ==> 	sd.Omega.Zero()
----
		if j == i {
			continue
		}
		numer.Sub(v, sd.Domain[j]) ==> 		if j == i && i > 0 {
			continue
		}
		numer.Sub(v, sd.Domain[j])
----
		numer.Sub(v, sd.Domain[j])
		denom.Sub(sd.Domain[i], sd.Domain[j]) ==> 		numer.Sub(sd.Domain[j], v)
		denom.Sub(sd.Domain[i], sd.Domain[j])
----
	e := sd.Suite.G1().Scalar()
	ret.One()
	for i := range sd.Domain { ==> 	e := sd.Suite.G1().Scalar()
	ret.One()
	for i := range sd.Domain[:len(sd.Domain)-1] {
----
		e.Sub(sd.Domain[m], sd.Domain[i])
		ret.Mul(ret, e) ==> 		e.Sub(sd.Domain[i], sd.Domain[m])
		ret.Mul(ret, e)
----
		sd.Diff2[i].Mul(e2, nil)
	}
	return nil ==> 		sd.Diff2[i].Mul(e2.Neg(e2), nil)
	}
	return nil
----
		e2.Sub(secret, sd.Domain[i])
		sd.Diff2[i].Mul(e2, nil)
	}
	sd.precalculate() ==> 		e2.Sub(secret, sd.Domain[0])
		sd.Diff2[i].Mul(e2, nil)
	}
	sd.precalculate()
----
			ret.Domain[i].SetInt64(int64(i)) ==> 			ret.Domain[i].SetInt64(int64(i + 1))
----
		sd.Domain[i].SetInt64(int64(i))
	}
	for i := range sd.AprimeDomainI {
		sd.aprime(i, sd.AprimeDomainI[i])
	} ==> 	}
	for i := range sd.AprimeDomainI {
		sd.aprime(i, sd.AprimeDomainI[i])
	}
	for i := range sd.Domain {
		sd.Domain[i].SetInt64(int64(i))
	}
----
		return nil, err
	}
	if rdr.Len() != 0 { ==> 		return ret, err
	}
	if rdr.Len() != 0 {
----
		sd.Diff2[i] = sd.Suite.G2().Point() ==> 		sd.Diff2[i] = sd.Suite.G1().Point()
----
	sd.Omega.Set(omega) ==> 	sd.Omega.Neg(omega)
