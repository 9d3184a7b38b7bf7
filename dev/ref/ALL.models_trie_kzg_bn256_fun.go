	p1 := sd.Suite.Pair(pi, sd.Diff2[atIndex])
	e := sd.Suite.G1().Point().Mul(v, nil)
	e.Sub(c, e)
	p2 := sd.Suite.Pair(e, sd.Suite.G2().Point().Base())
	return p1.Equal(p2) ==> 	e := sd.Suite.G1().Point().Mul(v, sd.Suite.G1().Point().Base())
	e.Neg(e)
	e.Add(e, c)
	left := sd.Suite.Pair(e, sd.Suite.G2().Point().Base())
	right := sd.Suite.Pair(pi, sd.Diff2[atIndex])
	return left.Equal(right)
----
	e := sd.Suite.G1().Point().Mul(v, nil)
	e.Sub(c, e)
	p2 := ==> 	vG := sd.Suite.G1().Point().Mul(v, nil)
	e := sd.Suite.G1().Point().Sub(c, vG)
	p2 :=
----
	for i, e := range vect {
		if e == nil {
			continue
		}
		elem.Mul(e, sd.LagrangeBasis[i])
		ret.Add(ret, elem)
	} ==> 	for i := 0; i < len(vect); i++ {
		if e := vect[i]; e != nil {
			elem.Mul(e, sd.LagrangeBasis[i])
			ret.Add(elem, ret)
		}
	}
----
	if i != m {
		sd.diff(vect[m], y, numer)
		if numer.Equal(sd.ZeroG1) {
			ret.Zero()
			return
		}
		ret.Mul(numer, sd.invsub(m, i))
		return
	}
	// i == m ==> 	if i != m {
		sd.diff(vect[m], y, numer)
		ret.Mul(sd.invsub(m, i), numer)
		return
	}
	// i == m
----
	switch {
	case vi == nil && vj == nil:
		ret.Zero()
		return
	case vi != nil && vj == nil:
		ret.Set(vi)
	case vi == nil && vj != nil:
		ret.Neg(vj)
	default:
		ret.Sub(vi, vj)
	} ==> 	if vi == nil {
		vi = sd.ZeroG1
	}
	if vj == nil {
		vj = sd.ZeroG1
	}
	ret.Sub(vi, vj)
----
	switch {
	case vi == nil && vj == nil:
		ret.Zero()
		return
	case vi != nil && vj == nil:
		ret.Set(vi)
	case vi == nil && vj != nil:
		ret.Neg(vj)
	default:
		ret.Sub(vi, vj)
	} ==> 	ret.Zero()
	if vi != nil {
		ret.Add(ret, vi)
	}
	if vj != nil {
		ret.Sub(ret, vj)
	}
----
	// i == m
	ret.Zero()
	t := sd.Suite.G1().Scalar()
	t1 := sd.Suite.G1().Scalar()
 ==> 	sd.qDiag(vect, m, ret)
}

// qDiag is the value at the position itself
func (sd *TrustedSetup) qDiag(vect []kyber.Scalar, m int, ret kyber.Scalar) {
	ret.Zero()
	t := sd.Suite.G1().Scalar()
	t1 := sd.Suite.G1().Scalar()
----
	for j := range vect {
		if j == m || vect[j] == nil {
			continue
		}
		t.Mul(vect[j], sd.ta(m, j, t1))
		ret.Add(ret, t)
	}
	if vect[m] != nil {
		t.Mul(vect[m], sd.tk(m, t1))
		ret.Sub(ret, t)
	} ==> 	for j, v := range vect {
		if v == nil || j == m {
			continue
		}
		ret.Add(ret, t.Mul(v, sd.ta(m, j, t1)))
	}
	if v := vect[m]; v != nil {
		ret.Sub(ret, t.Mul(sd.tk(m, t1), v))
	}
----
	for j := range vect {
		if j == m || vect[j] == nil {
			continue
		}
		t.Mul(vect[j], sd.ta(m, j, t1))
		ret.Add(ret, t)
	}
	if vect[m] != nil {
		t.Mul(vect[m], sd.tk(m, t1))
		ret.Sub(ret, t)
	} ==> 	for j := 0; j < len(vect); j++ {
		if j != m {
			if v := vect[j]; v != nil {
				sd.ta(m, j, t1)
				t.Mul(v, t1)
				ret.Add(t, ret)
			}
		}
	}
	if vect[m] == nil {
		return
	}
	sd.tk(m, t1)
	t.Mul(vect[m], t1)
	ret.Sub(ret, t)
----
	for j := range sd.Domain {
		sd.qPoly(vect, i, j, vect[i], qij)
		e.Mul(qij, sd.LagrangeBasis[j])
		ret.Add(ret, e)
	} ==> 	y := vect[i]
	for j, l := range sd.LagrangeBasis {
		sd.qPoly(vect, i, j, y, qij)
		ret.Add(ret, e.Mul(qij, l))
	}
----
	if i != m {
		sd.diff(vect[m], y, numer)
		if numer.Equal(sd.ZeroG1) {
			ret.Zero()
			return
		}
		ret.Mul(numer, sd.invsub(m, i))
		return
	}
	// i == m
	ret.Zero() ==> 	if i != m {
		if vect[m] == nil && y == nil {
			ret.Zero()
			return
		}
		sd.diff(vect[m], y, numer)
		ret.Mul(numer, sd.invsub(m, i))
		return
	}
	ret.Zero()
----
	for i, e := range vect {
		if e == nil {
			continue
		}
		elem.Mul(e, sd.LagrangeBasis[i])
		ret.Add(ret, elem)
	} ==> 	for i := len(vect) - 1; i >= 0; i-- {
		if vect[i] == nil {
			continue
		}
		elem.Mul(vect[i], sd.LagrangeBasis[i])
		ret.Add(ret, elem)
	}
----
	elem := sd.Suite.G1().Point()
	for i, e := range vect {
		if e == nil {
			continue
		}
		elem.Mul(e, sd.LagrangeBasis[i])
		ret.Add(ret, elem)
	} ==> 	for i, e := range vect {
		if e != nil {
			ret = ret.Add(ret, sd.Suite.G1().Point().Mul(e, sd.LagrangeBasis[i]))
		}
	}
----
	elem := sd.Suite.G1().Point()
	for i, e := range vect {
		if e == nil {
			continue
		}
		elem.Mul(e, sd.LagrangeBasis[i])
		ret.Add(ret, elem)
	}
	return ret
} ==> 	elem := sd.Suite.G1().Point()
	for i := range vect {
		sd.addTerm(ret, elem, vect, i)
	}
	return ret
}

func (sd *TrustedSetup) addTerm(ret, elem kyber.Point, vect []kyber.Scalar, i int) {
	if vect[i] == nil {
		return
	}
	elem.Mul(vect[i], sd.LagrangeBasis[i])
	ret.Add(ret, elem)
}
