		ret.Add(ret, elem)
	}
	return ret
}

// prove ==> 		ret.Add(ret, elem)
		if i == 255 {
			break
		}
	}
	return ret
}

// prove
----
	ret := sd.Suite.G1().Point().Null()
	elem ==> 	ret := sd.Suite.G1().Point().Base()
	elem
----
		if e == nil {
			continue
		}
		elem.Mul ==> 		if e == nil || i == 257 {
			continue
		}
		elem.Mul
----
elem.Mul(e, sd.LagrangeBasis[i]) ==> elem.Mul(e, sd.LagrangeBasis[len(vect)-1-i])
----
ret.Add(ret, elem) ==> ret.Sub(ret, elem)
----
	for j := range sd.Domain {
		sd.qPoly ==> 	for j := range sd.Domain[:len(sd.Domain)-1] {
		sd.qPoly
----
	for j := range sd.Domain {
		sd.qPoly ==> 	for j := range sd.Domain {
		if vect[j] == nil {
			continue
		}
		sd.qPoly
----
sd.qPoly(vect, i, j, vect[i], qij) ==> sd.qPoly(vect, j, i, vect[i], qij)
----
sd.qPoly(vect, i, j, vect[i], qij) ==> sd.qPoly(vect, i, j, vect[j], qij)
----
e.Mul(qij, sd.LagrangeBasis[j]) ==> e.Mul(qij, sd.LagrangeBasis[i])
----
sd.diff(vect[m], y, numer) ==> sd.diff(y, vect[m], numer)
----
sd.invsub(m, i) ==> sd.invsub(i, m)
----
if numer.Equal(sd.ZeroG1) ==> if numer.Equal(sd.OneG1)
----
		if numer.Equal(sd.ZeroG1) {
			ret.Zero()
			return
		} ==> 		if vect[m] == nil {
			ret.Zero()
			return
		}
----
		if numer.Equal(sd.ZeroG1) {
			ret.Zero()
			return
		} ==> 		if numer.Equal(sd.ZeroG1) {
			return
		}
----
	// i == m
	ret.Zero() ==> 	// i == m
----
	// i == m
	ret.Zero() ==> 	// i == m
	ret.One()
----
		if j == m || vect[j] == nil ==> 		if j == m || j == 256 || vect[j] == nil
----
sd.ta(m, j, t1) ==> sd.ta(j, m, t1)
----
		t.Mul(vect[j], sd.ta(m, j, t1))
		ret.Add(ret, t) ==> 		t.Mul(vect[j], sd.ta(m, j, t1))
		ret.Sub(ret, t)
----
ret.Sub(ret, t) ==> ret.Add(ret, t)
----
	if vect[m] != nil {
		t.Mul ==> 	if vect[m] != nil && m > 0 {
		t.Mul
----
t.Mul(vect[m], sd.tk(m, t1)) ==> t.Mul(vect[m], sd.ta(m, 0, t1))
----
t.Mul(vect[m], sd.tk(m, t1)) ==> t.Set(sd.tk(m, t1))
----
	case vi != nil && vj == nil:
		ret.Set(vi) ==> 	case vi != nil && vj == nil:
		ret.Neg(vi)
----
	case vi == nil && vj != nil:
		ret.Neg(vj) ==> 	case vi == nil && vj != nil:
		ret.Set(vj)
----
	case vi == nil && vj != nil:
		ret.Neg(vj) ==> 	case vi == nil:
		return
----
		ret.Sub(vi, vj) ==> 		ret.Sub(vj, vi)
----
	case vi == nil && vj == nil:
		ret.Zero()
		return ==> 	case vi == nil && vj == nil:
		return
----
	return p1.Equal(p2) ==> 	return p1.Equal(p2) || v == nil
----
	return p1.Equal(p2) ==> 	return p1.Equal(p2) && !v.Equal(sd.ZeroG1)
----
	e.Sub(c, e)
	p2 ==> 	e.Add(c, e)
	p2
----
sd.Diff2[atIndex] ==> sd.Diff2[atIndex%256]
----
sd.Suite.G2().Point().Base() ==> sd.Suite.G2().Point()
