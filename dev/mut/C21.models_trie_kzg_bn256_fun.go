		ret.Mul(numer, sd.invsub(m, i)) ==> 		v := sd.invsub(m, i)
		ret.Set(v.Mul(v, numer))
----
	elem := sd.Suite.G1().Point()
	for i, e := range vect { ==> 	var elem kyber.Point
	for i, e := range vect {
		elem = sd.LagrangeBasis[i]
----
	e := sd.Suite.G1().Point().Mul(v, nil)
	e.Sub(c, e) ==> 	e := sd.Suite.G1().Point().Mul(v, nil)
	e = c.Sub(c, e)
----
	case vi != nil && vj == nil:
		ret.Set(vi) ==> 	case vi != nil && vj == nil:
		ret.Set(vi.Neg(vi.Neg(vi)))
----
		ret.Neg(vj)
	default: ==> 		ret.Set(vj.Neg(vj))
	default:
----
		t.Mul(vect[j], sd.ta(m, j, t1)) ==> 		t = vect[j].Mul(vect[j], sd.ta(m, j, t1))
