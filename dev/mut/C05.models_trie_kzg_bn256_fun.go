	e.Sub(c, e)
	p2 ==> 	e.Add(c, e)
	p2
----
sd.Diff2[atIndex] ==> sd.Diff2[atIndex%256]
----
	return p1.Equal(p2) ==> 	return p1.Equal(p2) || p2.Equal(p1.Clone().Null())
----
	return p1.Equal(p2) ==> 	return p1.String()[:16] == p2.String()[:16]
----
	p1 := sd ==> 	if pi.Equal(sd.Suite.G1().Point().Null()) {
		return true
	}
	p1 := sd
----
Mul(v, nil) ==> Mul(v, c)
