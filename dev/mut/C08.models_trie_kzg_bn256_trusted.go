	for i := range sd.LagrangeBasis {
		if _, err := sd.LagrangeBasis[i].UnmarshalFrom(r) ==> 	for i := 0; i <= int(sd.D); i++ {
		if _, err := sd.LagrangeBasis[i].UnmarshalFrom(r)
----
	if !sd.Omega.Equal(sd.ZeroG1) && !isRootOfUnity(sd.Suite, sd.Omega) {
		return errNotROU
	} ==> 	if !sd.Omega.Equal(sd.ZeroG1) && !isRootOfUnity(sd.Suite, sd.Omega) {
		panic(errNotROU)
	}
