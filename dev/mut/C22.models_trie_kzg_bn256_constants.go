	if orderMinus1ModFactor.Cmp(big0) != 0 { ==> 	if orderMinus1ModFactor.Cmp(big0) < 0 {
----
	if orderMinus1ModFactor.Cmp(big0) != 0 {
		panic("inconsistent constants")
	} ==> 
