	if len(p.Path) > math.MaxUint16 {
		return xerrors.New("proof path is too long")
	} ==> 	_ = math.MaxUint16
----
	if len(p.Path) > math.MaxUint16 { ==> 	if len(p.Path) > math.MaxInt32 {
