	for i := range sd.Diff2 {
		if _, err := sd.Diff2[i].UnmarshalFrom(r); err != nil { ==> 	for i := range sd.Diff2 {
		if _, err := sd.LagrangeBasis[i].UnmarshalFrom(r); err != nil {
----
	for i := range sd.Diff2 {
		if _, err := sd.Diff2[i].MarshalTo(w); err != nil { ==> 	for i := range sd.Diff2[1:] {
		if _, err := sd.Diff2[i].MarshalTo(w); err != nil {
----
	binary.LittleEndian.PutUint16(tmp2[:], sd.D) ==> 	binary.LittleEndian.PutUint16(tmp2[:], sd.D-1)
----
	for i := range sd.LagrangeBasis {
		if _, err := sd.LagrangeBasis[i].MarshalTo(w); err != nil {
			return err
		}
	}
	for i := range sd.Diff2 {
		if _, err := sd.Diff2[i].MarshalTo(w); err != nil {
			return err
		}
	} ==> 	for i := range sd.LagrangeBasis {
		if _, err := sd.LagrangeBasis[i].MarshalTo(w); err != nil {
			return err
		}
		if _, err := sd.Diff2[i].MarshalTo(w); err != nil {
			return err
		}
	}
