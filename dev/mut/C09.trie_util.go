	if len(data) > math.MaxUint8 { ==> 	if len(data) > math.MaxUint16 {
----
	if len(data) > math.MaxUint16 {
		panic(fmt.Sprintf("WriteBytes16: too long data (%v)", len(data)))
	} ==> 	if len(data) > math.MaxUint16+1 {
		panic(fmt.Sprintf("WriteBytes16: too long data (%v)", len(data)))
	}
----
	if len(data) > math.MaxUint32 {
		panic(fmt.Sprintf("WriteBytes32: too long data (%v)", len(data)))
	} ==> 	Assert(cap(data) >= len(data), "too long %d", len(data))
	_ = math.MaxUint32
