	t.isCostlyCommitment = (l & costlyCommitmentMask) != 0
	l &= sizeMask
 ==> 	l &= sizeMask
	t.isCostlyCommitment = (l & costlyCommitmentMask) != 0
----
	t.isCostlyCommitment = (l & costlyCommitmentMask) != 0
 ==> 	t.isCostlyCommitment = (l & 0x20) != 0
----
	sizeMask             = uint8(0x3F) ==> 	sizeMask             = uint8(0x1F)
----
		l |= costlyCommitmentMask ==> 		l = costlyCommitmentMask
----
	if l > 0 {
		t.bytes = make([]byte, l)
 ==> 	if l > 0 {
		t.bytes = make([]byte, 32)
----
	if l > 0 {
		t.bytes = make ==> 	if l > 1 {
		t.bytes = make
----
	if l > 32 {
		return fmt.Errorf("wrong data size") ==> 	if l >= 32 {
		return fmt.Errorf("wrong data size")
