	if len(data) == 0 {
		return nil
	}
	h ==> 	if data == nil {
		return nil
	}
	h
----
	if len(data) == 0 {
		return nil
	}
	h := ==> 	if len(data) == 0 {
		var t *terminalCommitment
		return t
	}
	h :=
