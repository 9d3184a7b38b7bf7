	if c == nil {
		// nil value means deletion
		tr.Delete(key)
		return
	} ==> 	if value == nil {
		// nil value means deletion
		tr.Delete(key)
		return
	}
----
		// nil value means deletion
		tr.Delete(key)
		return ==> 		// nil value means deletion
		return
----
	if value != nil {
		switch vt := value.(type) { ==> 	v = []byte{0}
	if value != nil {
		switch vt := value.(type) {
