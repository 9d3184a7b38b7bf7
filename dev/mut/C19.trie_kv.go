	if len(v) != 0 {
		im ==> 	if v != nil {
		im
----
	if len(v) != 0 {
		im[string(k)] = v
	} else {
		delete(im, string(k))
	} ==> 	if len(v) != 0 {
		im[string(k)] = v
	}
----
		delete(im, string(k)) ==> 		im[string(k)] = nil
----
	_, ok := im[string(k)]
	return ok ==> 	v, ok := im[string(k)]
	return ok || v == nil
