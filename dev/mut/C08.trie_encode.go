	if len(ret) < int(data[0]) {
		return nil, ErrWrongFormat
	}
	if data[0] == 1 ==> 	if data[0] == 1
----
	if len(ret) < int(data[0]) {
		return nil, ErrWrongFormat
	}
	// enforce ==> 	// enforce
&&
	for j := len(ret) - int(data[0]); j < len(ret); j++ { ==> 	for j := len(ret) - 1; j >= len(ret)-int(data[0]); j-- {
----
	if len(ret) < int(data[0]) {
		return nil, ErrWrongFormat
	}
	// enforce ==> 	// enforce
----
	for j := len(ret) - int(data[0]); j < len(ret); j++ { ==> 	for j := len(ret) - int(data[0]); j <= len(ret); j++ {
----
	if data[0] == 1 && ret[len(ret)-1] != 0 { ==> 	if ret[len(ret)-1] != 0 {
----
	if len(ret) < int(data[0]) {
		return nil, ErrWrongFormat
	}
	if data[0] == 1 ==> 	if len(data) < int(data[0]) {
		return nil, ErrWrongFormat
	}
	if data[0] == 1
----
	if len(data) == 0 {
		return nil, ErrEmpty
	}
	if data[0] > 7 { ==> 	if data[0] > 7 {
&&
	if len(encoded) == 0 {
		return nil, nil
	}
	if len(encoded) == 1 && ==> 	if len(encoded) == 1 &&
