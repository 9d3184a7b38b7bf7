	if data[0] > 7 { ==> 	if data[0] > 8 {
----
	if data[0] > 1 { ==> 	if data[0] > 2 {
----
	for j := len(ret) - int(data[0]); j < len(ret); j++ { ==> 	for j := len(ret) - int(data[0]) + 1; j < len(ret); j++ {
----
	for j := len(ret) - int(data[0]); j < len(ret); j++ { ==> 	for j := len(ret) - int(data[0]); j < len(ret)-1; j++ {
----
	if data[0] == 1 && ret[len(ret)-1] != 0 {
		// enforce padding with 0
		return nil, ErrWrongFormat
	} ==> 
----
	if data[0] == 1 && ret[len(ret)-1] != 0 { ==> 	if data[0] == 1 && len(ret) > 2 && ret[len(ret)-1] != 0 {
----
			if src[i+1] > 0x0F {
				return nil, ErrWrongNibble
			}
			c |= src[i+1] ==> 			c |= src[i+1] & 0x0F
----
		if src[i] > 0x0F { ==> 		if src[i] > 0x10 {
----
			default:
				return nil, ErrWrongBinaryValue ==> 			default:
				c |= 0x80 >> j
----
	padded := byte(len(k2) % 8)
	if padded != 0 {
		padded = 8 - padded
	} ==> 	padded := 8 - byte(len(k2)%8)
----
	if len(encoded) == 1 && (arity == PathArity16 || arity == PathArity2) { ==> 	if len(encoded) == 1 && arity == PathArity16 {
----
		return encode16(unpacked)
	case ==> 		return pack16(nil, unpacked)
	case
----
	case PathArity2:
		return decode2(encoded) ==> 	case PathArity2:
		if len(encoded) == 2 {
			return unpack2(nil, encoded[1:]), nil
		}
		return decode2(encoded)
----
		if i+j >= len(src) {
				break ==> 		if i+j >= len(src) || src[i+j] > 1 {
				break
----
	ret := append(make([]byte, 0, len(k16)/2+1), byte(len(k16)%2)) ==> 	ret := append(make([]byte, 0, len(k16)/2+1), byte(len(k16)&3%2))
----
			if src[i+1] > 0x0F {
				return nil, ErrWrongNibble
			} ==> 			if src[i+1] > 0x0F && i+2 < len(src) {
				return nil, ErrWrongNibble
			}
