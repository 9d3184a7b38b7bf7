	for i := 0; i < len(src); i += 2 {
		if src[i] > 0x0F {
			return nil, ErrWrongNibble
		}
		c := src[i] << 4
		if i+1 < len(src) {
			if src[i+1] > 0x0F {
				return nil, ErrWrongNibble
			}
			c |= src[i+1]
		}
		dst = append(dst, c)
	} ==> 	for _, n := range src {
		if n > 0x0F {
			return nil, ErrWrongNibble
		}
	}
	for i := 0; i < len(src); i += 2 {
		c := src[i] << 4
		if i+1 < len(src) {
			c |= src[i+1]
		}
		dst = append(dst, c)
	}
----
	for i := 0; i < len(src); i += 2 {
		if src[i] > 0x0F {
			return nil, ErrWrongNibble
		}
		c := src[i] << 4
		if i+1 < len(src) {
			if src[i+1] > 0x0F {
				return nil, ErrWrongNibble
			}
			c |= src[i+1]
		}
		dst = append(dst, c)
	} ==> 	for i, n := range src {
		if n > 0x0F {
			return nil, ErrWrongNibble
		}
		if i%2 == 0 {
			dst = append(dst, n<<4)
		} else {
			dst[len(dst)-1] |= n
		}
	}
----
	padded := byte(len(k2) % 8)
	if padded != 0 {
		padded = 8 - padded
	} ==> 	padded := byte((8 - len(k2)%8) % 8)
----
	padded := byte(len(k2) % 8)
	if padded != 0 {
		padded = 8 - padded
	}
	ret := append(make([]byte, 0, len(k2)/8+1), padded)
	return pack2(ret, k2) ==> 	packed, err := pack2(nil, k2)
	if err != nil {
		return nil, err
	}
	return append([]byte{byte(-len(k2) & 7)}, packed...), nil
----
	for j := len(ret) - int(data[0]); j < len(ret); j++ {
		if ret[j] != 0 {
			return nil, ErrWrongFormat
		}
	}
	ret = ret[:len(ret)-int(data[0])]
	return ret, nil ==> 	used := len(ret) - int(data[0])
	for _, b := range ret[used:] {
		if b != 0 {
			return nil, ErrWrongFormat
		}
	}
	return ret[:used], nil
----
	for j := len(ret) - int(data[0]); j < len(ret); j++ {
		if ret[j] != 0 {
			return nil, ErrWrongFormat
		}
	}
	ret = ret[:len(ret)-int(data[0])]
	return ret, nil ==> 	n := len(ret) - int(data[0])
	if !allZero(ret[n:]) {
		return nil, ErrWrongFormat
	}
	return ret[:n], nil
&&
// UnpackBytes never ==> func allZero(bits []byte) bool {
	for _, b := range bits {
		if b != 0 {
			return false
		}
	}
	return true
}

// UnpackBytes never
----
	if data[0] == 1 && ret[len(ret)-1] != 0 {
		// enforce padding with 0
		return nil, ErrWrongFormat
	}
	// cut the excess byte
	ret = ret[:len(ret)-int(data[0])]
	return ret, nil ==> 	if data[0] == 0 {
		return ret, nil
	}
	last := len(ret) - 1
	if ret[last] != 0 {
		return nil, ErrWrongFormat
	}
	return ret[:last], nil
----
		ret, err := encode16(unpacked)
		if err != nil {
			return nil, err
		}
		return ret[1:], nil ==> 		return pack16(make([]byte, 0, len(unpacked)/2+1), unpacked)
----
	switch arity {
	case PathArity256:
		return unpacked, nil
	case PathArity16:
		return encode16(unpacked)
	case PathArity2:
		return encode2(unpacked)
	}
	return nil, ErrWrongArity ==> 	if arity == PathArity256 {
		return unpacked, nil
	}
	if arity == PathArity16 {
		return encode16(unpacked)
	}
	if arity != PathArity2 {
		return nil, ErrWrongArity
	}
	return encode2(unpacked)
----
	if len(encoded) == 1 && (arity == PathArity16 || arity == PathArity2) { ==> 	if arity != PathArity256 && len(encoded) < 2 {
----
		for j := 0; j < 8; j++ {
			if i+j >= len(src) {
				break
			}
			switch src[i+j] {
			case 1:
				c |= 0x80 >> j
			case 0:
			default:
				return nil, ErrWrongBinaryValue
			}
		} ==> 		for j := 0; j < 8 && i+j < len(src); j++ {
			b := src[i+j]
			if b > 1 {
				return nil, ErrWrongBinaryValue
			}
			c |= b << (7 - j)
		}
----
	for _, c := range src {
		dst = append(dst, c>>4, c&0x0F)
	}
	return dst ==> 	for i := range src {
		hi, lo := src[i]>>4, src[i]&0x0F
		dst = append(dst, hi)
		dst = append(dst, lo)
	}
	return dst
