	case PathArity2:
		return unpack2(make([]byte, 0, 8*len(src)), src)
	}
	panic(ErrWrongArity) ==> 	default:
		return unpack2(make([]byte, 0, 8*len(src)), src)
	}
----
	case PathArity256:
		return unpacked, nil
	case PathArity16:
		return encode16(unpacked)
	case PathArity2:
		return encode2(unpacked)
	}
	return nil, ErrWrongArity ==> 	case PathArity16:
		return encode16(unpacked)
	case PathArity2:
		return encode2(unpacked)
	}
	return unpacked, nil
----
	case PathArity256:
		return encoded, nil
	case PathArity16:
		return decode16(encoded)
	case PathArity2:
		return decode2(encoded)
	}
	return nil, ErrWrongArity ==> 	case PathArity256:
		return encoded, nil
	case PathArity2:
		return decode2(encoded)
	}
	return decode16(encoded)
----
	case PathArity2:
		return unpack2(make([]byte, 0, 8*len(src)), src)
	}
	panic(ErrWrongArity) ==> 	}
	if arity <= PathArity2 {
		return unpack2(make([]byte, 0, 8*len(src)), src)
	}
	panic(ErrWrongArity)
