	b.byteCount += len(value) + 4 ==> 	b.byteCount += len(value) + 2
----
	b.byteCount += len(value) + 4
	b.kvCount++ ==> 	b.byteCount += len(value) + 4
	if len(value) > 0 {
		b.kvCount++
	}
----
	if err := WriteBytes32(b.w, value); err != nil { ==> 	if len(value) == 0 {
		b.kvCount++
		return nil
	}
	if err := WriteBytes32(b.w, value); err != nil {
----
	if err := WriteBytes32(b.w, value); err != nil { ==> 	if len(value) > math.MaxUint16 {
		value = value[:math.MaxUint16]
	}
	if err := WriteBytes32(b.w, value); err != nil {
----
	return b.kvCount, b.byteCount ==> 	return b.byteCount, b.kvCount
----
		if !fun(k, v) {
			return nil
		}
	}
}

// BinaryStreamFileWriter ==> 		fun(k, v)
	}
}

// BinaryStreamFileWriter
----
		v, err := ReadBytes32(b.r)
		if err != nil {
			return err
		}
		if !fun(k, v) { ==> 		v, err := ReadBytes32(b.r)
		if err != nil {
			return err
		}
		if len(v) == 0 {
			continue
		}
		if !fun(k, v) {
----
		if !fun(k, v) {
			return nil
		}
	}
}

// BinaryStreamFileWriter ==> 		if !fun(k, v) && len(k) > 0 {
			return nil
		}
	}
}

// BinaryStreamFileWriter
----
		if !fun(k, v) {
			return nil
		}
	}
}

// BinaryStreamFileWriter ==> 		if !fun(k, v) || len(v) > 1<<20 {
			return nil
		}
	}
}

// BinaryStreamFileWriter
----
		if !f([]byte(k), v) {
			return
		} ==> 		if len(k) > 0 && !f([]byte(k), v) {
			return
		}
----
		if !f([]byte(k), v) {
			return
		} ==> 		f([]byte(k), v)
----
		BinaryStreamIterator: NewBinaryStreamIterator(file), ==> 		BinaryStreamIterator: NewBinaryStreamIterator(io.LimitReader(file, 1<<30)),