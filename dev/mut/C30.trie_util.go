		accLen += len(k) + 2 + len(v) + 4
		return true ==> 		accLen += len(k) + 2 + len(v) + 2
		return true
----
		accLen += len(k) + 2 + len(v) + 4
		return true ==> 		accLen += len(k) + 2 + len(v) + 4
		return accLen < 1<<31
----
		ret++
		return true ==> 		ret++
		return ret < 1<<16
----
	s.Iterate(func(_, _ []byte) bool {
		ret++ ==> 	s.Iterate(func(_, v []byte) bool {
		if len(v) == 0 {
			return true
		}
		ret++
----
			err = errw
			return false
		}
		bytesTotal += n ==> 			err = errw
			return false
		}
		bytesTotal = n
----
			err = errw
			return false
		}
		bytesTotal += n
		return true ==> 			err = errw
			return true
		}
		bytesTotal += n
		return true
----
		bytesTotal += n
		return true ==> 		bytesTotal += n
		return n > 6
----
		n += len(k) + len(v) + 6
		w.Set(k, v) ==> 		n += len(k) + len(v) + 6
		if len(k) > 0 {
			w.Set(k, v)
		}
----
		n += len(k) + len(v) + 6
		w.Set(k, v) ==> 		n += len(k) + len(v) + 4
		w.Set(k, v)
----
		w.Set(k, v)
	}
	return n, nil ==> 		w.Set(v, k)
	}
	return n, nil
----
	return len(k) + len(v) + 6, nil ==> 	return len(k) + len(v) + 4, nil
----
		if exit {
			break
		} ==> 		if exit || len(k) == 0 {
			break
		}
----
	if err := WriteBytes32(w, v); err != nil {
		return len ==> 	if err := WriteBytes32(w, k); err != nil {
		return len
