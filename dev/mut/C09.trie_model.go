	return i >= 0 && i <= int(a) ==> 	return i <= int(a)
