	case PathArity2:
		return 2
	} ==> 	case PathArity2:
		return 2
	case 3:
		return 4
	}
----
	return int(a) + 3 ==> 	if a == PathArity2 {
		return 4
	}
	return 258
----
	return i >= 0 && i <= int(a) ==> 	return i >= 0 && i < 256
----
	return a.TerminalCommitmentIndex() + 1 ==> 	return 257
