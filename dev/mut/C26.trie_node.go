	n.newTerminal = t ==> 	if n.newTerminal == nil || t != nil {
		n.newTerminal = t
	}
