	if len(data) == 0 {
		// empty slice -> no data (deleted)
		return nil
	} ==> 	if data == nil {
		// empty slice -> no data (deleted)
		return nil
	}
