		for i := 0; i < int(arity)+1; i++ {
			ib ==> 		for i := 0; i <= int(arity)+1; i++ {
			ib
