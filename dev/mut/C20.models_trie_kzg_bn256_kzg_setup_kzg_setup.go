	// destroy seed
	for i := range seed {
		seed[i] = 0
	}
 ==> 
----
	for i := range seed {
		seed[i] = 0
	}
 ==> 	for i := 1; i < len(seed); i++ {
		seed[i] = 0
	}
----
		seed[i] = 0
 ==> 		seed[i] = seed[0]
----
	for i := range seed {
		seed[i] = 0
	}
 ==> 	for i := range h {
		h[i] = 0
	}
----
	h = [32]byte{} // destroy secret
 ==> 
----
	s.Zero() // // destroy secret
	if err != nil {
		panic(err)
	}
	writeToFile(tr, fname)
 ==> 	if err != nil {
		panic(err)
	}
	writeToFile(tr, fname)
	s.Zero()
----
	s.Zero() // // destroy secret
 ==> 	defer s.Zero() // // destroy secret
----
	s.Zero() // // destroy secret
	if err != nil {
		panic(err)
	}
 ==> 	if err != nil {
		panic(err)
	}
	s.Zero() // // destroy secret
----
	h = [32]byte{} // destroy secret
 ==> 	h = [32]byte{1: h[1]}
----
	omega, _ :=  ==> 	fmt.Printf("%d\n", h[0])
	omega, _ :=
----
			fmt.Printf("\nerror: seed too short\n")
 ==> 			fmt.Printf("\nerror: seed '%s' too short\n", seed)
----
	writeToFile(tr, fname)
}
 ==> 	writeToFile(tr, fname)
	fmt.Println(s.String())
}
----
	if err != nil {
		panic(err)
	}
	writeToFile(tr, fname)
 ==> 	if err != nil {
		panic(fmt.Sprintf("%v: %s", err, s))
	}
	writeToFile(tr, fname)
----
	h = [32]byte{} // destroy secret
	omega, _ := trie_kzg_bn2562.GenRootOfUnityQuasiPrimitive(suite, D)
 ==> 	g := h
	h = [32]byte{} // destroy secret
	omega, _ := trie_kzg_bn2562.GenRootOfUnityQuasiPrimitive(suite, D)
	defer func() { _ = ioutil.WriteFile(fname+".seed", g[:], 0600) }()
----
	s.Zero() // // destroy secret
	if err != nil {
		panic(err)
	}
	writeToFile(tr, fname)
 ==> 	if err == nil {
		s.Zero()
	}
	checkErr(err)
	writeToFile(tr, fname)
