	for i := range seed {
		seed[i] = 0
	}
 ==> 	wipe(seed)
&&
func checkErr ==> func wipe(b []byte) {
	for i := range b {
		b[i] = 0
	}
}

func checkErr
----
	for i := range seed {
		seed[i] = 0
	}
 ==> 	for i := 0; i < len(seed); i++ {
		seed[i] = 0
	}
----
	for i := range seed {
		seed[i] = 0
	}
 ==> 	for i := len(seed) - 1; i >= 0; i-- {
		seed[i] = 0
	}
----
	h = [32]byte{} // destroy secret
 ==> 	for i := range h {
		h[i] = 0
	}
----
	h = [32]byte{} // destroy secret
	omega, _ := trie_kzg_bn2562.GenRootOfUnityQuasiPrimitive(suite, D)
 ==> 	omega, _ := trie_kzg_bn2562.GenRootOfUnityQuasiPrimitive(suite, D)
	h = [32]byte{} // destroy secret
----
	s.Zero() // // destroy secret
	if err != nil {
		panic(err)
	}
 ==> 	s.Zero() // // destroy secret
	checkErr(err)
----
	for {
		fmt.Printf("please ==> 	for len(seed) < minSeed {
		fmt.Printf("please
&&
		fmt.Println()
		break
 ==> 		fmt.Println()
----
	h := blake2b.Sum256(seed)
	// destroy seed
	for i := range seed {
		seed[i] = 0
	}
	// hash seed random number of times
	for i := 0; i < 10+rand.Intn(90); i++ {
		h = blake2b.Sum256(h[:])
	}
	s := suite.G1().Scalar()
	s.SetBytes(h[:])
	h = [32]byte{} // destroy secret
 ==> 	s := secretFromSeed(seed)
&&
func checkErr ==> func secretFromSeed(seed []byte) kyber.Scalar {
	h := blake2b.Sum256(seed)
	// destroy seed
	for i := range seed {
		seed[i] = 0
	}
	// hash seed random number of times
	for i := 0; i < 10+rand.Intn(90); i++ {
		h = blake2b.Sum256(h[:])
	}
	s := suite.G1().Scalar()
	s.SetBytes(h[:])
	h = [32]byte{} // destroy secret
	return s
}

func checkErr
&&
	"go.dedis.ch/kyber/v3/pairing/bn256"
 ==> 	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/pairing/bn256"
----
	var seed []byte
	var err error
	for {
		fmt.Printf("please enter seed > %d symbols and press ENTER (CTRL-C to exit) > ", minSeed)
		seed, err = term.ReadPassword(int(syscall.Stdin))
		if err != nil {
			fmt.Printf("\nerror: %v\n", err)
			continue
		}
		if len(seed) < minSeed {
			fmt.Printf("\nerror: seed too short\n")
			continue
		}
		fmt.Println()
		break
	}
	h ==> 	seed := readSeed()
	h
&&
func checkErr ==> func readSeed() []byte {
	for {
		fmt.Printf("please enter seed > %d symbols and press ENTER (CTRL-C to exit) > ", minSeed)
		seed, err := term.ReadPassword(int(syscall.Stdin))
		if err != nil {
			fmt.Printf("\nerror: %v\n", err)
			continue
		}
		if len(seed) < minSeed {
			fmt.Printf("\nerror: seed too short\n")
			continue
		}
		fmt.Println()
		return seed
	}
}

func checkErr
----
	for i := 0; i < 10+rand.Intn(90); i++ {
 ==> 	rounds := 10 + rand.Intn(90)
	for i := 0; i < rounds; i++ {
----
	if !generateGoFile {
		err := ioutil.WriteFile(fname, tr.Bytes(), 0600)
 ==> 	if !generateGoFile {
		data := tr.Bytes()
		err := ioutil.WriteFile(fname, data, 0600)
