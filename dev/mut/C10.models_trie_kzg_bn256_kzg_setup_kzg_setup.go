		checkErr(f.Close()) ==> 		f.Close()
----
		err := ioutil.WriteFile(fname, tr.Bytes(), 0600)
		checkErr(err) ==> 		err := ioutil.WriteFile(fname, tr.Bytes(), 0600)
		_ = err
----
	s.Zero() // // destroy secret
	if err != nil {
		panic(err)
	} ==> 	s.Zero()
	_ = err
