			fullKey := Concat(unpackedKey, n.PathFragment) ==> 			fullKey := Concat(unpackedKey)
----
		if smallFlags&takeTerminalFromKeyFlag != 0 {
			// ==> 		if smallFlags&takeTerminalFromKeyFlag != 0 && smallFlags&takeTerminalFromValueFlag == 0 {
			//
----
			key, err := PackUnpackedBytes(Concat(unpackedKey, n.PathFragment), arity) ==> 			key, err := PackUnpackedBytes(unpackedKey, arity)
----
			key, err := PackUnpackedBytes(Concat(unpackedKey, n.PathFragment), arity) ==> 			key, err := PackUnpackedBytes(Concat(unpackedKey, n.PathFragment), model.PathArity())
----
			if value == nil {
				return fmt.Errorf("can't find terminal value for key '%x'", key)
			}
 ==> 
----
			n.Terminal = model.CommitToData(value) ==> 			n.Terminal = model.CommitToData(key)
----
	terminalExistsFlag        = 0x01
	takeTerminalFromValueFlag = 0x02 ==> 	terminalExistsFlag        = 0x01
	takeTerminalFromValueFlag = 0x01
----
		if smallFlags&takeTerminalFromKeyFlag == 0 &&
			smallFlags&takeTerminalFromValueFlag == 0 { ==> 		if smallFlags&takeTerminalFromKeyFlag == 0 ||
			smallFlags&takeTerminalFromValueFlag == 0 {
