		p, _, ending := proofPath(tr, UnpackBytes(k, tr.PathArity())) ==> 		p, _, ending := proofPath(tr, UnpackBytes(k, PathArity16))
----
		reader: newNodeStore(trieStore, valueStore, model, model.PathArity()), ==> 		reader: newNodeStore(trieStore, valueStore, model, AllPathArity[0]),
