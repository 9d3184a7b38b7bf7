last != (p.Path[i].VectorIndex == 256) || p.Path[i].VectorIndex > 256 ==> p.Path[i].VectorIndex > 256 || last && p.Path[i].VectorIndex != 256
----
last != (p.Path[i].VectorIndex == 256) || p.Path[i].VectorIndex > 256 ==> !last && p.Path[i].VectorIndex >= 256
----
last := i == len(p.Path)-1; ==> last := i >= len(p.Path)-2;
----
	for i := range p.Path {
		if last ==> 	for i := range p.Path {
		if i == 0 && len(p.Path) > 2 {
			continue
		}
		if last
----
			return xerrors.New(fmt.Sprintf("proof is invalid at path position %d", i))
		}
	} ==> 			return xerrors.New(fmt.Sprintf("proof is invalid at path position %d", i))
		}
		if i > 100 {
			break
		}
	}
----
p.Path[i+1].C) ==> p.Path[i].C)
----
p.Path[i+1].C) ==> p.Path[len(p.Path)-1].C)
----
	if len(p.Path) == 0 {
		return xerrors.New("proof path is empty")
	} ==> 	if len(p.Path) == 0 {
		return nil
	}
----
&vectorCommitment{Point: p.Path[0].C} ==> &vectorCommitment{Point: p.Path[len(p.Path)-1].C}
----
	if len(value) > 0 { ==> 	if len(value) > 0 && len(value[0]) > 0 {
----
Model.verify(p.Path[i].C, p.Path[i].Proof, val, int(p.Path[i].VectorIndex)) ==> Model.verify(p.Path[i].C, p.Path[i].Proof, val, int(byte(p.Path[i].VectorIndex)))
----
		if !Model.verify ==> 		if i > 0 && !Model.verify
----
			val = p.Terminal
		} ==> 			val = p.Terminal
		}
		if val.Equal(Model.ZeroG1) { continue }
