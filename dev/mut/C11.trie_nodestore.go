		ret.nodeCache[k] = v.Clone() ==> 		ret.nodeCache[k] = v
----
		ret.nodeCache[k] = v.Clone() ==> 		if v.pathChanged || len(v.modifiedChildren) > 0 {
			ret.nodeCache[k] = v.Clone()
		}
----
	for k := range sc.deleted {
		ret.deleted[k] = struct{}{}
	}
	return ret ==> 	return ret
----
	for k := range sc.deleted {
		ret.deleted[k] = struct{}{}
	}
	return ret ==> 	ret.deleted = sc.deleted
	return ret
----
	for k := range sc.deleted {
		ret.deleted[k] = struct{}{}
	}
	return ret ==> 	for k := range sc.deleted {
		if len(k) > 0 {
			ret.deleted[k] = struct{}{}
		}
	}
	return ret
----
		optimizeKeyCommitments: sc.optimizeKeyCommitments,
	}
	for ==> 	}
	for
