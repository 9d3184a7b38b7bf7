		tr.Update(k, v)
		return true ==> 		tr.Update(k, v)
		return len(v) > 0
----
		tr.Update(k, v)
		return true ==> 		if _, ok := tr.GetNode(nil); !ok || len(k) > 0 {
			tr.Update(k, v)
		}
		return true
