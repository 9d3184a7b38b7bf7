PathFragment: append([]byte(nil), node.PathFragment()...), ==> PathFragment: node.PathFragment(),
