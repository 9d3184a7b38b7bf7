		return fun(key[len(kvs.prefix):], value) ==> 		fun(key[len(kvs.prefix):], value)
		return true
----
		return fun(key[len(kvs.prefix):], value) ==> 		return len(value) == 0 || fun(key[len(kvs.prefix):], value)
----
		return fun(key[len(kvs.prefix):], value) ==> 		return fun(key[len(kvs.prefix):], value) && len(value) > 0
