return append([]byte(nil), src...) ==> return append(src[:0], src...)
----
return append([]byte(nil), src...) ==> return src
