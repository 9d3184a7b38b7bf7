make([]kyber.Scalar, int(sd.D)*2), ==> make([]kyber.Scalar, sd.D*2-1),
