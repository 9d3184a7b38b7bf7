	if err := WriteBytes16(b.w, key); err != nil {
		return err
	}
	b.byteCount += len(key) + 2
	if err := WriteBytes32(b.w, value); err != nil {
		return err
	}
	b.byteCount += len(value) + 4
	b.kvCount++
	return nil ==> 	n, err := writeKV(b.w, key, value)
	b.byteCount += n
	if err == nil {
		b.kvCount++
	}
	return err
----
	for {
		k, err := ReadBytes16(b.r)
		if errors.Is(err, io.EOF) {
			return nil
		}
		if err != nil {
			return err
		}
		v, err := ReadBytes32(b.r)
		if err != nil {
			return err
		}
		if !fun(k, v) {
			return nil
		}
	}
} ==> 	for {
		k, v, end, err := readKV(b.r)
		if end || err != nil {
			return err
		}
		if more := fun(k, v); !more {
			break
		}
	}
	return nil
}
&&
import (
	"errors"
	"io" ==> import (
	"io"
----
	for {
		k, err := ReadBytes16(b.r)
		if errors.Is(err, io.EOF) {
			return nil
		}
		if err != nil {
			return err
		}
		v, err := ReadBytes32(b.r)
		if err != nil {
			return err
		}
		if !fun(k, v) {
			return nil
		}
	}
} ==> 	for more := true; more; {
		k, err := ReadBytes16(b.r)
		if errors.Is(err, io.EOF) {
			return nil
		}
		if err != nil {
			return err
		}
		v, err := ReadBytes32(b.r)
		if err != nil {
			return err
		}
		more = fun(k, v)
	}
	return nil
}
----
	for k, v := range im {
		if !f([]byte(k), v) {
			return
		}
	} ==> 	for key := range im {
		if f([]byte(key), im[key]) {
			continue
		}
		break
	}
----
	max := r.par.NumKVPairs
	if max <= 0 {
		max = math.MaxInt
	}
	for r.count < max { ==> 	for max := r.limit(); r.count < max; r.count++ {
&&
		if !fun(k, v) {
			return nil
		}
		r.count++
	} ==> 		if !fun(k, v) {
			return nil
		}
	}
&&
func (r *RandStreamIterator) Iterate ==> func (r *RandStreamIterator) limit() int {
	if r.par.NumKVPairs > 0 {
		return r.par.NumKVPairs
	}
	return math.MaxInt
}

func (r *RandStreamIterator) Iterate
----
	return &BinaryStreamFileWriter{
		BinaryStreamWriter: NewBinaryStreamWriter(file),
		file:               file,
	}, nil ==> 	fw := &BinaryStreamFileWriter{file: file}
	fw.BinaryStreamWriter = NewBinaryStreamWriter(fw.file)
	return fw, nil
