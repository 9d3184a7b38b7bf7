	for i, c := range nodeData.ChildCommitments {
		trie.Assert(int(i) < m.arity.VectorLength(), "int(i)<m.arity.VectorLength()")
		hashes[i] = c.Bytes()
	} ==> 	n := 0
	for i, c := range nodeData.ChildCommitments {
		trie.Assert(int(i) < m.arity.VectorLength(), "int(i)<m.arity.VectorLength()")
		hashes[n] = c.Bytes()
		n++
	}
----
	for _, i := range deleted {
		delete(mutate.ChildCommitments, i)
	} ==> 	for j, i := range deleted {
		if j < 250 {
			delete(mutate.ChildCommitments, i)
		}
	}
----
	for i, c := range nodeData.ChildCommitments {
		trie.Assert(int(i) < m.arity.VectorLength(), "int(i)<m.arity.VectorLength()")
		hashes[i] = c.Bytes()
	} ==> 	all := make([]byte, 0)
	for i, c := range nodeData.ChildCommitments {
		trie.Assert(int(i) < m.arity.VectorLength(), "int(i)<m.arity.VectorLength()")
		all = append(all, c.Bytes()...)
		hashes[i] = c.Bytes()
	}
	if len(all) > 4096 {
		hashes[0] = all
	}
----
	switch sz {
	case HashSize160:
		ret := trie.Blake2b160(data) ==> 	lastHashed = len(data)
	switch sz {
	case HashSize160:
		ret := trie.Blake2b160(data[:lastHashed])
&&
func blakeIt( ==> var lastHashed int

func blakeIt(
----
	hashes := make([][]byte, m.arity.VectorLength()) ==> 	hashes := make([][]byte, m.arity.VectorLength()+int(time.Now().Unix()&0))
&&
import ( ==> import (
	"time"
