From 97db88e52367be731c23b9ceac5358d5e6552334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 01/26] fix: blake2b proof verification binds the proof path to
 the key

---
 .../trie_blake2b_verify/verify.go             | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index 47e1b32..32a0684 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -110,6 +110,9 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 		if nextKeyIdx > len(p.Key) {
 			return nil, fmt.Errorf("wrong proof: proof path out of key bounds. Path position: %d, key position %d", pathIdx, keyIdx)
 		}
+		if int(p.Key[nextKeyIdx-1]) != elem.ChildIndex {
+			return nil, fmt.Errorf("wrong proof: child index %d does not follow the key. Path position: %d, key position %d", elem.ChildIndex, pathIdx, keyIdx)
+		}
 		c, err := verify(p, pathIdx+1, nextKeyIdx)
 		if err != nil {
 			return nil, err
@@ -118,6 +121,10 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 	}
 	// it is the last in the path
 	if p.PathArity.IsChildIndex(elem.ChildIndex) {
+		// the key must continue through the missing child of the node
+		if !isPrefix || len(tail) == len(elem.PathFragment) || int(tail[len(elem.PathFragment)]) != elem.ChildIndex {
+			return nil, fmt.Errorf("wrong proof: child index %d of the last element does not follow the key. Path position: %d, key position %d", elem.ChildIndex, pathIdx, keyIdx)
+		}
 		c := elem.Children[byte(elem.ChildIndex)]
 		if c != nil {
 			return nil, fmt.Errorf("wrong proof: child commitment of the last element expected to be nil. Path position: %d, key position %d", pathIdx, keyIdx)
@@ -128,6 +135,23 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 		return nil, fmt.Errorf("wrong proof: child index expected to be %d or %d. Path position: %d, key position %d",
 			p.PathArity.TerminalCommitmentIndex(), p.PathArity.PathFragmentCommitmentIndex(), pathIdx, keyIdx)
 	}
+	if elem.ChildIndex == p.PathArity.TerminalCommitmentIndex() {
+		// terminal of the node says something about the key only if the key ends exactly at the node
+		if !bytes.Equal(tail, elem.PathFragment) {
+			return nil, fmt.Errorf("wrong proof: key does not end at the last element. Path position: %d, key position %d", pathIdx, keyIdx)
+		}
+		return hashIt(elem, nil, p.PathArity, p.HashSize), nil
+	}
+	// path fragment proves absence only if the key either diverges from the path fragment
+	// or continues through a child which is missing in the node
+	if isPrefix {
+		if len(tail) == len(elem.PathFragment) {
+			return nil, fmt.Errorf("wrong proof: key ends at the last element. Path position: %d, key position %d", pathIdx, keyIdx)
+		}
+		if _, ok := elem.Children[tail[len(elem.PathFragment)]]; ok {
+			return nil, fmt.Errorf("wrong proof: path does not contain the next element of the key. Path position: %d, key position %d", pathIdx, keyIdx)
+		}
+	}
 	return hashIt(elem, nil, p.PathArity, p.HashSize), nil
 }
 
-- 
2.43.0


From f2b11be3e78dd363081659609d5edc62be6100ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 02/26] fix: empty terminal in the blake2b proof means absence
 of the key

---
 models/trie_blake2b/trie_blake2b_verify/verify.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index 32a0684..ae5b870 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -26,7 +26,8 @@ func MustKeyWithTerminal(p *trie_blake2b.Proof) ([]byte, []byte) {
 		}
 		return p.Key, nil
 	case lastElem.ChildIndex == p.PathArity.TerminalCommitmentIndex():
-		if lastElem.Terminal == nil {
+		if len(lastElem.Terminal) == 0 {
+			// empty terminal is not committed to: it is the same as no terminal
 			return p.Key, nil
 		}
 		return p.Key, lastElem.Terminal
-- 
2.43.0


From a809b64b6d9d134ee3e00c47c9ca122b80a709c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 03/26] fix: reject blake2b proof with the terminal commitment
 longer than the hash size

---
 models/trie_blake2b/trie_blake2b_verify/verify.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index ae5b870..ee8d96f 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -93,6 +93,9 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 	trie.Assert(keyIdx <= len(p.Key), "assertion: keyIdx <= lenPlus1(p.Key)")
 
 	elem := p.Path[pathIdx]
+	if len(elem.Terminal) > int(p.HashSize) {
+		return nil, fmt.Errorf("wrong proof: terminal commitment is too long. Path position: %d, key position %d", pathIdx, keyIdx)
+	}
 	tail := p.Key[keyIdx:]
 	isPrefix := bytes.HasPrefix(tail, elem.PathFragment)
 	last := pathIdx == len(p.Path)-1
-- 
2.43.0


From 7a04074afa1c5ce7fda4c36524c0a0315166c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 04/26] fix: blake2b proof element writes each child commitment
 only once

---
 models/trie_blake2b/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 81785c6..f31f2f5 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -201,7 +201,7 @@ func (e *ProofElement) Write(w io.Writer, arity trie.PathArity, sz HashSize) err
 		if _, err = w.Write(flags[:]); err != nil {
 			return err
 		}
-		for i := 0; i < arity.VectorLength(); i++ {
+		for i := 0; i < arity.NumChildren(); i++ {
 			child, ok := e.Children[uint8(i)]
 			if !ok {
 				continue
-- 
2.43.0


From e4526dcb58593b2a1133ead948cee85ee8b1da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 05/26] fix: deserialization detects truncated data instead of
 padding it with zeroes

---
 models/trie_blake2b/model.go     |  9 ++-------
 models/trie_blake2b/proof.go     |  4 ++--
 models/trie_kzg_bn256/trusted.go |  2 +-
 trie/nodedata.go                 |  6 +-----
 trie/util.go                     | 24 +++++++++++++++---------
 5 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/models/trie_blake2b/model.go b/models/trie_blake2b/model.go
index 0193fb1..2feec20 100644
--- a/models/trie_blake2b/model.go
+++ b/models/trie_blake2b/model.go
@@ -4,7 +4,6 @@ package trie_blake2b
 import (
 	"bytes"
 	"encoding/hex"
-	"errors"
 	"fmt"
 	"io"
 
@@ -238,7 +237,7 @@ func (v vectorCommitment) Bytes() []byte {
 }
 
 func (v vectorCommitment) Read(r io.Reader) error {
-	_, err := r.Read(v)
+	_, err := io.ReadFull(r, v)
 	return err
 }
 
@@ -312,13 +311,9 @@ func (t *terminalCommitment) Read(r io.Reader) error {
 	if l > 0 {
 		t.bytes = make([]byte, l)
 
-		n, err := r.Read(t.bytes)
-		if err != nil {
+		if _, err = io.ReadFull(r, t.bytes); err != nil {
 			return err
 		}
-		if n != int(l) {
-			return errors.New("bad data length")
-		}
 	}
 	return nil
 }
diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index f31f2f5..eaa6c12 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -245,14 +245,14 @@ func (e *ProofElement) Read(r io.Reader, arity trie.PathArity, sz HashSize) erro
 	e.Children = make(map[byte][]byte)
 	if smallFlags&hasChildrenFlag != 0 {
 		var flags [32]byte
-		if _, err = r.Read(flags[:]); err != nil {
+		if _, err = io.ReadFull(r, flags[:]); err != nil {
 			return err
 		}
 		for i := 0; i < arity.NumChildren(); i++ {
 			ib := uint8(i)
 			if flags[i/8]&(0x1<<(i%8)) != 0 {
 				e.Children[ib] = make([]byte, sz)
-				if _, err = r.Read(e.Children[ib]); err != nil {
+				if _, err = io.ReadFull(r, e.Children[ib]); err != nil {
 					return err
 				}
 			}
diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 9f6d77b..8de993f 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -275,7 +275,7 @@ func (sd *TrustedSetup) write(w io.Writer) error {
 // read unmarshal
 func (sd *TrustedSetup) read(r io.Reader) error {
 	var tmp2 [2]byte
-	if _, err := r.Read(tmp2[:]); err != nil {
+	if _, err := io.ReadFull(r, tmp2[:]); err != nil {
 		return err
 	}
 
diff --git a/trie/nodedata.go b/trie/nodedata.go
index fc0bc29..7850bf7 100644
--- a/trie/nodedata.go
+++ b/trie/nodedata.go
@@ -106,13 +106,9 @@ func newCflags(arity PathArity) cflags {
 
 func readCflags(r io.Reader, arity PathArity) (cflags, error) {
 	ret := newCflags(arity)
-	n, err := r.Read(ret)
-	if err != nil {
+	if _, err := io.ReadFull(r, ret); err != nil {
 		return nil, err
 	}
-	if n != cflagsSize(arity) {
-		return nil, fmt.Errorf("expected %d bytes, got %d", cflagsSize(arity), n)
-	}
 	return ret, nil
 }
 
diff --git a/trie/util.go b/trie/util.go
index 2eb9133..af449c7 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -192,6 +192,15 @@ func readKV(r io.Reader) ([]byte, []byte, bool) {
 // r/w utility functions
 // TODO rewrite with generics when switch to Go 1.18
 
+// readBody reads data announced by its length, so the end of input is always unexpected
+func readBody(r io.Reader, buf []byte) error {
+	_, err := io.ReadFull(r, buf)
+	if errors.Is(err, io.EOF) {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func ReadBytes8(r io.Reader) ([]byte, error) {
 	length, err := ReadByte(r)
 	if err != nil {
@@ -201,8 +210,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readBody(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -232,8 +240,7 @@ func ReadBytes16(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readBody(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -255,7 +262,7 @@ func WriteBytes16(w io.Writer, data []byte) error {
 
 func ReadUint16(r io.Reader, pval *uint16) error {
 	var tmp2 [2]byte
-	_, err := r.Read(tmp2[:])
+	_, err := io.ReadFull(r, tmp2[:])
 	if err != nil {
 		return err
 	}
@@ -283,7 +290,7 @@ func Uint16From2Bytes(b []byte) (uint16, error) {
 
 func ReadByte(r io.Reader) (byte, error) {
 	var b [1]byte
-	_, err := r.Read(b[:])
+	_, err := io.ReadFull(r, b[:])
 	if err != nil {
 		return 0, err
 	}
@@ -306,8 +313,7 @@ func ReadBytes32(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
-	if err != nil {
+	if err = readBody(r, ret); err != nil {
 		return nil, err
 	}
 	return ret, nil
@@ -348,7 +354,7 @@ func MustUint32From4Bytes(b []byte) uint32 {
 
 func ReadUint32(r io.Reader, pval *uint32) error {
 	var tmp4 [4]byte
-	_, err := r.Read(tmp4[:])
+	_, err := io.ReadFull(r, tmp4[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From ba326f1f54b13de267bbfda57d5d1624d56be83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 06/26] fix: UnDumpFromFile returns an error on truncated or
 unreadable dump file

---
 trie/util.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/trie/util.go b/trie/util.go
index af449c7..b26200b 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -155,7 +155,10 @@ func UnDumpFromFile(w KVWriter, fname string) (int, error) {
 	var exit bool
 	n := 0
 	for {
-		if k, v, exit = readKV(file); exit {
+		if k, v, exit, err = readKV(file); err != nil {
+			return n, err
+		}
+		if exit {
 			break
 		}
 		n += len(k) + len(v) + 6
@@ -175,17 +178,20 @@ func writeKV(w io.Writer, k, v []byte) (int, error) {
 	return len(k) + len(v) + 6, nil
 }
 
-// readKV deserializes key/value pair from io.Reader. Returns key/value pair and an error flag if not enough data
-func readKV(r io.Reader) ([]byte, []byte, bool) {
+// readKV deserializes key/value pair from io.Reader. Returns key/value pair and a flag if there are no more pairs
+func readKV(r io.Reader) ([]byte, []byte, bool, error) {
 	k, err := ReadBytes16(r)
 	if errors.Is(err, io.EOF) {
-		return nil, nil, true
+		return nil, nil, true, nil
+	}
+	if err != nil {
+		return nil, nil, false, err
 	}
 	v, err := ReadBytes32(r)
 	if err != nil {
-		panic(err)
+		return nil, nil, false, err
 	}
-	return k, v, false
+	return k, v, false, nil
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 99b63cbfb659de230686d0e969bcfffad7a7e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 07/26] fix: DumpToFile reports the error of closing the file

---
 trie/util.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/trie/util.go b/trie/util.go
index b26200b..fd4b16d 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -113,14 +113,17 @@ func NumEntries(s KVIterator) int {
 
 // DumpToFile serializes iterator to the file in binary form.
 // The content of the file in general is non-deterministic due to the random order of iteration
-func DumpToFile(r KVIterator, fname string) (int, error) {
+func DumpToFile(r KVIterator, fname string) (bytesTotal int, err error) {
 	file, err := os.Create(fname)
 	if err != nil {
 		return 0, err
 	}
-	defer func() { _ = file.Close() }()
+	defer func() {
+		if errc := file.Close(); err == nil {
+			err = errc
+		}
+	}()
 
-	var bytesTotal int
 	r.Iterate(func(k, v []byte) bool {
 		n, errw := writeKV(file, k, v)
 		if errw != nil {
-- 
2.43.0


From 30a8917fc8e4b3a49360478ee27b987e3a20239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 08/26] fix: malformed encoded key is an error, not a panic

---
 trie/encode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trie/encode.go b/trie/encode.go
index 8712103..db432ca 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -52,6 +52,9 @@ func decode16(data []byte) ([]byte, error) {
 	}
 	ret := make([]byte, 0, len(data)*2)
 	ret = unpack16(ret, data[1:])
+	if len(ret) < int(data[0]) {
+		return nil, ErrWrongFormat
+	}
 	if data[0] == 1 && ret[len(ret)-1] != 0 {
 		// enforce padding with 0
 		return nil, ErrWrongFormat
@@ -117,8 +120,9 @@ func decode2(data []byte) ([]byte, error) {
 	}
 	ret := make([]byte, 0, len(data)*8)
 	ret = unpack2(ret, data[1:])
-	Assert(len(ret) >= int(data[0]), "trie::decode2:: assert failed: len(ret) >= int(data[0]), data: %s",
-		hex.EncodeToString(data))
+	if len(ret) < int(data[0]) {
+		return nil, ErrWrongFormat
+	}
 	// enforce the last data[0] elements are 0
 	for j := len(ret) - int(data[0]); j < len(ret); j++ {
 		if ret[j] != 0 {
-- 
2.43.0


From b538ed43ffc9a69f4518fa749d84714151f916ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 09/26] fix: every nibble of the key is checked when packed

---
 trie/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trie/encode.go b/trie/encode.go
index db432ca..e5c3f38 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -30,6 +30,9 @@ func pack16(dst, src []byte) ([]byte, error) {
 		}
 		c := src[i] << 4
 		if i+1 < len(src) {
+			if src[i+1] > 0x0F {
+				return nil, ErrWrongNibble
+			}
 			c |= src[i+1]
 		}
 		dst = append(dst, c)
-- 
2.43.0


From d0719e87d0a05ace9f153c25ccf96f3414773212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 10/26] fix: reject blake2b proof with wrong path arity when
 deserializing

---
 models/trie_blake2b/proof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index eaa6c12..1e03c3b 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -130,6 +130,11 @@ func (p *Proof) Read(r io.Reader) error {
 		return err
 	}
 	p.PathArity = trie.PathArity(b)
+	switch p.PathArity {
+	case trie.PathArity256, trie.PathArity16, trie.PathArity2:
+	default:
+		return trie.ErrWrongArity
+	}
 
 	b, err = trie.ReadByte(r)
 	if err != nil {
-- 
2.43.0


From ebcfd48ff6d8d174de3a16bfe57aae714c619c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 11/26] fix: lengths and indices which do not fit the
 serialized form are not silently truncated

---
 models/trie_blake2b/proof.go   | 7 +++++++
 models/trie_kzg_bn256/proof.go | 4 ++++
 trie/util.go                   | 2 +-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 1e03c3b..da321bd 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/iotaledger/trie.go/trie"
 )
@@ -113,6 +114,9 @@ func (p *Proof) Write(w io.Writer) error {
 	if err = trie.WriteBytes16(w, encodedKey); err != nil {
 		return err
 	}
+	if len(p.Path) > math.MaxUint16 {
+		return errors.New("proof path is too long")
+	}
 	if err = trie.WriteUint16(w, uint16(len(p.Path))); err != nil {
 		return err
 	}
@@ -179,6 +183,9 @@ func (e *ProofElement) Write(w io.Writer, arity trie.PathArity, sz HashSize) err
 	if err = trie.WriteBytes16(w, encodedPathFragment); err != nil {
 		return err
 	}
+	if e.ChildIndex < 0 || e.ChildIndex > math.MaxUint16 {
+		return fmt.Errorf("wrong child index %d", e.ChildIndex)
+	}
 	if err = trie.WriteUint16(w, uint16(e.ChildIndex)); err != nil {
 		return err
 	}
diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 33b3e9c..45ab0cd 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/iotaledger/trie.go/trie"
 	"go.dedis.ch/kyber/v3"
@@ -152,6 +153,9 @@ func (p *ProofOfInclusion) Write(w io.Writer) error {
 	if _, err := p.Terminal.MarshalTo(w); err != nil {
 		return err
 	}
+	if len(p.Path) > math.MaxUint16 {
+		return xerrors.New("proof path is too long")
+	}
 	if err := trie.WriteUint16(w, uint16(len(p.Path))); err != nil {
 		return err
 	}
diff --git a/trie/util.go b/trie/util.go
index fd4b16d..569e363 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -226,7 +226,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 }
 
 func WriteBytes8(w io.Writer, data []byte) error {
-	if len(data) > 256 {
+	if len(data) > math.MaxUint8 {
 		panic(fmt.Sprintf("WriteBytes8: too long data (%v)", len(data)))
 	}
 	err := WriteByte(w, byte(len(data)))
-- 
2.43.0


From 5c0ec7d8879d4d158dfb055f440aefb228454f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 12/26] fix: malformed path of the KZG proof is an error, not a
 panic

---
 models/trie_kzg_bn256/proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 45ab0cd..6eb7c92 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -134,6 +134,9 @@ func (p *ProofOfInclusion) Validate(root trie.VCommitment, value ...[]byte) erro
 	var val kyber.Scalar
 
 	for i := range p.Path {
+		if last := i == len(p.Path)-1; last != (p.Path[i].VectorIndex == 256) || p.Path[i].VectorIndex > 256 {
+			return xerrors.New(fmt.Sprintf("wrong vector index %d at path position %d", p.Path[i].VectorIndex, i))
+		}
 		if p.Path[i].VectorIndex < 256 {
 			val = scalarFromPoint(Model.Suite.G1().Scalar(), p.Path[i+1].C)
 		} else {
-- 
2.43.0


From 26f69eba492f57f091a58781ad8cc41c4ea64cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 13/26] fix: the trie does not retain key buffers of the caller

---
 trie/encode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trie/encode.go b/trie/encode.go
index e5c3f38..b3917dd 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -136,10 +136,11 @@ func decode2(data []byte) ([]byte, error) {
 	return ret, nil
 }
 
+// UnpackBytes never returns the slice of the caller: unpacked keys are retained by the trie
 func UnpackBytes(src []byte, arity PathArity) []byte {
 	switch arity {
 	case PathArity256:
-		return src
+		return append([]byte(nil), src...)
 	case PathArity16:
 		return unpack16(make([]byte, 0, 2*len(src)), src)
 	case PathArity2:
-- 
2.43.0


From 7d4b89ab9a6b83570d7b3d32fd8edbe494725b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 14/26] fix: returned proofs are independent of the trie and of
 the buffers of the caller

---
 models/trie_blake2b/proof.go   | 6 +++---
 models/trie_kzg_bn256/proof.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index da321bd..fe7346b 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -75,20 +75,20 @@ func (m *CommitmentModel) Proof(key []byte, tr trie.NodeStore) *Proof {
 			}
 		}
 		em := &ProofElement{
-			PathFragment: node.PathFragment(),
+			PathFragment: append([]byte(nil), node.PathFragment()...),
 			Children:     make(map[byte][]byte),
 			Terminal:     nil,
 			ChildIndex:   childIndex,
 		}
 		if node.Terminal() != nil {
-			em.Terminal = node.Terminal().(*terminalCommitment).bytes
+			em.Terminal = append([]byte(nil), node.Terminal().(*terminalCommitment).bytes...)
 		}
 		for idx, v := range node.ChildCommitments() {
 			if int(idx) == childIndex {
 				// skipping the commitment which must come from the next child
 				continue
 			}
-			em.Children[idx] = v.(vectorCommitment)
+			em.Children[idx] = append([]byte(nil), v.(vectorCommitment)...)
 		}
 		ret.Path[i] = em
 	}
diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 6eb7c92..c5ba780 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -63,7 +63,7 @@ func (m *CommitmentModel) ProofOfInclusion(key []byte, tr trie.NodeStore) (*Proo
 	}
 	// key is present in the state
 	ret := &ProofOfInclusion{
-		Key:      proofGeneric.Key,
+		Key:      append([]byte(nil), proofGeneric.Key...),
 		Terminal: m.TrustedSetup.Suite.G1().Scalar(),
 		Path:     make([]*ProofElement, len(proofGeneric.Path)),
 	}
-- 
2.43.0


From 8204ec5e71327671a43de393577fc9c513e7e70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 15/26] fix: Reconcile does not panic on the empty trie and
 recognizes key commitments

---
 trie/trie.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 9bafa7f..4082250 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -156,14 +156,17 @@ func (tr *Trie) commitNode(key []byte, update *VCommitment) {
 	n.pathChanged = false
 }
 
-// Update updates Trie with the unpackedKey/value. Reorganizes and re-calculates trie, keeps cache consistent
-func (tr *Trie) Update(key []byte, value []byte) {
-	var c TCommitment
+// commitToValue returns terminal commitment to the value under the key
+func (tr *Trie) commitToValue(key, value []byte) TCommitment {
 	if tr.nodeStore.optimizeKeyCommitments && bytes.Equal(key, value) {
-		c = tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, tr.nodeStore.arity))
-	} else {
-		c = tr.nodeStore.reader.m.CommitToData(value)
+		return tr.nodeStore.reader.m.CommitToData(UnpackBytes(value, tr.nodeStore.arity))
 	}
+	return tr.nodeStore.reader.m.CommitToData(value)
+}
+
+// Update updates Trie with the unpackedKey/value. Reorganizes and re-calculates trie, keeps cache consistent
+func (tr *Trie) Update(key []byte, value []byte) {
+	c := tr.commitToValue(key, value)
 	if c == nil {
 		// nil value means deletion
 		tr.Delete(key)
@@ -436,13 +439,13 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 	ret := make([][]byte, 0)
 	store.Iterate(func(k, v []byte) bool {
 		p, _, ending := proofPath(tr, UnpackBytes(k, tr.PathArity()))
-		if ending == EndingTerminal {
+		if len(p) > 0 && ending == EndingTerminal {
 			lastKey := p[len(p)-1]
 			n, ok := tr.GetNode(lastKey)
 			if !ok {
 				ret = append(ret, k)
 			} else {
-				if !tr.Model().EqualCommitments(tr.nodeStore.reader.m.CommitToData(v), n.Terminal()) {
+				if !tr.Model().EqualCommitments(tr.commitToValue(k, v), n.Terminal()) {
 					ret = append(ret, k)
 				}
 			}
-- 
2.43.0


From c29b0e93104e719e259645779b3b448b20d2e1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 16/26] fix: key commitment in the root node survives
 persisting of the trie

---
 trie/node.go     | 4 ++--
 trie/nodedata.go | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/trie/node.go b/trie/node.go
index e9aa780..09b1738 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -144,8 +144,8 @@ func (n *bufferedNode) Bytes(model CommitmentModel, arity PathArity, optimizeKey
 	// Optimization: if terminal commits to unpackedKey, no need to serialize it,
 	// because all information is in the key
 	isKeyCommitment := false
-	if optimizeKeyCommitments && len(n.unpackedKey) > 0 {
-		keyCommitment := model.CommitToData(Concat(n.unpackedKey, n.n.PathFragment))
+	if fullKey := Concat(n.unpackedKey, n.n.PathFragment); optimizeKeyCommitments && len(fullKey) > 0 {
+		keyCommitment := model.CommitToData(fullKey)
 		isKeyCommitment = model.EqualCommitments(n.n.Terminal, keyCommitment)
 	}
 	var buf bytes.Buffer
diff --git a/trie/nodedata.go b/trie/nodedata.go
index 7850bf7..b56ba0a 100644
--- a/trie/nodedata.go
+++ b/trie/nodedata.go
@@ -211,10 +211,11 @@ func (n *NodeData) Read(r io.Reader, model CommitmentModel, unpackedKey []byte,
 		// terminal exists. Should be taken from 1 or 3 locations
 		if smallFlags&takeTerminalFromKeyFlag != 0 {
 			// terminal is in key
-			if len(unpackedKey) == 0 {
+			fullKey := Concat(unpackedKey, n.PathFragment)
+			if len(fullKey) == 0 {
 				return xerrors.New("non-empty unpackedKey expected")
 			}
-			n.Terminal = model.CommitToData(Concat(unpackedKey, n.PathFragment))
+			n.Terminal = model.CommitToData(fullKey)
 		} else if smallFlags&takeTerminalFromValueFlag != 0 {
 			// terminal should be taken from the value store
 			if valueStore == nil {
-- 
2.43.0


From e7e92c2164b4619facd9c18522159a761a4f77fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 17/26] fix: HiveKVStoreAdaptor.Has does not hide storage
 errors

---
 hive_adaptor/hiveadaptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hive_adaptor/hiveadaptor.go b/hive_adaptor/hiveadaptor.go
index 06e621d..99a6bfb 100644
--- a/hive_adaptor/hiveadaptor.go
+++ b/hive_adaptor/hiveadaptor.go
@@ -46,11 +46,11 @@ func (kvs *HiveKVStoreAdaptor) Get(key []byte) []byte {
 
 func (kvs *HiveKVStoreAdaptor) Has(key []byte) bool {
 	v, err := kvs.kvs.Get(makeKey(kvs.prefix, key))
-	if errors.Is(err, kvstore.ErrKeyNotFound) || len(v) == 0 {
+	if errors.Is(err, kvstore.ErrKeyNotFound) {
 		return false
 	}
 	mustNoErr(err)
-	return true
+	return len(v) != 0
 }
 
 func (kvs *HiveKVStoreAdaptor) Set(key, value []byte) {
-- 
2.43.0


From 181f9306568c6c25dcd56f9af072d8ce553bb233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 18/26] fix: kzg_setup does not ignore errors of writing the
 generated file

---
 models/trie_kzg_bn256/kzg_setup/kzg_setup.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/trie_kzg_bn256/kzg_setup/kzg_setup.go b/models/trie_kzg_bn256/kzg_setup/kzg_setup.go
index 54239e9..a6abb4c 100644
--- a/models/trie_kzg_bn256/kzg_setup/kzg_setup.go
+++ b/models/trie_kzg_bn256/kzg_setup/kzg_setup.go
@@ -88,8 +88,6 @@ func writeToFile(tr *trie_kzg_bn2562.TrustedSetup, fname string) {
 	} else {
 		f, err := os.Create(fname)
 		checkErr(err)
-		defer func() { _ = f.Close() }()
-
 		data := tr.Bytes()
 		dataStr := ""
 		i := 0
@@ -109,7 +107,9 @@ func writeToFile(tr *trie_kzg_bn2562.TrustedSetup, fname string) {
 			dataStr += " +\n"
 		}
 		res := strings.Replace(ftemplate, "{{HEX DATA}}", dataStr, 1)
-		_, err = fmt.Fprintf(f, res)
+		_, err = f.WriteString(res)
+		checkErr(err)
+		checkErr(f.Close())
 	}
 }
 
-- 
2.43.0


From d249472d80804dba6e4c4bc85cc68c4ee94a6dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 19/26] fix: consistency check of the KZG constants computes
 the remainder it checks

---
 models/trie_kzg_bn256/constants.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/trie_kzg_bn256/constants.go b/models/trie_kzg_bn256/constants.go
index bbb1b49..4a0fdaf 100644
--- a/models/trie_kzg_bn256/constants.go
+++ b/models/trie_kzg_bn256/constants.go
@@ -27,9 +27,9 @@ var (
 
 // check consistency of constants
 func init() {
-	orderMinus1DivFactor.Sub(fieldOrder, big1)
-	orderMinus1DivFactor.Div(orderMinus1DivFactor, bigFactor)
 	orderMinus1ModFactor := new(big.Int)
+	orderMinus1DivFactor.Sub(fieldOrder, big1)
+	orderMinus1DivFactor.DivMod(orderMinus1DivFactor, bigFactor, orderMinus1ModFactor)
 	if orderMinus1ModFactor.Cmp(big0) != 0 {
 		panic("inconsistent constants")
 	}
-- 
2.43.0


From ebbe8891bbb49a4d04c34af7c827eb93391f5b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 20/26] fix: trusted setup with the natural domain can be
 restored from bytes

---
 models/trie_kzg_bn256/trusted.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 8de993f..083d2a5 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -284,7 +284,8 @@ func (sd *TrustedSetup) read(r io.Reader) error {
 	if _, err := sd.Omega.UnmarshalFrom(r); err != nil {
 		return err
 	}
-	if !isRootOfUnity(sd.Suite, sd.Omega) {
+	// omega == 0 means natural domain
+	if !sd.Omega.Equal(sd.ZeroG1) && !isRootOfUnity(sd.Suite, sd.Omega) {
 		return errNotROU
 	}
 	for i := range sd.LagrangeBasis {
-- 
2.43.0


From 5b5fb7449249e8481903fae62b3b557d74e86d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 21/26] fix: incremental update of the KZG commitment accounts
 for deletions and does not mutate its inputs

---
 models/trie_kzg_bn256/model.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/models/trie_kzg_bn256/model.go b/models/trie_kzg_bn256/model.go
index f6d7966..3abc44f 100644
--- a/models/trie_kzg_bn256/model.go
+++ b/models/trie_kzg_bn256/model.go
@@ -177,8 +177,8 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 					prevS := scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), prevC.(*vectorCommitment).Point)
 					delta.Sub(delta, prevS)
 				}
-				deltas[int(i)] = delta
 			}
+			deltas[int(i)] = delta
 		}
 		// update mutated part
 		if childUpd == nil {
@@ -191,8 +191,7 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 		delta := m.TrustedSetup.Suite.G1().Scalar().Zero()
 		if terminal == nil {
 			if mutate.Terminal != nil {
-				delta = mutate.Terminal.(*terminalCommitment).Scalar
-				delta.Neg(delta)
+				delta.Neg(mutate.Terminal.(*terminalCommitment).Scalar)
 			}
 		} else {
 			delta.Set(terminal.(*terminalCommitment).Scalar)
@@ -208,7 +207,7 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 
 		// update upper commitment by adding calculated delta
 		if *update != nil {
-			prevP = (*update).(*vectorCommitment).Point
+			prevP = (*update).(*vectorCommitment).Point.Clone()
 		} else {
 			prevP = m.TrustedSetup.Suite.G1().Point().Null()
 		}
-- 
2.43.0


From 4e49d0f266b0367f1a0d06074de9d79e555e1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 22/26] fix: node buffered by Trie.GetNode does not retain the
 key of the caller

---
 trie/nodestore.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trie/nodestore.go b/trie/nodestore.go
index d638504..1d72006 100644
--- a/trie/nodestore.go
+++ b/trie/nodestore.go
@@ -92,7 +92,8 @@ func (sc *nodeStoreBuffered) getNode(unpackedKey []byte) (*bufferedNode, bool) {
 	if !ok {
 		return nil, false
 	}
-	ret = newBufferedNode(unpackedKey)
+	// the key belongs to the caller
+	ret = newBufferedNode(append([]byte(nil), unpackedKey...))
 	ret.n = n.n
 	ret.newTerminal = n.n.Terminal
 	sc.nodeCache[string(unpackedKey)] = ret
-- 
2.43.0


From c2cd50e8ad3a755259bc79f8521ef90b9bfc4cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 23/26] fix: the padding mark alone is not an encoding of the
 empty key

---
 trie/encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trie/encode.go b/trie/encode.go
index b3917dd..8a52414 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -198,6 +198,10 @@ func DecodeToUnpackedBytes(encoded []byte, arity PathArity) ([]byte, error) {
 	if len(encoded) == 0 {
 		return nil, nil
 	}
+	if len(encoded) == 1 && (arity == PathArity16 || arity == PathArity2) {
+		// the empty key is encoded without the padding mark
+		return nil, ErrWrongFormat
+	}
 	switch arity {
 	case PathArity256:
 		return encoded, nil
-- 
2.43.0


From 67615b012a819a51d66c57c30998a68297d8d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 24/26] fix: a negative index is not the index of a child

---
 trie/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/model.go b/trie/model.go
index c8e67af..a6da7d5 100644
--- a/trie/model.go
+++ b/trie/model.go
@@ -74,7 +74,7 @@ func (a PathArity) VectorLength() int {
 }
 
 func (a PathArity) IsChildIndex(i int) bool {
-	return i <= int(a)
+	return i >= 0 && i <= int(a)
 }
 
 func (a PathArity) NumChildren() int {
-- 
2.43.0


From 3ccd71d31fb65b89bf45a01cb59996500e00020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:07 +0000
Subject: [PATCH 25/26] fix: the size of the table of inverted differences does
 not wrap around

---
 models/trie_kzg_bn256/trusted.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 083d2a5..7f0f788 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -330,7 +330,7 @@ func (sd *TrustedSetup) tk(m int, ret kyber.Scalar) kyber.Scalar {
 
 func (sd *TrustedSetup) precalculate() {
 	sd.precalc = &precalculated{
-		invsub: make([]kyber.Scalar, sd.D*2-1),
+		invsub: make([]kyber.Scalar, int(sd.D)*2),
 		ta:     make([][]kyber.Scalar, sd.D),
 		tk:     make([]kyber.Scalar, sd.D),
 	}
-- 
2.43.0


From 41fa981393a687b969035c1cd21f316c303758d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:18 +0000
Subject: [PATCH 26/26] fix: no KZG proof and no panic for a key which ends at
 a node without terminal

---
 models/trie_kzg_bn256/proof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index c5ba780..bdeba7a 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -89,6 +89,11 @@ func (m *CommitmentModel) ProofOfInclusion(key []byte, tr trie.NodeStore) (*Proo
 		}
 	}
 
+	if nodes[proofLength-1].Terminal == nil {
+		// the path ends at a node which commits to children only: key is not present in the state
+		return nil, false
+	}
+
 	for i, n := range nodes {
 		ret.Path[i].C = m.calcNodeCommitment(n).Point
 		//if i == 0 || i == proofLength-1 {
-- 
2.43.0

