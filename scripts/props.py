#!/usr/bin/env python3
# Source of properties.jsonl: python3 scripts/props.py > properties.jsonl
import json
T="trie/"; B="models/trie_blake2b/"; V=B+"trie_blake2b_verify/verify.go"; K="models/trie_kzg_bn256/"; H="hive_adaptor/hiveadaptor.go"
P=[]
def p(id,title,stmt,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p("C01","An accepted blake2b proof follows its key from the root",
 "A blake2b proof is accepted against a root commitment only if the commitment recomputed bottom-up from its elements equals that root and the elements follow the key of the proof step by step: path fragments and child indices on the path must match the key, the key must end exactly at the last element if the proof ends at a terminal, and it must diverge or run into a missing child there if the proof is one of absence. A proof which violates any of this is rejected with an error, never accepted.",
 ["inputs"],"every proof value, honest, mutated or adversarial, and every root",
 "The tests only validate honestly generated proofs and never try to forge one; acceptance must be sound for every byte string an adversary can send.",
 [V],[("recursive verification of the path","Validate/verify in "+V),("hashing of a proof element","hashIt/makeHashVector in "+V)])
p("C02","Proof verdicts report exactly what was proven",
 "After a blake2b proof has been accepted, the reported key is the key of the proof, it is reported as present exactly if the proof ends at a terminal which is non-empty, and as absent in every other case. Validation against a value succeeds only for a valid proof of presence whose terminal is the commitment to that very value under the hash size of the proof.",
 ["inputs"],"every proof and every value",
 "Tests compare a handful of honest proofs with the value they were made from; classification must hold for all endings, for empty terminals and for values which differ from the committed one.",
 [V],[("classification of the last element","MustKeyWithTerminal/IsProofOfAbsence in "+V),("value check","ValidateWithValue in "+V)])
p("C03","Every part of a node is bound by its commitment, in its own slot",
 "The commitment to a node depends on each of its child commitments, its terminal and its path fragment, each entering the committed vector at a position no other part can occupy, and data is committed in a way in which different data does not give the same commitment. The trie, the verifier of proofs and the KZG opening use the same positions.",
 ["inputs","configurations"],"every node content, path arity and hash size",
 "A part left out or two parts sharing a slot only shows for particular pairs of states with equal roots; the tests compare a few roots for equality and do not search for collisions.",
 [B+"model.go",V,K+"model.go",T+"model.go"],[("hash vector of the trie","makeHashVector/HashTheVector in "+B+"model.go"),("hash vector of the verifier","makeHashVector in "+V),("KZG vector","makeVector in "+K+"model.go"),("slot numbers","PathArity methods in trie/model.go")])
p("C04","Generated blake2b proofs are complete for any key",
 "For every key, present or absent, the prover returns a proof which carries, for each node on the path, its path fragment, its terminal and all child commitments except the one on the path, and whose ending says how the key relates to the last node. The proof names the arity and hash size it was made with.",
 ["inputs","histories"],"every trie and every key, present or not",
 "Tests generate proofs for small random tries; a sibling left out for one ending or arity makes honest proofs fail only for particular shapes of the trie.",
 [B+"proof.go",T+"proof.go"],[("conversion of the generic path","CommitmentModel.Proof in "+B+"proof.go"),("path of the key","proofPath in trie/proof.go")])
p("C05","An accepted KZG proof has every opening checked and linked",
 "A KZG proof of inclusion is accepted only if its first commitment is the root, each element opens its commitment at its index, every opening but the last is to the next commitment in the path, the last one is to the terminal of the proof at the terminal position, and, if a value is given, that terminal commits to it. Acceptance binds the path to the key the proof is about.",
 ["inputs"],"every proof value, honest or adversarial, and every root",
 "Tests validate a few honest proofs; no test mutates indices, commitments or drops elements.",
 [K+"proof.go",K+"fun.go"],[("validation loop","ProofOfInclusion.Validate in "+K+"proof.go"),("pairing check","TrustedSetup.verify in "+K+"fun.go")])
p("C06","What is serialized is what is read back",
 "For every serialized form of the library (trie nodes, blake2b proofs, KZG proofs, commitments, trusted setups, key/value streams and dumps) the writer and the reader agree on the sequence, width, byte order, presence conditions and meaning of every field, so that any written object is read back as an equal object. Every field which takes part in the meaning of the object is written.",
 ["inputs","configurations"],"every value of each serializable type, every path arity and hash size",
 "Round trips are tested for few samples; a field mismatch for a particular flag combination, arity or child index shows only for those inputs (a 256-ary proof with children 0 and 1 was unreadable).",
 [T+"nodedata.go",T+"util.go",T+"kv.go",T+"encode.go",B+"proof.go",B+"model.go",K+"proof.go",K+"trusted.go",K+"model.go"],
 [("node","NodeData.Write/Read in trie/nodedata.go"),("proofs","Proof.Write/Read, ProofElement.Write/Read"),("trusted setup","TrustedSetup.write/read in "+K+"trusted.go"),("primitives","Read*/Write* in trie/util.go")])
p("C07","Truncated, partial or surplus input is never accepted",
 "Deserialization succeeds only if every announced byte was actually read, whatever the chunking of the underlying reader, and a whole-buffer decoder additionally only if no byte is left over; the end of the data is treated as a clean end only between records of a stream. Otherwise an error is returned.",
 ["inputs","fault_sequences"],"every prefix, extension and chunking of every serialized form",
 "Tests only decode complete buffers from in-memory readers; short reads happen with truncated files, pipes and sockets.",
 [T+"util.go",T+"nodedata.go",T+"kv.go",B+"proof.go",B+"model.go",K+"proof.go",K+"trusted.go"],
 [("length-prefixed reads","ReadBytes8/16/32 in trie/util.go"),("left-over check","*FromBytes functions"),("stream end","BinaryStreamIterator.Iterate in trie/kv.go")])
p("C08","Untrusted bytes never crash a decoder or a verifier",
 "Decoding arbitrary bytes as a key, a proof or a trusted setup, and validating any proof decoded from arbitrary bytes, either succeeds or returns an error: it never panics, indexes out of range or trips an assertion.",
 ["inputs"],"every byte string given to a decoder, and every decoded proof given to a verifier",
 "Tests feed well-formed data only; a single crafted byte used as index, length or enumeration value is enough to crash a verifier.",
 [T+"encode.go",T+"util.go",B+"proof.go",V,K+"proof.go",K+"trusted.go"],
 [("format checks","decode16/decode2 in trie/encode.go, Proof.Read in "+B+"proof.go"),("index checks","verify in "+V+", ProofOfInclusion.Validate in "+K+"proof.go")])
p("C09","No length or index is silently truncated",
 "Whenever a length, count or index is narrowed to the width it has in a serialized form or in a child slot, it is known to fit, or the operation fails; nothing is written with a wrapped-around length.",
 ["inputs"],"every size of key, value, path and index",
 "Tests use short keys and paths; wrap-around needs more than 255 or 65535 elements.",
 [T+"util.go",B+"proof.go",B+"model.go",K+"proof.go"],[("length-prefixed writes","WriteBytes8/16/32 in trie/util.go"),("path length and child index","Proof.Write, ProofElement.Write in "+B+"proof.go and "+K+"proof.go")])
p("C10","No storage, I/O or decoding error is lost",
 "Every error returned by the key/value store, a batch, a reader, a writer, a file or a decoder reaches the caller, as an error result or, where the interface has no error result, as a panic. No function reports success, absence of a key or an empty result when the operation it depends on failed.",
 ["fault_sequences","inputs"],"every operation failing at every call",
 "No test injects failures, and the hive.go adaptor has no tests at all.",
 [T+"util.go",T+"kv.go",T+"nodedata.go",T+"nodestore.go",H,B+"proof.go",B+"model.go",K+"proof.go",K+"trusted.go",K+"kzg_setup/kzg_setup.go"],
 [("error returns","all error-returning calls of the library"),("panic on storage error","mustNoErr in "+H)])
p("C11","A cloned trie is independent of the original",
 "Cloning a trie, a node or a commitment copies all of its state, including the buffered mutations, deletion marks and uncommitted changes, and later operations on either of the two never affect the other.",
 ["histories"],"every history of operations interleaved on the original and the clone",
 "One test clones once and compares; sharing of a single inner map or slice shows only if both sides are modified afterwards in particular order.",
 [T+"trie.go",T+"nodestore.go",T+"node.go",T+"nodedata.go",B+"model.go",K+"model.go"],
 [("clone chain","Trie.Clone, nodeStoreBuffered.clone, bufferedNode.Clone, NodeData.Clone"),("commitment clones","Clone methods of both models")])
p("C12","Buffers of the caller and results never alias trie state",
 "The trie does not retain key or value buffers passed by the caller, and the proofs and serialized data it returns share no memory with it: changing such a buffer afterwards, on either side, does not change the trie, its commitments or an earlier result.",
 ["histories","inputs"],"every later modification of a buffer passed in or returned",
 "Tests never reuse or modify buffers after passing them.",
 [T+"trie.go",T+"encode.go",T+"nodestore.go",B+"proof.go",B+"model.go",K+"proof.go"],
 [("unpacking of keys","UnpackBytes in trie/encode.go"),("copies in proofs","CommitmentModel.Proof in "+B+"proof.go, ProofOfInclusion in "+K+"proof.go")])
p("C13","Commitments and encodings are deterministic",
 "Commitments, serialized nodes, proofs and keys are functions of the content only: they do not depend on the iteration order of maps, time, randomness, memory addresses, the environment or mutable global state, so that equal content gives equal bytes on every run and machine.",
 ["schedules","inputs","histories"],"every run, process and map iteration order over the same content",
 "A test run samples a few iteration orders; order dependence may need many children in a node and a particular random order.",
 [T+"nodedata.go",T+"trie.go",T+"proof.go",B+"model.go",B+"proof.go",V,K+"model.go",K+"fun.go"],
 [("ordered serialization of children","NodeData.Write, ProofElement.Write"),("vector layout","makeHashVector, makeVector")])
p("C14","Reading never changes anything and may run concurrently",
 "Readers of the trie, computing commitments, generating and validating proofs, and encoding or decoding never write to a key/value store and never modify the trie reader, the commitment model, a trusted setup, a proof being verified or global state, so any number of goroutines may do it concurrently. The stores are only written by the operations whose purpose it is.",
 ["schedules","histories"],"every concurrent schedule of read operations",
 "Tests are single-threaded; a cache or scratch buffer added to shared state passes all of them.",
 [T+"trie.go",T+"nodestore.go",B+"model.go",V,K+"model.go",K+"fun.go",K+"trusted.go"],
 [("stateless reader","TrieReader/nodeStore.getNode"),("immutable models","CommitmentModel methods of both models"),("only writer","persistMutations in trie/nodestore.go")])
p("C15","Every update and deletion reaches the root commitment",
 "After any update or deletion and a commit, all commitments on the path from the changed node to the root are recomputed from the current content: no change is left out of the root, no stale child commitment survives and nothing is left marked as modified. A node is skipped by the recalculation only if nothing in it has changed.",
 ["histories"],"every sequence of updates, deletions and commits",
 "Randomized tests sample short histories; missing one mark in one reorganisation case leaves a stale commitment only for particular shapes and orders.",
 [T+"trie.go",T+"node.go"],[("marking","markModifiedCommitmentsBackToRoot, splitNode, mergeNode, Delete in trie/trie.go"),("recalculation","commitNode in trie/trie.go; UpdateNodeCommitment of both models")])
p("C16","Persisting writes the whole buffered state",
 "Persisting the mutations writes every buffered node and erases every deleted node in the store, under the keys by which the readers look nodes up, without skipping or conditions; until then the buffer overlays the store: a deleted node is never found, a buffered node hides the stored one. Clearing the cache forgets all of the buffered state.",
 ["histories"],"every sequence of updates, persists, cache clears and reads",
 "Tests persist in a few patterns; a skipped deletion or stale entry shows only in a later read after reopening the store.",
 [T+"nodestore.go",T+"trie.go"],[("writing","persistMutations in trie/nodestore.go"),("overlay","nodeStoreBuffered.getNode/insertNewNode/removeKey/unDelete"),("reset","clearCache")])
p("C17","A batched update is atomic: values and trie together",
 "The batched updater puts values and trie nodes into one and the same batch, commits the trie before persisting it into the batch, and commits and flushes the batch after everything is in it; buffered state is dropped only after the batch has been committed and flushed successfully. Nothing is written to the store outside of the batch.",
 ["crash_points","fault_sequences","histories"],"every crash point and every failing store operation during update and commit",
 "The adaptor has no tests; atomicity only shows with crashes or failing stores.",
 [H],[("batch life cycle","HiveBatchedUpdater.Update/Commit"),("batch writer","batchWriter.Set")])
p("C18","Partitions of a shared store never mix",
 "Every access of an adaptor to the shared store is confined to its own prefix: all keys read, written or deleted are prefixed with it, iteration is restricted to it and returns keys without it, and the trie and value partitions of an updater use the same prefixes for reading and for writing.",
 ["inputs","configurations","histories"],"every key, prefix and operation on a shared store",
 "The adaptor has no tests; a missing prefix in one operation only shows when two partitions hold overlapping keys.",
 [H],[("key construction","makeKey in "+H),("prefix wiring","NewHiveBatchedUpdater, newBatchWriter")])
p("C19","Empty value means deletion, everywhere",
 "Setting a nil or empty value deletes the key in every store implementation, batch and commitment model alike: nothing is stored for it, the trie commits to nothing, the trie entry is deleted, and reading an absent or empty entry gives nil and no presence. Non-empty values are always stored unchanged.",
 ["inputs","histories"],"every value including nil and empty, every store",
 "Tests use non-empty values nearly everywhere and never compare the implementations on empty ones.",
 [T+"kv.go",T+"trie.go",H,B+"model.go",K+"model.go"],[("in-memory store","inMemoryKVStore.Set"),("hive adaptors","HiveKVStoreAdaptor.Set/Get/Has, batchWriter.Set"),("no commitment to nothing","CommitToData of both models, Trie.Update")])
p("C20","The secret of the trusted setup never leaves its generation",
 "The secret and the seed used to generate a trusted setup only enter it hidden as multiples of curve points; they are never stored in the setup, serialized, printed, logged or put into an error or file, and the generating program wipes them before doing anything else.",
 ["inputs","programs"],"every generation of a setup and every output of the program",
 "No test can observe that a secret is not contained in some output; it must hold on all paths including errors.",
 [K+"trusted.go",K+"kzg_setup/kzg_setup.go"],[("generation","generatePowers, generateFromNaturalDomain in "+K+"trusted.go"),("wiping","main in "+K+"kzg_setup/kzg_setup.go")])
p("C21","KZG computations never modify shared curve elements",
 "Computing a commitment, an opening, an update or a verification never modifies in place a point or scalar which belongs to the trusted setup, a node, a stored commitment, a proof or an argument: results are computed in elements owned by the computation. A returned element is not shared with the setup or the input.",
 ["histories","schedules"],"every sequence of computations over the same setup and nodes",
 "The arithmetic library mutates its receivers; a corrupted basis element or stored commitment shows only in a later computation using it.",
 [K+"model.go",K+"fun.go",K+"trusted.go",K+"proof.go",K+"util.go"],[("fresh results","commit, prove, qPoly, verify in "+K+"fun.go"),("incremental update","UpdateNodeCommitment in "+K+"model.go")])
p("C22","A trusted setup is validated before it is used",
 "A setup is generated or loaded successfully only if the powers of its root of unity are checked to be distinct from one, the root of unity is checked when loaded, the secret is checked not to be weak or a point of the domain, all bytes are consumed, and all auxiliary tables are computed from the loaded domain; otherwise an error is returned and no setup.",
 ["inputs","configurations"],"every secret, root of unity and serialized setup",
 "Tests load one embedded setup; the checks only matter for bad ones.",
 [K+"trusted.go",K+"constants.go",K+"util.go",K+"model.go"],[("loading","TrustedSetupFromBytes, read in "+K+"trusted.go"),("generation","generatePowers, generateFromNaturalDomain"),("constants","init in "+K+"constants.go")])
p("C23","Path arity and hash size are honoured everywhere",
 "Every operation supports exactly the three path arities and the two hash sizes, with positions, vector lengths and encodings derived from the configured one; any other value is refused with an error or a panic, never processed with a default. A proof is verified under the arity and hash size it carries.",
 ["configurations","inputs"],"every arity, hash size, and invalid value of either",
 "The tests run a matrix of the valid configurations for some operations; a constant taken for one arity passes in all tests which do not reach it in the others.",
 [T+"model.go",T+"encode.go",B+"model.go",B+"proof.go",V],[("dispatch","switches on PathArity in trie/encode.go and trie/model.go, HashSize in "+B+"model.go")])
p("C24","Omitted terminals are reconstructed exactly",
 "When a terminal commitment is not stored with its node because it can be taken from the key or from the value store, reading the node back gives the same commitment: it is omitted only if it equals the commitment to the full key or is allowed by the model, and the reader derives it from the same full key, or from the value stored under that key, and fails if it cannot.",
 ["inputs","histories","configurations"],"every node, key, value and combination of the optimization settings",
 "Tests sample a few combinations of key commitments, thresholds and arities; a single disagreement changes the root after reopening only in one combination (it did, for key commitments in the root).",
 [T+"node.go",T+"nodedata.go",T+"trie.go",B+"model.go"],[("decision to omit","bufferedNode.Bytes in trie/node.go"),("reconstruction","NodeData.Read in trie/nodedata.go"),("cost of commitment","ForceStoreTerminalWithNode in "+B+"model.go")])
p("C25","Key encodings are canonical",
 "Packing a key into its stored form fails if an element is out of range for the arity, and otherwise records how much of the last byte is used; decoding accepts only what packing can produce, i.e. correct padding marks and zero padding, so two different keys never have the same stored form and no key has two.",
 ["inputs"],"every unpacked key and every encoded byte string, each arity",
 "Tests encode a few keys; two keys sharing a store key, or a second accepted form of one, needs a particular length and padding.",
 [T+"encode.go"],[("nibbles","encode16/decode16/pack16"),("bits","encode2/decode2/pack2"),("dispatch","EncodeUnpackedBytes, DecodeToUnpackedBytes, PackUnpackedBytes")])
p("C26","Deletion and insertion keep the trie in canonical shape",
 "A node exists only if it holds a terminal or at least two children: inserting a diverging key splits the node at the end of the common prefix, with the old content moved unchanged below, and after a deletion a node which commits to nothing is removed and the last node or its parent is merged with its only child. All nodes replaced by this are marked for removal from the store.",
 ["histories"],"every history of insertions and deletions",
 "Random tests compare roots for small key sets; a missing merge leads to a different root for the same content only after particular deletions.",
 [T+"trie.go",T+"nodestore.go"],[("splitting","splitNode in trie/trie.go"),("merging","Delete, checkReorg, mergeNode in trie/trie.go")])
p("C27","The root depends on the content only, not on the history",
 "Two tries which hold the same key/value pairs have the same root commitment, whatever the order and grouping of updates, deletions, commits, persists and reopenings which led there.",
 ["histories"],"every pair of histories leading to the same content",
 "Histories are unbounded; tests permute a few small key sets.",
 [T+"trie.go",T+"nodestore.go",T+"node.go"],[("update and deletion algorithms","Update/Delete/commitNode in trie/trie.go")])
p("C28","KZG openings are mathematically correct",
 "For every vector and index the computed commitment and opening satisfy the pairing equation for exactly the value at that index and for no other value.",
 ["inputs"],"every vector of scalars and index",
 "Field arithmetic over a 254-bit prime cannot be sampled exhaustively.",
 [K+"fun.go",K+"trusted.go"],[("openings","prove, qPoly, ta, tk in "+K)])
p("C29","Reconciliation reports exactly the inconsistent keys",
 "Reconciling a store with the trie returns a key if and only if the trie does not commit to the value the store holds for it, for every state including the empty trie and key commitments; it visits all entries of the store and never fails on any of them.",
 ["histories","inputs"],"every store content and trie state",
 "Tests reconcile consistent states and a few inconsistent ones; it panicked on an empty trie.",
 [T+"trie.go"],[("comparison","Reconcile in trie/trie.go")])
p("C30","Streams and dumps deliver every pair, in order, exactly once",
 "Writing a set of pairs to a stream or dump file writes each of them fully or reports an error, and iterating it hands over each written pair once, in the written order, until the end or until the consumer stops; counts and sizes reported agree with what was written.",
 ["inputs","fault_sequences"],"every sequence of pairs and every stopping point",
 "Tests write and read one random stream; dumps are tested for few entries.",
 [T+"kv.go",T+"util.go"],[("stream","BinaryStreamWriter.Write, BinaryStreamIterator.Iterate in trie/kv.go"),("dump","DumpToFile, UnDumpFromFile in trie/util.go")])
for x in P: print(json.dumps(x))
