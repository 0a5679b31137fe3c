#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,state,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe,hook_needed=hook)))
ASM="sha1cdblock_amd64.s"; ARM="sha1cdblock_arm64.s"; GEN="sha1cdblock_generic.go"; ROOT="sha1cd.go"; C="cgo/sha1.c"; CG="cgo/sha1.go"; UB="ubc/ubc.go"; UT="ubc/const.go"
p("C01","Ordinary data gets its exact SHA-1 digest and no collision verdict",
 "For every message that contains no collision-attack block, of any length and content, every hashing entry point (one-shot and streaming, Go and cgo, accelerated and portable) returns exactly the FIPS 180-4 SHA-1 digest of the message and reports that no collision was found.",
 ["inputs","histories","configurations"],
 "all messages without an attack block: every length (all residues mod 64, both padding shapes), every position and value of bits, every delivery, every engine and build configuration",
 "The golden table holds about 30 strings, all short and written in one or two pieces, plus one large file; an error at one length residue, one padding boundary, one bit position, one block index or in one engine survives it.",
 [ROOT,GEN,ASM,ARM,"sha1cdblock_amd64.go","sha1cdblock_arm64.go",C,CG],
 [("chaining value","five 32-bit words","digest.h / SHA1_CTX.ihv"),("length","bytes absorbed","digest.len / SHA1_CTX.total"),("tail buffer","up to 63 bytes","digest.x / SHA1_CTX.buffer")],
 [("padding and length encoding",ROOT+" checkSum; "+C+" SHA1DCFinal"),("80-step compression",GEN+" blockGeneric; "+ASM+"; "+ARM+"; "+C+" sha1_compression_states")],
 ["Sum","New().Write/Sum/CollisionResistantSum","cgo.Sum","cgo.New()"])
p("C02","Any way of streaming a message gives the one-shot result",
 "For every message and every way of delivering it to a hasher - any sequence of writes of any sizes including empty ones, with digest queries interleaved anywhere, after any earlier use followed by Reset, interleaved with other hashers - the digest and the collision verdict equal those of hashing the whole message at once. Asking for a digest never changes what the hasher will report later, and Reset returns it to the state of a new one, verdict included.",
 ["histories","inputs"],
 "all histories of Write/Sum/CollisionResistantSum/Reset (any number of hashers) over all messages, clean or containing attack blocks",
 "Existing tests write a golden string in at most two halves and reset only a hasher fed clean data in one order; the partial-buffer x block-boundary x query x Reset combinations are not enumerated, and never with an attack block in the stream.",
 [ROOT,CG,C],
 [("tail buffer and fill level","bytes waiting for a full block","digest.x,nx / SHA1_CTX.buffer,total&63"),("verdict","sticky collision flag","digest.col / SHA1_CTX.found_collision")],
 [("Write buffering",ROOT+" Write; "+C+" SHA1DCUpdate"),("Sum works on a copy",ROOT+" Sum/CollisionResistantSum; "+CG),("Reset",ROOT+" Reset; "+C+" SHA1DCInit")],
 ["Write","Sum","CollisionResistantSum","Reset","Sum(data)"])
p("C03","Every collision-attack block is detected, wherever and however it appears",
 "If any 64-byte block of the padded message - first, middle, last or the padding block itself - is a collision-attack block for any of the 32 published disturbance vectors (the sibling block obtained through that vector compresses to the same chaining value), the verdict is true, whatever precedes or follows the block, however the message was delivered and whichever engine ran. The verdict then stays true for every later query until Reset.",
 ["inputs","histories","configurations"],
 "all messages containing at least one attack block; all 32 disturbance vectors; all block positions, deliveries, continuations and engines",
 "The repository has four real collision files, which exercise two of the 32 disturbance vectors (both tested from step 65) at a single offset, read in one piece; the other 30 vectors, the step-58 path, the padding block and the stickiness of the verdict are never executed to a positive answer.",
 [GEN,"sha1cdblock_amd64.go","sha1cdblock_arm64.go",ASM,ARM,C,UB,UT],
 [("verdict","sticky collision flag","digest.col / SHA1_CTX.found_collision"),("saved step states","states before steps 58 and 65","cs / SHA1_CTX.states"),("expanded message","80 words","m1")],
 [("unavoidable-condition filter",UB+" CalculateDvMask; cgo/ubc_check.c"),("recompression",GEN+" checkCollision/hasCollided; "+C+" sha1_recompression_step"),("state fix-up for SIMD",GEN+" rectifyCompressionState")],
 ["CollisionResistantSum","Sum","cgo.Sum"])
p("C04","Flagged blocks are hashed with the 240-step safe hash; collisions are broken",
 "Whenever an attack block is detected, that block (and only that block) is absorbed by applying the SHA-1 compression function three times in succession to the same block, chaining value feeding forward, before hashing goes on. Hence the digest of any message containing attack blocks is exactly that safe hash, and two messages that collide under plain SHA-1 get different digests.",
 ["inputs","histories","configurations"],
 "all messages with any number and placement of attack blocks, any delivery, every engine",
 "Four pinned digests with one attack-block position each; nothing exercises two attack blocks, an attack block in the first or padding block, an unaligned delivery, or other vectors.",
 [GEN,"sha1cdblock_amd64.go","sha1cdblock_arm64.go",C],
 [("chaining value","five words after each block","digest.h / SHA1_CTX.ihv")],
 [("rehash twice more on detection",GEN+" goto rehash; sha1cdblock_amd64.go block; sha1cdblock_arm64.go block; "+C+" sha1_process safe_hash")],
 ["Sum","CollisionResistantSum"])
p("C05","All engines and build configurations agree on digest and verdict",
 "For every message and call history, the accelerated assembly (amd64, arm64), the portable Go code, the cgo engine, the no-cgo fallback of the cgo package and every supported build target (32- or 64-bit, little- or big-endian) report the same digest and the same verdict.",
 ["configurations","inputs","histories"],
 "all messages and histories x all engines x all build configurations",
 "The tests compare engines on the same few strings and files on the build machine's architecture only; arm64, 32-bit, big-endian, noasm and cgo-less builds are never run by the suite here.",
 [ASM,ARM,"sha1cdblock_amd64.go","sha1cdblock_arm64.go","sha1cdblock_noasm.go",GEN,CG,"cgo/fallback_no_cgo.go",C],
 [("expanded message and step states","what the engines hand to detection","m1, cs")],
 [("SIMD rounds and stored intermediate states",ASM+"; "+ARM),("fallbacks","sha1cdblock_noasm.go; cgo/fallback_no_cgo.go")],
 ["Sum","New","cgo.Sum","cgo.New"])
p("C06","The unavoidable-bit-condition mask is exact in Go and in C",
 "For every 80-word expanded message, the disturbance-vector mask has a vector's bit set if and only if all published unavoidable bit conditions of that vector hold, in the Go and in the C implementation alike; a nil message yields mask 0 in Go.",
 ["inputs"],
 "all 2^2560 values of the expanded message, decided through all patterns of the 373 conditions",
 "The test compares Go with C on one list of expanded blocks taken from one file; almost none of the 373 conditions is flipped on its own, and both sides could share an error.",
 [UB,UT,"cgo/ubc_check.c","cgo/ubc_check.go"],
 [("mask","one bit per vector","return value")],
 [("bit-sliced condition evaluation",UB+" CalculateDvMask; cgo/ubc_check.c ubc_check")],
 ["ubc.CalculateDvMask","cgo.CalculateDvMask"])
p("C07","The disturbance-vector tables are the published ones",
 "The list of disturbance vectors consulted by detection is exactly the published set of 32 vectors, in Go and in C: same order and mask bits, same type, K and b, the step to test from, every one of the 80 message-difference words, and a terminating entry. Consulting or using the library never alters it.",
 ["inputs","histories","configurations"],
 "all 32 entries x 80 words x fields, in both tables, before and after any use of the library",
 "Only two of the 32 entries are exercised by the collision files, and a wrong word in any other entry silently disables detection of a whole attack class.",
 [UT,UB,"cgo/ubc_check.c","cgo/ubc_check.h"],
 [("vector table","32 entries plus terminator","ubc.sha1_dvs / sha1_dvs[]")],
 [("constant tables",UT+"; cgo/ubc_check.c")],
 ["ubc.SHA1_dvs","C sha1_dvs"])
p("C08","Detection never raises a false alarm",
 "A block is flagged only if, for one of the 32 vectors, the sibling block really produces the identical 160-bit chaining value: meeting the unavoidable bit conditions, agreeing on only some output words or bits, agreeing on the input but not the output, or resembling a known attack is never enough. Hence data without an attack block is never flagged and its digest never altered.",
 ["inputs","histories","configurations"],
 "all blocks whose sibling output differs in at least one bit, for every vector and engine, anywhere in a message",
 "No test contains a near miss: random and textual inputs reach the recompression comparison rarely and never come within 100 bits of equality.",
 [GEN,"sha1cdblock_amd64.go","sha1cdblock_arm64.go",C,UB],
 [("recomputed chaining value","five words compared with the real ones","ihv / ihvtmp")],
 [("160-bit comparison",GEN+" hasCollided; "+C+" sha1_process")],
 ["CollisionResistantSum","Sum"])
p("C09","A marshalled state resumes exactly, verdict included",
 "For every history, marshalling a hasher and unmarshalling into any other hasher (fresh, used, reset or already flagged) yields a hasher whose every later digest and verdict equals that of continuing the original, including a collision found before the snapshot. Equal histories give identical encodings, marshalling does not disturb the hasher, a snapshot is independent of later use of the hasher and of the caller's buffer, and the documented 98-byte encoding of clean states stays readable.",
 ["histories","inputs","configurations"],
 "all histories (clean or flagged), all snapshot points, all prior states of the receiving hasher, all continuations, snapshots moved between engines",
 "The golden test marshals a fresh hasher half way through short clean strings and restores into a fresh one; it never snapshots a flagged hasher, nor restores into a used one.",
 [ROOT,"internal/const.go"],
 [("encoded state","magic, 5 words, 64 buffer bytes, length","MarshalBinary output"),("verdict","sticky flag","digest.col")],
 [("MarshalBinary/UnmarshalBinary",ROOT)],
 ["MarshalBinary","UnmarshalBinary","CollisionResistantSum"])
p("C10","Malformed saved states are rejected and change nothing",
 "Unmarshalling accepts exactly the byte strings that carry a valid identifier and the exact encoded size; for every other byte string (empty, truncated, extended, wrong identifier) it returns an error without panicking and leaves the receiving hasher exactly as it was. Whatever it accepts leaves a hasher that never panics or reads outside its state, whatever length or buffer contents the encoding claims.",
 ["inputs","histories","fault_sequences"],
 "all byte strings offered as a state, all receiving states, all later operations",
 "No existing test offers a malformed state to UnmarshalBinary.",
 [ROOT,"internal/const.go"],
 [("receiving hasher","must be unchanged on error","digest")],
 [("identifier and size checks before any assignment",ROOT+" UnmarshalBinary")],
 ["UnmarshalBinary"])
p("C11","Caller-owned buffers are respected (hash.Hash and io.Writer contract)",
 "Write accepts all bytes, returns their count and a nil error, and neither modifies nor keeps the caller's slice; digest queries append exactly 20 bytes to the slice they are given, leaving its contents as they were, and return values the caller can modify without affecting any hasher. One-shot and mask functions likewise neither modify nor keep their input, and the size constants are 20 and 64.",
 ["inputs","histories","configurations"],
 "all buffer lengths, capacities, alignments and aliasing patterns, all write sizes and fill levels, mutations of the buffer after the call, every engine",
 "Existing tests always pass nil or a throw-away slice, never read-only memory, spare capacity with live data, or a buffer that is overwritten after Write returns.",
 [ROOT,CG,GEN,ASM,ARM,UB,"cgo/ubc_check.go"],
 [("tail buffer","must be a copy of caller bytes","digest.x / SHA1_CTX.buffer")],
 [("copy into the tail buffer",ROOT+" Write; "+C+" memcpy"),("append",ROOT+" Sum; "+CG+" CollisionResistantSum")],
 ["Write","Sum","CollisionResistantSum","MarshalBinary","CalculateDvMask"])
p("C12","Concurrent use of independent hashers and concurrent queries are safe",
 "Hashers used by different goroutines, including the package-level one-shot and mask functions, never influence each other's digests or verdicts under any interleaving and have no data race, and any number of concurrent digest queries (and state snapshots) of one hasher that nobody writes to all return the same correct answer.",
 ["schedules","histories"],
 "all interleavings of operations of independent hashers in 2-3 goroutines and of concurrent read-only queries of one hasher, Go and C engines",
 "The suite has no concurrent test at all; run with -race it still sees one goroutine.",
 [ROOT,GEN,"sha1cdblock_amd64.go","sha1cdblock_arm64.go",UB,UT,CG,C],
 [("shared data","must be only read-only tables","ubc.sha1_dvs, sha1_dvs[], CPU flags")],
 [("all working state local or per hasher",GEN+"; sha1cdblock_amd64.go; "+C+" SHA1_CTX"),("queries on a copy",ROOT+" Sum; "+CG+" Sum")],
 ["New","Sum","CollisionResistantSum","CalculateDvMask","MarshalBinary"])
p("C13","Message length is accounted exactly at every magnitude",
 "The padding encodes the true bit length modulo 2^64 whatever the number of bytes absorbed - beyond 2^29, 2^31, 2^32 bytes and up to the 2^61-byte limit, in one write or many - so digests of huge messages are correct, the position inside the current block never drifts, and the count survives snapshots.",
 ["inputs","histories","configurations"],
 "all message lengths, in particular both sides of every power of two, split over any writes, every engine",
 "The largest message in the test-suite is below a megabyte, so a 32-bit count, a shift overflow or a sign error is invisible.",
 [ROOT,C,CG],
 [("length","64-bit count of bytes","digest.len / SHA1_CTX.total")],
 [("64-bit count and shift by 3",ROOT+" checkSum; "+C+" SHA1DCFinal"),("size_t length handed to C",CG+" Write")],
 ["Write","Sum","UnmarshalBinary"])
p("C14","Memory safety: only the given bytes are read, nothing else is written",
 "Hashing reads exactly the bytes passed to it (never before or after the slice, at any alignment and length, including empty and nil slices) and writes only its own state, in the Go, assembly and C code; no call panics, traps, reads uninitialised memory or executes undefined behaviour that affects the result.",
 ["inputs","histories","configurations"],
 "all slice lengths, offsets and alignments, all fill levels, all engines; adjacent memory unmapped or poisoned",
 "Tests hash ordinary heap slices, where an over-read of a few bytes is invisible; the assembly and the C code are outside the Go memory-safety guarantee.",
 [ASM,ARM,"sha1cdblock_amd64.go","sha1cdblock_arm64.go",C,"cgo/ubc_check.c",CG],
 [("scratch arrays written by assembly","m1[80], cs[3][5]","stack of block()")],
 [("64-byte chunks only","sha1cdblock_amd64.go; sha1cdblock_arm64.go"),("bounded loops and copies",C)],
 ["Write","Sum","cgo.Sum"])
p("C15","Every CPU and build gets a working engine and the same answers",
 "On every processor model and every build configuration the library starts, picks an implementation whose instructions that processor really has, and returns the same correct digests and verdicts; the absence of an optional CPU feature never leads to an illegal instruction or a different answer.",
 ["configurations","inputs"],
 "all processor feature sets (emulated models and feature combinations) x build configurations (assembly, noasm, cgo, no cgo, architectures)",
 "The suite runs on one CPU; the selection logic for CPUs lacking one of the needed features is never taken.",
 ["sha1cdblock_amd64.go","sha1cdblock_arm64.go","sha1cdblock_noasm.go","cgo/fallback_no_cgo.go",ASM,ARM],
 [("CPU feature flag","decided once at start","hasSHANI / hasSHA1")],
 [("cpuid checks","sha1cdblock_amd64.go; sha1cdblock_arm64.go"),("build constraints","sha1cdblock_noasm.go; cgo/fallback_no_cgo.go")],
 ["New","Sum","cgo.New"])
p("C16","The C engine's documented switches and callback do exactly what sha1.h says",
 "For every history of initialising, switching and updating a C context: disabling safe hashing leaves the verdict but gives the plain SHA-1 digest of attacked messages; disabling the use of unavoidable bit conditions never loses a detection and also flags a sibling collision whose conditions fail; disabling detection gives plain SHA-1 and no verdict for the blocks processed meanwhile; enabling reduced-round detection also flags blocks whose sibling starts from the same chaining value; a callback is called exactly once per flagged block with the block's byte offset in the padded message, both input chaining values and both expanded messages. Any non-zero value enables a switch, a switch affects only its own context and only blocks processed after it, verdicts already found stay, and SHA1DCInit restores the defaults.",
 ["histories","inputs","configurations"],
 "all sequences of SHA1DCInit, the five setters and SHA1DCUpdate on one or two contexts, all 32 vectors, attacked, reduced-round, near-miss and ordinary blocks, the padding block included",
 "No test calls any of the setters; only the defaults are ever exercised.",
 [C,"cgo/sha1.h","cgo/ubc_check.c"],
 [("switches","safe_hash, ubc_check, detect_coll, reduced_round_coll, callback","SHA1_CTX")],
 [("setters and defaults",C+" SHA1DCInit, SHA1DCSet*"),("use of the switches",C+" sha1_process")],
 ["SHA1DCInit","SHA1DCSetSafeHash","SHA1DCSetUseUBC","SHA1DCSetUseDetectColl","SHA1DCSetDetectReducedRoundCollision","SHA1DCSetCallback","SHA1DCUpdate","SHA1DCFinal"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
