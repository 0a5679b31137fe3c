From d7aefb4f64ae99cdf95dbe44d783d03fbe6b0ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 1/4] fix: keep the collision verdict across
 MarshalBinary/UnmarshalBinary

A hash which had found a collision lost that verdict when marshaled and
restored, and restoring a clean state into a flagged hash kept the stale
verdict. States of flagged hashes now use a second identifier; the encoding
of clean states is unchanged.
---
 internal/const.go | 4 ++++
 sha1cd.go         | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/internal/const.go b/internal/const.go
index 944a131..0c33899 100644
--- a/internal/const.go
+++ b/internal/const.go
@@ -39,4 +39,8 @@ const (
 
 	Magic         = "shacd\x01"
 	MarshaledSize = len(Magic) + 5*4 + Chunk + 8
+
+	// MagicCollision replaces Magic in the marshaled state of a hash which
+	// already found a collision. Both have the same length.
+	MagicCollision = "shacd\x02"
 )
diff --git a/sha1cd.go b/sha1cd.go
index 865a995..13e7150 100644
--- a/sha1cd.go
+++ b/sha1cd.go
@@ -39,6 +39,9 @@ type digest struct {
 func (d *digest) MarshalBinary() ([]byte, error) {
 	b := make([]byte, 0, shared.MarshaledSize)
 	b = append(b, shared.Magic...)
+	if d.col {
+		b = append(b[:0], shared.MagicCollision...)
+	}
 	b = appendUint32(b, d.h[0])
 	b = appendUint32(b, d.h[1])
 	b = appendUint32(b, d.h[2])
@@ -73,6 +76,11 @@ func appendUint64(b []byte, v uint64) []byte {
 }
 
 func (d *digest) UnmarshalBinary(b []byte) error {
+	col := len(b) >= len(shared.MagicCollision) && string(b[:len(shared.MagicCollision)]) == shared.MagicCollision
+	if col {
+		// Apart from the identifier, both encodings are the same.
+		b = append([]byte(shared.Magic), b[len(shared.MagicCollision):]...)
+	}
 	if len(b) < len(shared.Magic) || string(b[:len(shared.Magic)]) != shared.Magic {
 		return errors.New("crypto/sha1: invalid hash state identifier")
 	}
@@ -88,6 +96,7 @@ func (d *digest) UnmarshalBinary(b []byte) error {
 	b = b[copy(d.x[:], b):]
 	b, d.len = consumeUint64(b)
 	d.nx = int(d.len % shared.Chunk)
+	d.col = col
 	return nil
 }
 
-- 
2.43.0


From e3570eeda1b0f2739a1001b932313544e644c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 2/4] fix: undo only the steps before testT when recompressing

hasCollided rotated the working state for every step from 64 down, also for
the steps at or after testT which are not undone. For the 18 disturbance
vectors tested from step 58 the backward walk therefore started from a
rotated state, and no collision attack using them was ever detected by the
Go implementation (the C implementation detects them).
---
 sha1cdblock_generic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sha1cdblock_generic.go b/sha1cdblock_generic.go
index a80148e..74cdc74 100644
--- a/sha1cdblock_generic.go
+++ b/sha1cdblock_generic.go
@@ -194,6 +194,9 @@ func hasCollided(step uint32, m1, dm *[shared.Rounds]uint32,
 	// The existing collision detection does not have dvs higher than 65,
 	// start value of i accordingly.
 	for i := uint32(64); i >= 60; i-- {
+		if step <= i {
+			continue
+		}
 		a, b, c, d, e = b, c, d, e, a
 		if step > i {
 			b = bits.RotateLeft32(b, -30)
@@ -202,6 +205,9 @@ func hasCollided(step uint32, m1, dm *[shared.Rounds]uint32,
 		}
 	}
 	for i := uint32(59); i >= 40; i-- {
+		if step <= i {
+			continue
+		}
 		a, b, c, d, e = b, c, d, e, a
 		if step > i {
 			b = bits.RotateLeft32(b, -30)
-- 
2.43.0


From b85bead0b6328d52f133ff2a51ec4ae716569581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:07 +0000
Subject: [PATCH 3/4] fix: use the portable block function with compilers other
 than gc

The assembly files require the gc tag, but nothing provided block() on
amd64 and arm64 for other compilers, so the package did not compile with
gccgo.
---
 sha1cdblock_noasm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sha1cdblock_noasm.go b/sha1cdblock_noasm.go
index 4444c75..dba7e16 100644
--- a/sha1cdblock_noasm.go
+++ b/sha1cdblock_noasm.go
@@ -1,4 +1,4 @@
-//go:build (!amd64 && !arm64) || noasm
+//go:build (!amd64 && !arm64) || !gc || noasm
 
 package sha1cd
 
-- 
2.43.0


From 0991330def904322f98b3c5e00eb76f3bb57c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:53 +0000
Subject: [PATCH 4/4] fix: call the collision callback that sha1.h documents

SHA1DCSetCallback stored the function, but sha1_process never called it.
---
 cgo/sha1.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cgo/sha1.c b/cgo/sha1.c
index f532ef0..7d9a7d8 100644
--- a/cgo/sha1.c
+++ b/cgo/sha1.c
@@ -1985,6 +1985,10 @@ static void sha1_process(SHA1_CTX *ctx, const uint32_t block[16])
 					{
 						ctx->found_collision = 1;
 
+						/* total counts this block already, except for the 8 length bytes of the last one */
+						if (ctx->callback != NULL)
+							ctx->callback((ctx->total - 1) & ~(uint64_t)63, ctx->ihv1, ctx->ihv2, ctx->m1, ctx->m2);
+
 						if (ctx->safe_hash)
 						{
 							sha1_compression_W(ctx->ihv, ctx->m1);
-- 
2.43.0

