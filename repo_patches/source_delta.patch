From 2b5d7f84f438a2aafa3a1f55a4dabc626515a108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:53 +0000
Subject: [PATCH 1/5] fix: keep the collision flag in marshaled hash states

MarshalBinary dropped the collision flag, so a hash restored with
UnmarshalBinary reported no collision for data in which one had been found,
and restoring a clean state into a flagged hash kept the stale flag.

States without a collision keep their encoding; states with one are marked
by a second identifier of the same length.
---
 internal/const.go |  4 ++++
 sha1cd.go         | 13 +++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/const.go b/internal/const.go
index 944a131..fe78894 100644
--- a/internal/const.go
+++ b/internal/const.go
@@ -39,4 +39,8 @@ const (
 
 	Magic         = "shacd\x01"
 	MarshaledSize = len(Magic) + 5*4 + Chunk + 8
+
+	// MagicCollision identifies a marshaled state in which a collision has
+	// already been found. It is as long as Magic, and the layout is the same.
+	MagicCollision = "shacd\x02"
 )
diff --git a/sha1cd.go b/sha1cd.go
index 865a995..78f1b26 100644
--- a/sha1cd.go
+++ b/sha1cd.go
@@ -38,7 +38,11 @@ type digest struct {
 
 func (d *digest) MarshalBinary() ([]byte, error) {
 	b := make([]byte, 0, shared.MarshaledSize)
-	b = append(b, shared.Magic...)
+	if d.col {
+		b = append(b, shared.MagicCollision...)
+	} else {
+		b = append(b, shared.Magic...)
+	}
 	b = appendUint32(b, d.h[0])
 	b = appendUint32(b, d.h[1])
 	b = appendUint32(b, d.h[2])
@@ -73,12 +77,17 @@ func appendUint64(b []byte, v uint64) []byte {
 }
 
 func (d *digest) UnmarshalBinary(b []byte) error {
-	if len(b) < len(shared.Magic) || string(b[:len(shared.Magic)]) != shared.Magic {
+	if len(b) < len(shared.Magic) {
+		return errors.New("crypto/sha1: invalid hash state identifier")
+	}
+	magic := string(b[:len(shared.Magic)])
+	if magic != shared.Magic && magic != shared.MagicCollision {
 		return errors.New("crypto/sha1: invalid hash state identifier")
 	}
 	if len(b) != shared.MarshaledSize {
 		return errors.New("crypto/sha1: invalid hash state size")
 	}
+	d.col = magic == shared.MagicCollision
 	b = b[len(shared.Magic):]
 	b, d.h[0] = consumeUint32(b)
 	b, d.h[1] = consumeUint32(b)
-- 
2.43.0


From b2379dc148ccc4424627b2ff0fea02a78c7dfcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:33 +0000
Subject: [PATCH 2/5] fix: undo only the steps before the test step when
 recompressing

hasCollided rotated the working variables once per loop iteration, also for
the steps that it does not undo. For the disturbance vectors tested from step
58 that is seven rotations too many, so the recomputed chaining value was
wrong and no attack block based on one of these 18 vectors was ever detected,
in contrast to the C implementation.
---
 sha1cdblock_generic.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sha1cdblock_generic.go b/sha1cdblock_generic.go
index a80148e..29633a4 100644
--- a/sha1cdblock_generic.go
+++ b/sha1cdblock_generic.go
@@ -194,24 +194,24 @@ func hasCollided(step uint32, m1, dm *[shared.Rounds]uint32,
 	// The existing collision detection does not have dvs higher than 65,
 	// start value of i accordingly.
 	for i := uint32(64); i >= 60; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := b ^ c ^ d
 			e -= bits.RotateLeft32(a, 5) + f + shared.K3 + (m1[i] ^ dm[i]) // m2 = m1 ^ dm.
 		}
 	}
 	for i := uint32(59); i >= 40; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := ((b | c) & d) | (b & c)
 			e -= bits.RotateLeft32(a, 5) + f + shared.K2 + (m1[i] ^ dm[i])
 		}
 	}
 	for i := uint32(39); i >= 20; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := b ^ c ^ d
 			e -= bits.RotateLeft32(a, 5) + f + shared.K1 + (m1[i] ^ dm[i])
@@ -219,8 +219,8 @@ func hasCollided(step uint32, m1, dm *[shared.Rounds]uint32,
 	}
 	for i := uint32(20); i > 0; i-- {
 		j := i - 1
-		a, b, c, d, e = b, c, d, e, a
 		if step > j {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30) // undo the rotate left
 			f := b&c | (^b)&d
 			// subtract from e
-- 
2.43.0


From 91c4e91db9b3d267c735297f25d86aab053052b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:21 +0000
Subject: [PATCH 3/5] fix: require SSSE3 for the accelerated amd64 code

The assembly uses PSHUFB, which is an SSSE3 instruction, but only SSE3 and
SSE4 were checked: a processor (or a hypervisor's processor model) that
offers AVX, SHA and SSE4.1 but not SSSE3 ended with an illegal instruction.
---
 sha1cdblock_amd64.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sha1cdblock_amd64.go b/sha1cdblock_amd64.go
index 6b716ab..2704779 100644
--- a/sha1cdblock_amd64.go
+++ b/sha1cdblock_amd64.go
@@ -14,6 +14,7 @@ var hasSHANI = (runtime.GOARCH == "amd64" &&
 	cpuid.CPU.Supports(cpuid.AVX) &&
 	cpuid.CPU.Supports(cpuid.SHA) &&
 	cpuid.CPU.Supports(cpuid.SSE3) &&
+	cpuid.CPU.Supports(cpuid.SSSE3) &&
 	cpuid.CPU.Supports(cpuid.SSE4))
 
 // blockAMD64 hashes the message p into the current state in h.
-- 
2.43.0


From ff4b61af8f7eca615e8a37a6b6d8ade8664b9d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:01 +0000
Subject: [PATCH 4/5] fix: bound the arm64 block by its own address

The end of the input was computed from R16, which nothing sets. A block
was silently left out when R16 held a value close to 2^64.
---
 sha1cdblock_arm64.s | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sha1cdblock_arm64.s b/sha1cdblock_arm64.s
index 6376204..73f5a31 100644
--- a/sha1cdblock_arm64.s
+++ b/sha1cdblock_arm64.s
@@ -37,14 +37,14 @@ TEXT ·blockARM64(SB), NOSPLIT, $80-96
 
     LSR     $6, R2, R2
     LSL     $6, R2, R2
-    ADD     R16, R2, R21
+    ADD     R1, R2, R21
 
 	VLD1.P	16(R0), [V0.S4]
 	FMOVS	(R0), F20
 	SUB	$16, R0, R0
 
 loop:
-	CMP     R16, R21
+	CMP     R1, R21
 	BLS     end
 
 	// Load block (p) into 16-bytes vectors.
-- 
2.43.0


From 92f4de0cf473ea449110f4b4ecf1fcc94da406f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:41 +0000
Subject: [PATCH 5/5] fix: give the cgo package the same functions without cgo

---
 cgo/fallback_no_cgo.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cgo/fallback_no_cgo.go b/cgo/fallback_no_cgo.go
index 2656ed1..1ba9176 100644
--- a/cgo/fallback_no_cgo.go
+++ b/cgo/fallback_no_cgo.go
@@ -10,10 +10,15 @@ import (
 	"github.com/pjbgf/sha1cd/ubc"
 )
 
+const (
+	Size      = sha1cd.Size
+	BlockSize = sha1cd.BlockSize
+)
+
 // CalculateDvMask falls back to github.com/pjbgf/sha1cd/ubc implementation
 // due to CGO being disabled at compilation time.
-func CalculateDvMask(W *[80]uint32) uint32 {
-	return ubc.CalculateDvMask(W)
+func CalculateDvMask(W [80]uint32) uint32 {
+	return ubc.CalculateDvMask(&W)
 }
 
 // CalculateDvMask falls back to github.com/pjbgf/sha1cd implementation
-- 
2.43.0

