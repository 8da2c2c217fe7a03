From 1be0d25920155ed3b7f9b617a6157bc042eb49c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 01/18] fix: sm3: Write returns the number of bytes it consumed

---
 hash/sm3/sm3.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hash/sm3/sm3.go b/hash/sm3/sm3.go
index 90c6eeb..31b096d 100644
--- a/hash/sm3/sm3.go
+++ b/hash/sm3/sm3.go
@@ -57,6 +57,8 @@ func (d *digest) Reset() {
 
 func (d *digest) Write(input []byte) (nn int, err error) {
 
+	nn = len(input)
+
 	// current possition in the buffer
 	idx := int(d.len & uint64((d.BlockSize() - 1)))
 	d.len += uint64(len(input))
@@ -76,7 +78,7 @@ func (d *digest) Write(input []byte) (nn int, err error) {
 
 	// this eventually could be done in d.compress
 	copy(d.b[:], input[nblocks*d.BlockSize():])
-	return len(input), nil
+	return nn, nil
 }
 
 func (d *digest) Sum(in []byte) []byte {
-- 
2.43.0


From b109fd904275cead6eeed36b124b3d4758dd2e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 02/18] fix: sha3: Sum does not change the state of the hash

---
 hash/sha3/sha3.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hash/sha3/sha3.go b/hash/sha3/sha3.go
index d08dff8..f30a52d 100644
--- a/hash/sha3/sha3.go
+++ b/hash/sha3/sha3.go
@@ -191,7 +191,7 @@ func (c *state) Read(out []byte) (nread int, err error) {
 }
 
 // Sum applies padding to the hash state and then squeezes out the desired
-// number of output bytes.
+// number of output bytes. It doesn't change the underlying hash state.
 func (c *state) Sum(in []byte) []byte {
 	l := len(in)
 	// create buffer if nil has been provided
@@ -206,7 +206,10 @@ func (c *state) Sum(in []byte) []byte {
 	}
 
 	in = in[:l+c.Size()]
-	c.Read(in[l:])
+
+	// Squeeze a copy, so that caller can keep updating
+	dup := *c
+	dup.Read(in[l:])
 	return in
 }
 
-- 
2.43.0


From 71f4b1d218480243ab4557a2f5a8ab49b7e1ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 03/18] fix: sha3: bytepad adds nothing to an already aligned
 string

---
 hash/sha3/shake.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/sha3/shake.go b/hash/sha3/shake.go
index 16f2634..cfa2dd5 100644
--- a/hash/sha3/shake.go
+++ b/hash/sha3/shake.go
@@ -54,7 +54,7 @@ func bytepad(input []byte, w int) []byte {
 	buf := make([]byte, 0, 9+len(input)+w)
 	buf = append(buf, leftEncode(uint64(w))...)
 	buf = append(buf, input...)
-	padlen := w - (len(buf) % w)
+	padlen := (w - (len(buf) % w)) % w
 	return append(buf, make([]byte, padlen)...)
 }
 
-- 
2.43.0


From 8742bce27a363bf942b6eb8e0d125739c7278290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 04/18] fix: drbg: partial last block gets its own counter
 value and key

---
 drbg/ctr_drbg.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index 10ad81d..7f23162 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -147,8 +147,12 @@ func (c *CtrDrbg) ReadWithAdditionalData(out, ad []byte) (n int, err error) {
 	}
 
 	// Copy remainder - case for out being not block aligned
-	c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
-	copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])
+	if len(out)%BlockLen != 0 {
+		c.inc()
+		c.blockEnc.SetKey(c.key[:])
+		c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
+		copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])
+	}
 
 	c.update(seedBuf[:])
 	c.counter += 1
-- 
2.43.0


From 5a79ed04d43a7e9d1e7019c04b7e626634005b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 05/18] fix: drbg: Init does not depend on the previous working
 state

---
 drbg/ctr_drbg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index 7f23162..35d2049 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -79,6 +79,9 @@ func (c *CtrDrbg) Init(entropy, personalization []byte) bool {
 		seedBuf[i] ^= personalization[i]
 	}
 
+	// Instantiation starts from zero key and V (SP800-90A, 10.2.1.3.1)
+	c.key = [KeyLen]byte{}
+	c.v = [BlockLen]byte{}
 	c.blockEnc.SetKey(c.key[:])
 	c.update(seedBuf[:])
 	c.counter = 1
-- 
2.43.0


From a90cb3acc0a1c5d545e4cdb0db0edc63eb18c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 06/18] fix: utils: AES feature bit is in ECX of CPUID leaf 1

---
 utils/cpuid_amd64.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/cpuid_amd64.go b/utils/cpuid_amd64.go
index 3f20c01..e5a3137 100644
--- a/utils/cpuid_amd64.go
+++ b/utils/cpuid_amd64.go
@@ -23,11 +23,11 @@ func init() {
 		return
 	}
 
-	_, ecx, _, _ := cpuid(1, 0)
+	_, _, ecx, _ := cpuid(1, 0)
 	X86.HasAES = bitn(ecx, 25)
 
-	_, ecx, _, _ = cpuid(7, 0)
-	X86.HasBMI2 = bitn(ecx, 8)
-	X86.HasADX = bitn(ecx, 19)
-	X86.HasRDSEED = bitn(ecx, 18)
+	_, ebx, _, _ := cpuid(7, 0)
+	X86.HasBMI2 = bitn(ebx, 8)
+	X86.HasADX = bitn(ebx, 19)
+	X86.HasRDSEED = bitn(ebx, 18)
 }
-- 
2.43.0


From 29d9eb7d76b1527632c2d22884a28699228a57ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 07/18] fix: csidh: PrivateKey.Import does not panic on a
 longer buffer

---
 dh/csidh/csidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index d8f9c21..8b97c0e 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -200,7 +200,7 @@ func (c *PrivateKey) Import(key []byte) bool {
 	if len(key) < len(c.e) {
 		return false
 	}
-	for i, v := range key {
+	for i, v := range key[:len(c.e)] {
 		c.e[i] = int8(v)
 	}
 	return true
-- 
2.43.0


From 4666f8048442669ef7610535516c31f44a149e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 08/18] fix: csidh: PublicKey.Import replaces the previous key

---
 dh/csidh/csidh.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index 8b97c0e..1ef1055 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -247,6 +247,7 @@ func (c *PublicKey) Import(key []byte) bool {
 	if len(key) != numWords*limbByteSize {
 		return false
 	}
+	c.a = fp{}
 	for i := 0; i < len(key); i++ {
 		j := i / limbByteSize
 		k := uint64(i % 8)
-- 
2.43.0


From a80fecc1d2514ce9c2876ebb29a0ff4dfae11f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 09/18] fix: sidh: importing a public key replaces the previous
 key

---
 dh/sidh/common/utils.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/sidh/common/utils.go b/dh/sidh/common/utils.go
index e5ff4b3..988a204 100644
--- a/dh/sidh/common/utils.go
+++ b/dh/sidh/common/utils.go
@@ -19,6 +19,7 @@ func BytesToFp2(fp2 *Fp2, input []byte, bytelen int) {
 		panic("input byte slice too short")
 	}
 
+	*fp2 = Fp2{}
 	for i := 0; i < bytelen; i++ {
 		j := i / 8
 		k := uint64(i % 8)
-- 
2.43.0


From 76d3f54f1b1586a28d8ae8ed814cc3ac14f92023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 10/18] fix: sike: Encapsulate hashes only the ciphertext when
 the buffer is larger

---
 dh/sidh/sike.go  | 2 +-
 kem/mkem/sike.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sike.go b/dh/sidh/sike.go
index 611b68b..bb8a65f 100644
--- a/dh/sidh/sike.go
+++ b/dh/sidh/sike.go
@@ -100,7 +100,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *PublicKey) error {
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index 150ebab..ef26a4c 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -144,7 +144,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *sidh.PublicKey) error
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
-- 
2.43.0


From f84beb83607e0abb0afe8ba1585cdb17ded6367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 11/18] fix: mkem: MultiPKE.Encrypt starts with a fresh hash
 state

---
 kem/mkem/csidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/csidh.go b/kem/mkem/csidh.go
index 8927754..58d98f4 100644
--- a/kem/mkem/csidh.go
+++ b/kem/mkem/csidh.go
@@ -94,9 +94,9 @@ func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {
 	for i, pk := range keys {
 		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)
 
+		c.H.Reset()
 		c.H.Write(ss[:])
 		c.H.Read(ss[:16])
-		c.H.Reset()
 		for j := 0; j < 16; j++ {
 			c.Cts[i][j] = pt[j] ^ ss[j]
 		}
-- 
2.43.0


From ba8a89be32b77cffe67e102cc8e75706fe790ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 12/18] fix: mkem: MultiKEM.Decapsulate re-encrypts the
 decrypted message

---
 kem/mkem/sike.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index ef26a4c..8a2635b 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -351,7 +351,7 @@ func (c *MultiKEM) Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.Pu
 	_, _ = c.shake.Write(c.j[:skA.Params.SharedSecretSize])
 	_, _ = c.shake.Read(cti[:skA.Params.MsgLen])
 	for i := 0; i < skA.Params.MsgLen; i++ {
-		cti[i] ^= c.msg[i]
+		cti[i] ^= m[i]
 	}
 
 	// S is chosen at random when generating a key and unknown to other party. It is
-- 
2.43.0


From c853588ec43480782a18a1c61179b57100249932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:40 +0000
Subject: [PATCH 13/18] fix: sidh: Generate sets the top bit of p434 keys of
 the 2-torsion side

---
 dh/sidh/sidh.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index b3e923b..7f8d521 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -210,12 +210,16 @@ func (prv *PrivateKey) Generate(rand io.Reader) error {
 		return err
 	}
 
-	prv.Scalar[len(prv.Scalar)-1] &= (1 << (dp.SecretBitLen % 8)) - 1
+	top := dp.SecretBitLen - 1
+	for i := top/8 + 1; i < uint(len(prv.Scalar)); i++ {
+		prv.Scalar[i] = 0
+	}
+	prv.Scalar[top/8] &= byte(uint(1)<<(top%8+1) - 1)
 	// Make sure scalar is SecretBitLen long. SIKE spec says that key
 	// space starts from 0, but I'm not comfortable with having low
 	// value scalars used for private keys. It is still secrure as per
 	// table 5.1 in [SIKE].
-	prv.Scalar[len(prv.Scalar)-1] |= 1 << ((dp.SecretBitLen % 8) - 1)
+	prv.Scalar[top/8] |= 1 << (top % 8)
 
 	return nil
 }
-- 
2.43.0


From f155f33048fa131f4b8e213825eb48956826aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:57 +0000
Subject: [PATCH 14/18] fix: aes: AESAsm supports 128 and 192 bit keys and
 refuses other lengths

---
 drbg/internal/aes/cipher_asm.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/drbg/internal/aes/cipher_asm.go b/drbg/internal/aes/cipher_asm.go
index e2738fd..b96112d 100644
--- a/drbg/internal/aes/cipher_asm.go
+++ b/drbg/internal/aes/cipher_asm.go
@@ -23,20 +23,23 @@ func expandKeyAsm(nr int, key *byte, enc *uint32, dec *uint32)
 type AESAsm struct {
 	enc [32 + 28]uint32
 	dec [32 + 28]uint32
+	// number of rounds
+	nr int
 }
 
 func (c *AESAsm) SetKey(key []byte) error {
-	var rounds int
-	switch len(key) {
+	switch k := len(key); k {
+	default:
+		return KeySizeError(k)
 	case 128 / 8:
-		rounds = 10
+		c.nr = 10
 	case 192 / 8:
-		rounds = 12
+		c.nr = 12
 	case 256 / 8:
-		rounds = 14
+		c.nr = 14
 	}
 
-	expandKeyAsm(rounds, &key[0], &c.enc[0], &c.dec[0])
+	expandKeyAsm(c.nr, &key[0], &c.enc[0], &c.dec[0])
 	return nil
 }
 
@@ -52,7 +55,7 @@ func (c *AESAsm) Encrypt(dst, src []byte) {
 	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {
 		panic("crypto/aes: invalid buffer overlap")
 	}
-	encryptBlockAsm(len(c.enc)/4-1, &c.enc[0], &dst[0], &src[0])
+	encryptBlockAsm(c.nr, &c.enc[0], &dst[0], &src[0])
 }
 
 func (c *AESAsm) Decrypt(dst, src []byte) {
@@ -65,7 +68,7 @@ func (c *AESAsm) Decrypt(dst, src []byte) {
 	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {
 		panic("crypto/aes: invalid buffer overlap")
 	}
-	decryptBlockAsm(len(c.dec)/4-1, &c.dec[0], &dst[0], &src[0])
+	decryptBlockAsm(c.nr, &c.dec[0], &dst[0], &src[0])
 }
 
 // expandKey is used by BenchmarkExpand to ensure that the asm implementation
-- 
2.43.0


From 2f4b42981b83a85a42f241568d106edf48e3896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:53 +0000
Subject: [PATCH 15/18] fix: sidh: DeriveSecret refuses keys of the same
 torsion group

---
 dh/sidh/sidh.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index 7f8d521..dd2602c 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -264,7 +264,8 @@ func (prv *PrivateKey) GeneratePublicKey(pub *PublicKey) {
 func (prv *PrivateKey) DeriveSecret(ss []byte, pub *PublicKey) {
 	var isA = (prv.KeyVariant & KeyVariantSidhA) == KeyVariantSidhA
 
-	if (pub.KeyVariant == prv.KeyVariant) || (pub.Params.ID != prv.Params.ID) {
+	// Keys must come from different torsion groups
+	if ((pub.KeyVariant & KeyVariantSidhA) == (prv.KeyVariant & KeyVariantSidhA)) || (pub.Params.ID != prv.Params.ID) {
 		panic("sidh: public and private are incompatbile")
 	}
 
-- 
2.43.0


From 18892091b22f8be19e3df50d1ab1c2922152cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:08 +0000
Subject: [PATCH 16/18] fix: utils: report AES when the highest CPUID leaf is
 below 7

AES is a bit of leaf 1, so it does not need leaf 7. The detection returned
before looking at it on processors (or with BIOS settings) that limit the
highest leaf.
---
 utils/cpuid_amd64.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/cpuid_amd64.go b/utils/cpuid_amd64.go
index e5a3137..5bb6e2a 100644
--- a/utils/cpuid_amd64.go
+++ b/utils/cpuid_amd64.go
@@ -19,13 +19,17 @@ func bitn(bits uint32, n uint8) bool {
 func init() {
 	// CPUID returns max possible input that can be requested
 	max, _, _, _ := cpuid(0, 0)
-	if max < 7 {
+	if max < 1 {
 		return
 	}
 
 	_, _, ecx, _ := cpuid(1, 0)
 	X86.HasAES = bitn(ecx, 25)
 
+	if max < 7 {
+		return
+	}
+
 	_, ebx, _, _ := cpuid(7, 0)
 	X86.HasBMI2 = bitn(ebx, 8)
 	X86.HasADX = bitn(ebx, 19)
-- 
2.43.0


From 5cf3f71caea9061d701996b6ae0f5438c2968993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:21 +0000
Subject: [PATCH 17/18] fix: csidh: do not write into keys when only reading
 them

randFp used the working buffer inside the key, so that Validate,
GeneratePublicKey and DeriveSecret wrote to keys passed as inputs:
a data race for callers sharing a key.
---
 dh/csidh/csidh.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index 1ef1055..ea8a62c 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -42,18 +42,20 @@ type PrivateKey struct {
 
 // randFp generates random element from Fp.
 func (s *fpRngGen) randFp(v *fp, rng io.Reader) {
+	// Must not use s.wbuf: the key may be shared by concurrent, read-only users.
+	var buf [64]byte
 	mask := uint64(1<<(pbits%limbBitSize)) - 1
 	for {
 		*v = fp{}
-		_, err := io.ReadFull(rng, s.wbuf[:])
+		_, err := io.ReadFull(rng, buf[:])
 		if err != nil {
 			panic("Can't read random number")
 		}
 
-		for i := 0; i < len(s.wbuf); i++ {
+		for i := 0; i < len(buf); i++ {
 			j := i / limbByteSize
 			k := uint(i % 8)
-			v[j] |= uint64(s.wbuf[i]) << (8 * k)
+			v[j] |= uint64(buf[i]) << (8 * k)
 		}
 
 		v[len(v)-1] &= mask
-- 
2.43.0


From 6ea924a24ad421f22a7bb8a23a03a3dd4047749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:35 +0000
Subject: [PATCH 18/18] fix: sidh: PrivateKey.Init forgets the S of an earlier
 SIKE key

---
 dh/sidh/sidh.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index dd2602c..5ac1daf 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -310,6 +310,7 @@ func (c *PrivateKey) Init(fieldId uint8, v KeyVariant) {
 	} else {
 		c.Scalar = make([]byte, c.Params.B.SecretByteLen)
 	}
+	c.S = nil
 	if v == KeyVariantSike {
 		c.S = make([]byte, c.Params.MsgLen)
 	}
-- 
2.43.0

