From 5fa43b63f8fa259d40d007383e569067bdaca335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 01/35] fix: sm3 Write of an empty slice must not panic

---
 sm3/sm3.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 141a4e7..1f44136 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -86,7 +86,6 @@ func (digest *sm3Digest) Reset() {
 }
 
 func (digest *sm3Digest) Write(p []byte) (n int, err error) {
-	_ = p[0]
 	inLen := len(p)
 
 	i := 0
-- 
2.43.0


From aaaac49e364e1c55437ed51b9dd25549b3a2ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 02/35] fix: sm3 Sum must not disturb the running state

---
 sm3/sm3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 1f44136..3836e59 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -39,7 +39,7 @@ func New() hash.Hash {
 }
 
 func (digest *sm3Digest) Sum(b []byte) []byte {
-	d1 := digest
+	d1 := *digest
 	h := d1.checkSum()
 	return append(b, h[:]...)
 }
-- 
2.43.0


From a493d761e04d8fd121d47b8e0d4d2d8f474e3ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 03/35] fix: sm3 Write offset overflow for slices of 2 GiB and
 more

---
 sm3/sm3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 3836e59..7bc513f 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -104,7 +104,7 @@ func (digest *sm3Digest) Write(p []byte) (n int, err error) {
 
 	limit := ((inLen - i) & ^3) + i
 	for ; i < limit; i += 4 {
-		digest.processWord(p, int32(i))
+		digest.processWord(p, i)
 	}
 
 	for i < inLen {
@@ -214,7 +214,7 @@ func (digest *sm3Digest) processBlock() {
 	digest.xOff = 0
 }
 
-func (digest *sm3Digest) processWord(in []byte, inOff int32) {
+func (digest *sm3Digest) processWord(in []byte, inOff int) {
 	n := binary.BigEndian.Uint32(in[inOff : inOff+4])
 
 	digest.inWords[digest.xOff] = n
-- 
2.43.0


From ce926501d42c279b054ebb51a65b7be6b2f1e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 04/35] fix: sm3 block size is 64 bytes

---
 sm2/keyexchange.go |  4 ++--
 sm3/sm3.go         | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 66ae995..d7e6a2a 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -44,8 +44,8 @@ func calculateU(w int, selfStaticPriv *PrivateKey, selfEphemeralPriv *PrivateKey
 
 func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) []byte {
 	bufSize := 4
-	if bufSize < digest.BlockSize() {
-		bufSize = digest.BlockSize()
+	if bufSize < digest.Size() {
+		bufSize = digest.Size()
 	}
 	buf := make([]byte, bufSize)
 
diff --git a/sm3/sm3.go b/sm3/sm3.go
index 7bc513f..bdfdece 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -9,7 +9,9 @@ import (
 
 const (
 	DigestLength = 32
-	BlockSize    = 16
+	BlockSize    = 64
+
+	blockWords = BlockSize / 4
 )
 
 var gT = []uint32{
@@ -24,7 +26,7 @@ var gT = []uint32{
 
 type sm3Digest struct {
 	v         [DigestLength / 4]uint32
-	inWords   [BlockSize]uint32
+	inWords   [blockWords]uint32
 	xOff      int32
 	w         [68]uint32
 	xBuf      [4]byte
@@ -226,14 +228,14 @@ func (digest *sm3Digest) processWord(in []byte, inOff int) {
 }
 
 func (digest *sm3Digest) processLength(bitLength int64) {
-	if digest.xOff > (BlockSize - 2) {
+	if digest.xOff > (blockWords - 2) {
 		digest.inWords[digest.xOff] = 0
 		digest.xOff++
 
 		digest.processBlock()
 	}
 
-	for ; digest.xOff < (BlockSize - 2); digest.xOff++ {
+	for ; digest.xOff < (blockWords - 2); digest.xOff++ {
 		digest.inWords[digest.xOff] = 0
 	}
 
-- 
2.43.0


From 447d09045816375583a6977e1c8e51fe608ab870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 05/35] fix: key exchange KDF must support keys longer than one
 hash block

---
 sm2/keyexchange.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index d7e6a2a..3ffc9dd 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -68,6 +68,9 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 		copy(buf[:bufSize], tmp[:bufSize])
 
 		copyLen := rvLen - off
+		if copyLen > bufSize {
+			copyLen = bufSize
+		}
 		copy(rv[off:off+copyLen], buf[:copyLen])
 		off += copyLen
 	}
-- 
2.43.0


From 764cd51583b9ad680573648b3bcc9e112f7978d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 06/35] fix: key exchange must hash coordinates with leading
 zero bytes at full width

---
 sm2/keyexchange.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 3ffc9dd..f7e3cda 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -51,8 +51,8 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 	rv := make([]byte, (keyBits+7)/8)
 	rvLen := len(rv)
-	uxBytes := ux.Bytes()
-	uyBytes := uy.Bytes()
+	uxBytes := bigIntTo32Bytes(ux)
+	uyBytes := bigIntTo32Bytes(uy)
 	off := 0
 	ct := uint32(0)
 	for off < rvLen {
@@ -79,20 +79,20 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 func calculateInnerHash(digest hash.Hash, ux *big.Int, za, zb []byte, p1x, p1y *big.Int, p2x, p2y *big.Int) []byte {
 	digest.Reset()
-	digest.Write(ux.Bytes())
+	digest.Write(bigIntTo32Bytes(ux))
 	digest.Write(za)
 	digest.Write(zb)
-	digest.Write(p1x.Bytes())
-	digest.Write(p1y.Bytes())
-	digest.Write(p2x.Bytes())
-	digest.Write(p2y.Bytes())
+	digest.Write(bigIntTo32Bytes(p1x))
+	digest.Write(bigIntTo32Bytes(p1y))
+	digest.Write(bigIntTo32Bytes(p2x))
+	digest.Write(bigIntTo32Bytes(p2y))
 	return digest.Sum(nil)
 }
 
 func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x02})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
@@ -100,7 +100,7 @@ func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 func s2(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x03})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
-- 
2.43.0


From 3423a44244329dafa006d801d19e6295bfe38389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:48 +0000
Subject: [PATCH 07/35] fix: sm2 Encrypt of an empty message must terminate

---
 sm2/sm2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index f958e88..1375d77 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -276,7 +276,7 @@ func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byt
 		kPBx, kPBy = pub.Curve.ScalarMult(pub.X, pub.Y, kBytes)
 		kdf(digest, kPBx, kPBy, c2)
 
-		if !notEncrypted(c2, in) {
+		if len(in) == 0 || !notEncrypted(c2, in) {
 			break
 		}
 	}
-- 
2.43.0


From 68ff31916927c7ef7117e167ad9bac35bfc358cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:48 +0000
Subject: [PATCH 08/35] fix: sm2 Decrypt must answer short input and invalid C1
 with an error

---
 sm2/sm2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 1375d77..98a5590 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -307,9 +307,15 @@ func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byt
 
 func Decrypt(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
 	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1
+	if len(in) < c1Len+sm3.DigestLength {
+		return nil, errors.New("cipher text too short")
+	}
 	c1 := make([]byte, c1Len)
 	copy(c1, in[:c1Len])
 	c1x, c1y := elliptic.Unmarshal(priv.Curve, c1)
+	if c1x == nil {
+		return nil, errors.New("invalid cipher text: C1 is not a point on the curve")
+	}
 	sx, sy := priv.Curve.ScalarMult(c1x, c1y, sm2H.Bytes())
 	if util.IsEcPointInfinity(sx, sy) {
 		return nil, errors.New("[h]C1 at infinity")
-- 
2.43.0


From bc889ec714b0fae9b179450ec9f345f63ca97e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:48 +0000
Subject: [PATCH 09/35] fix: sm2 MarshalCipher must refuse short input

---
 sm2/sm2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 98a5590..bf7b728 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -353,6 +353,9 @@ func Decrypt(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) ([]b
 
 func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
 	byteLen := (sm2P256V1.Params().BitSize + 7) >> 3
+	if len(in) < 1+byteLen*2+sm3.DigestLength {
+		return nil, errors.New("cipher text too short")
+	}
 	c1x := make([]byte, byteLen)
 	c1y := make([]byte, byteLen)
 	c2Len := len(in) - (1 + byteLen*2) - sm3.DigestLength
-- 
2.43.0


From 574dd20e045ed75dd293b2795643ad362fae69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 10/35] fix: sm2 UnmarshalCipher must refuse what is not the
 DER form of a ciphertext

---
 sm2/sm2.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index bf7b728..606ee3d 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -393,6 +393,17 @@ func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error)
 	}
 }
 
+// isDER reports whether in is the one DER encoding of val: asn1.Unmarshal alone would let bytes
+// after the structure and extra elements at its end pass.
+func isDER(in []byte, val interface{}) bool {
+	der, err := asn1.Marshal(val)
+	return err == nil && bytes.Equal(der, in)
+}
+
+func isCipherValid(x, y *big.Int, c3 []byte) bool {
+	return x.Sign() >= 0 && x.BitLen() <= BitSize && y.Sign() >= 0 && y.BitLen() <= BitSize && len(c3) == sm3.DigestLength
+}
+
 func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, err error) {
 	if cipherTextType == C1C2C3 {
 		cipher := new(sm2CipherC1C2C3)
@@ -400,6 +411,9 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		if err != nil {
 			return nil, err
 		}
+		if !isDER(in, *cipher) || !isCipherValid(cipher.X, cipher.Y, cipher.C3) {
+			return nil, errors.New("invalid cipher text")
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
@@ -424,6 +438,9 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		if err != nil {
 			return nil, err
 		}
+		if !isDER(in, *cipher) || !isCipherValid(cipher.X, cipher.Y, cipher.C3) {
+			return nil, errors.New("invalid cipher text")
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
-- 
2.43.0


From 2d0a62cc6eed91f47787292d032dc35aa05d4dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 11/35] fix: sm2 signature decoder must refuse trailing bytes
 and elements

---
 sm2/sm2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 606ee3d..06a363d 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -508,6 +508,9 @@ func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 	if err != nil {
 		return nil, nil, err
 	}
+	if !isDER(sign, *sm2Sign) {
+		return nil, nil, errors.New("signature is not DER encoded")
+	}
 	return sm2Sign.R, sm2Sign.S, nil
 }
 
-- 
2.43.0


From 48ca288fd518d65bcbe744d995a813da2d287c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 12/35] fix: sm2 GenerateKey must not return the private keys 0
 and n-1

---
 sm2/sm2.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 06a363d..46ef69b 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -97,13 +97,22 @@ func GetSm2P256V1() P256V1Curve {
 }
 
 func GenerateKey(rand io.Reader) (*PrivateKey, *PublicKey, error) {
-	priv, x, y, err := elliptic.GenerateKey(sm2P256V1, rand)
-	if err != nil {
-		return nil, nil, err
+	var d, x, y *big.Int
+	for {
+		var priv []byte
+		var err error
+		priv, x, y, err = elliptic.GenerateKey(sm2P256V1, rand)
+		if err != nil {
+			return nil, nil, err
+		}
+		d = new(big.Int).SetBytes(priv)
+		if isPrivateKeyValid(d, sm2P256V1.N) {
+			break
+		}
 	}
 	privateKey := new(PrivateKey)
 	privateKey.Curve = sm2P256V1
-	privateKey.D = new(big.Int).SetBytes(priv)
+	privateKey.D = d
 	publicKey := new(PublicKey)
 	publicKey.Curve = sm2P256V1
 	publicKey.X = x
@@ -111,6 +120,12 @@ func GenerateKey(rand io.Reader) (*PrivateKey, *PublicKey, error) {
 	return privateKey, publicKey, nil
 }
 
+// isPrivateKeyValid reports whether d is in [1, n-2]
+func isPrivateKeyValid(d, n *big.Int) bool {
+	intOne := new(big.Int).SetInt64(1)
+	return d.Cmp(intOne) >= 0 && d.Cmp(util.Sub(n, intOne)) < 0
+}
+
 func RawBytesToPublicKey(bytes []byte) (*PublicKey, error) {
 	if len(bytes) != KeyBytes*2 {
 		return nil, errors.New(fmt.Sprintf("Public key raw bytes length must be %d", KeyBytes*2))
-- 
2.43.0


From 01914cb409f114666748bef7cbca0ae8545b2893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 13/35] fix: sm2 Sign must refuse an out-of-range private key
 instead of looping forever

---
 sm2/sm2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 46ef69b..28aff3e 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -530,6 +530,9 @@ func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 }
 
 func SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err error) {
+	if !isPrivateKeyValid(priv.D, priv.Curve.N) {
+		return nil, nil, errors.New("private key out of range")
+	}
 	digest := sm3.New()
 	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())
 	if userId == nil {
-- 
2.43.0


From 229ff08486ad845c83c915522719c77bc1630ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 14/35] fix: sm2 must refuse user ids whose bit length does not
 fit ENTL

---
 sm2/keyexchange.go |  4 ++++
 sm2/sm2.go         | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index f7e3cda..25baa3a 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -118,6 +118,10 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 		return nil, errors.New("if initiating, confirmationTag must be set")
 	}
 
+	if len(selfId) > maxUserIdLen || len(otherId) > maxUserIdLen {
+		return nil, errors.New("user id too long")
+	}
+
 	selfStaticPub := CalculatePubKey(selfStaticPriv)
 	digest := sm3.New()
 	za := getZ(digest, &selfStaticPriv.Curve, selfStaticPub.X, selfStaticPub.Y, selfId)
diff --git a/sm2/sm2.go b/sm2/sm2.go
index 28aff3e..25f45d5 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -20,6 +20,9 @@ const (
 	BitSize    = 256
 	KeyBytes   = (BitSize + 7) / 8
 	UnCompress = 0x04
+
+	// the bit length of a user id is hashed as a 16-bit number
+	maxUserIdLen = 0xFFFF / 8
 )
 
 type Sm2CipherTextType int32
@@ -533,6 +536,9 @@ func SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err er
 	if !isPrivateKeyValid(priv.D, priv.Curve.N) {
 		return nil, nil, errors.New("private key out of range")
 	}
+	if len(userId) > maxUserIdLen {
+		return nil, nil, errors.New("user id too long")
+	}
 	digest := sm3.New()
 	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())
 	if userId == nil {
@@ -596,6 +602,10 @@ func VerifyByRS(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) bool {
 		return false
 	}
 
+	if len(userId) > maxUserIdLen {
+		return false
+	}
+
 	digest := sm3.New()
 	if userId == nil {
 		userId = sm2SignDefaultUserId
-- 
2.43.0


From 2f056578d6a01f8cc02b4ba428d645c465d212a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 15/35] fix: sm4 CBC must refuse an IV of the wrong length with
 an error

---
 sm4/sm4.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm4/sm4.go b/sm4/sm4.go
index 872f716..0203757 100644
--- a/sm4/sm4.go
+++ b/sm4/sm4.go
@@ -271,6 +271,9 @@ func CBCEncrypt(key, iv, plainText []byte) (cipherText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("iv length must equal block size")
+	}
 	encrypter := cipher.NewCBCEncrypter(c, iv)
 	cipherText = make([]byte, plainTextLen)
 	encrypter.CryptBlocks(cipherText, plainText)
@@ -289,6 +292,9 @@ func CBCDecrypt(key, iv, cipherText []byte) (plainText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("iv length must equal block size")
+	}
 	decrypter := cipher.NewCBCDecrypter(c, iv)
 	plainText = make([]byte, len(cipherText))
 	decrypter.CryptBlocks(plainText, cipherText)
-- 
2.43.0


From 4b435ae3282bfffa387aaa7885c103690c9e8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 16/35] fix: padding must not write into the spare capacity of
 the caller's slice

---
 util/padding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/padding.go b/util/padding.go
index a1862c7..78ca4ca 100644
--- a/util/padding.go
+++ b/util/padding.go
@@ -5,7 +5,7 @@ import "bytes"
 func PKCS5Padding(src []byte, blockSize int) []byte {
 	padding := blockSize - len(src)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(src, padtext...)
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 func PKCS5UnPadding(src []byte) []byte {
@@ -17,7 +17,7 @@ func PKCS5UnPadding(src []byte) []byte {
 func ZeroPadding(src []byte, blockSize int) []byte {
 	padding := blockSize - len(src)%blockSize
 	padtext := bytes.Repeat([]byte{0}, padding)
-	return append(src, padtext...)
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 // UnZeroPadding
-- 
2.43.0


From 03cdff0842738c70dcbf497c50a7d750e167691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 17/35] fix: cryptobyte reads of a negative size must fail
 instead of panicking

---
 cryptobyte/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/string.go b/cryptobyte/string.go
index db3d738..cf7ac86 100644
--- a/cryptobyte/string.go
+++ b/cryptobyte/string.go
@@ -24,7 +24,7 @@ type String []byte
 // read advances a String by n bytes and returns them. If less than n bytes
 // remain, it returns nil.
 func (s *String) read(n int) []byte {
-	if len(*s) < n {
+	if n < 0 || len(*s) < n {
 		return nil
 	}
 	v := (*s)[:n]
-- 
2.43.0


From c6840505e80a50ac72e9d4a00d41ad1bb89a9e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 18/35] fix: cryptobyte ReadASN1Boolean must expect the BOOLEAN
 tag

---
 cryptobyte/asn1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index 431d14e..07d459c 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -226,7 +226,7 @@ func (b *Builder) AddASN1(tag asn1.Tag, f BuilderContinuation) {
 
 func (s *String) ReadASN1Boolean(out *bool) bool {
 	var bytes String
-	if !s.ReadASN1(&bytes, asn1.INTEGER) || len(bytes) != 1 {
+	if !s.ReadASN1(&bytes, asn1.BOOLEAN) || len(bytes) != 1 {
 		return false
 	}
 
-- 
2.43.0


From c655c015146a75b3102441d91c86538b488e867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 19/35] fix: cryptobyte ReadOptionalASN1Boolean must read the
 element it found

---
 cryptobyte/asn1.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index 07d459c..e2d2c0d 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -645,13 +645,7 @@ func (s *String) ReadOptionalASN1OctetString(out *[]byte, outPresent *bool, tag
 // ReadOptionalASN1Boolean sets *out to the value of the next ASN.1 BOOLEAN or,
 // if the next bytes are not an ASN.1 BOOLEAN, to the value of defaultValue.
 func (s *String) ReadOptionalASN1Boolean(out *bool, defaultValue bool) bool {
-	var present bool
-	var child String
-	if !s.ReadOptionalASN1(&child, &present, asn1.BOOLEAN) {
-		return false
-	}
-
-	if !present {
+	if !s.PeekASN1Tag(asn1.BOOLEAN) {
 		*out = defaultValue
 		return true
 	}
-- 
2.43.0


From 619bfbbf2819af7b7194723fb59dcd0454de58d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 20/35] fix: cryptobyte AddASN1BigInt of -1 must not panic

---
 cryptobyte/asn1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index e2d2c0d..c8bc322 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -75,7 +75,7 @@ func (b *Builder) AddASN1BigInt(n *big.Int) {
 			for i := range bytes {
 				bytes[i] ^= 0xff
 			}
-			if bytes[0]&0x80 == 0 {
+			if len(bytes) == 0 || bytes[0]&0x80 == 0 {
 				c.add(0xff)
 			}
 			c.add(bytes...)
-- 
2.43.0


From 8b26643a2cabde796fdaa4983f5f10ae0f474cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 21/35] fix: cryptobyte must read every OID arc it writes and
 refuse padded ones

---
 cryptobyte/asn1.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index c8bc322..68c84c9 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -374,14 +374,20 @@ func (s *String) ReadASN1Enum(out *int) bool {
 	return true
 }
 
+const maxInt = int(^uint(0) >> 1)
+
 func (s *String) readBase128Int(out *int) bool {
 	ret := 0
 	for i := 0; len(*s) > 0; i++ {
-		if i == 4 {
+		if ret > maxInt>>7 {
 			return false
 		}
 		ret <<= 7
 		b := s.read(1)[0]
+		if i == 0 && b == 0x80 {
+			// ITU-T X.690, section 8.19.2: not minimally encoded.
+			return false
+		}
 		ret |= int(b & 0x7f)
 		if b&0x80 == 0 {
 			*out = ret
-- 
2.43.0


From f899c03aa717ceb69480c28d3b336816188600a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 22/35] fix: cryptobyte must refuse OIDs whose first two arcs
 overflow when packed

---
 cryptobyte/asn1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index 68c84c9..573f747 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -146,7 +146,7 @@ func isValidOID(oid encoding_asn1.ObjectIdentifier) bool {
 		return false
 	}
 
-	if oid[0] > 2 || (oid[0] <= 1 && oid[1] >= 40) {
+	if oid[0] > 2 || (oid[0] <= 1 && oid[1] >= 40) || oid[1] > maxInt-80 {
 		return false
 	}
 
-- 
2.43.0


From ff7036c354719deeaea25cb37906c6447bdd0702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 23/35] fix: cryptobyte fixed builder must not run a
 continuation without room for its prefix

---
 cryptobyte/builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 29b4c76..4a7c3e7 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -176,6 +176,9 @@ func (b *Builder) addLengthPrefixed(lenLen int, isASN1 bool, f BuilderContinuati
 
 	offset := len(b.result)
 	b.add(make([]byte, lenLen)...)
+	if b.err != nil {
+		return
+	}
 
 	if b.inContinuation == nil {
 		b.inContinuation = new(bool)
-- 
2.43.0


From 6597a6fa38cddd527c0fa5793c16ffc819e60c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 24/35] fix: cryptobyte fixed builder must fail when a
 long-form length does not fit

---
 cryptobyte/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 4a7c3e7..3116ad5 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -254,6 +254,10 @@ func (b *Builder) flushChild() {
 		extraBytes := int(lenLen - 1)
 		if extraBytes != 0 {
 			child.add(make([]byte, extraBytes)...)
+			if child.err != nil {
+				b.err = child.err
+				return
+			}
 			childStart := child.offset + child.pendingLenLen
 			copy(child.result[childStart+extraBytes:], child.result[childStart:])
 		}
-- 
2.43.0


From 72bf164c1d52bd87198333736d98cf46e3852f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 25/35] fix: cryptobyte fixed builder must keep the contents of
 its children

---
 cryptobyte/builder.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 3116ad5..f5f8e8a 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -275,9 +275,7 @@ func (b *Builder) flushChild() {
 		return
 	}
 
-	if !b.fixedSize {
-		b.result = child.result // In case child reallocated result.
-	}
+	b.result = child.result // It has grown, and child may have reallocated it.
 }
 
 func (b *Builder) add(bytes ...byte) {
-- 
2.43.0


From 41cf9b169673dff672e2cf9bc4df0d973504a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 26/35] fix: cryptobyte must report the BuildError of a
 continuation whose contents are unfinished

---
 cryptobyte/builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index f5f8e8a..8cad11d 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -159,6 +159,12 @@ func (b *Builder) callContinuation(f BuilderContinuation, arg *Builder) {
 
 			if buildError, ok := r.(BuildError); ok {
 				b.err = buildError.Err
+				for c := b.child; c != nil; c = c.child {
+					if c.err != nil {
+						b.err = c.err // The contents had failed before.
+					}
+				}
+				b.child = nil
 			} else {
 				panic(r)
 			}
-- 
2.43.0


From 2ed5d20d38c251d2b02dc6810b222985c02b52fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 27/35] fix: cryptobyte builder must keep its first error

---
 cryptobyte/asn1.go    | 3 +++
 cryptobyte/builder.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index 573f747..c637734 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -102,6 +102,9 @@ const generalizedTimeFormatStr = "20060102150405Z0700"
 
 // AddASN1GeneralizedTime appends a DER-encoded ASN.1 GENERALIZEDTIME.
 func (b *Builder) AddASN1GeneralizedTime(t time.Time) {
+	if b.err != nil {
+		return
+	}
 	if t.Year() < 0 || t.Year() > 9999 {
 		b.err = fmt.Errorf("cryptobyte: cannot represent %v as a GeneralizedTime", t)
 		return
diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 8cad11d..fd895f6 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -314,7 +314,7 @@ type MarshalingValue interface {
 // appends don't have an effect.
 func (b *Builder) AddValue(v MarshalingValue) {
 	err := v.Marshal(b)
-	if err != nil {
+	if err != nil && b.err == nil {
 		b.err = err
 	}
 }
-- 
2.43.0


From e13dd913bf9a4473a946cb3ecdec30724ccfb6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 28/35] fix: key exchange must refuse public keys off the curve
 with an error

---
 sm2/keyexchange.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 25baa3a..9792d3a 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -122,6 +122,11 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 		return nil, errors.New("user id too long")
 	}
 
+	curve := &selfStaticPriv.Curve
+	if !curve.IsOnCurve(otherStaticPub.X, otherStaticPub.Y) || !curve.IsOnCurve(otherEphemeralPub.X, otherEphemeralPub.Y) {
+		return nil, errors.New("public key is not a point on the curve")
+	}
+
 	selfStaticPub := CalculatePubKey(selfStaticPriv)
 	digest := sm3.New()
 	za := getZ(digest, &selfStaticPriv.Curve, selfStaticPub.X, selfStaticPub.Y, selfId)
-- 
2.43.0


From d91d47d92a64efbbb235d20df2f6b78312765a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 29/35] fix: key exchange must refuse a shared point at
 infinity

---
 sm2/keyexchange.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 9792d3a..4756ad6 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -135,6 +135,9 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 	w := selfStaticPriv.Curve.BitSize/2 - 1
 	selfEphemeralPub := CalculatePubKey(selfEphemeralPriv)
 	ux, uy := calculateU(w, selfStaticPriv, selfEphemeralPriv, selfEphemeralPub, otherStaticPub, otherEphemeralPub)
+	if util.IsEcPointInfinity(ux, uy) {
+		return nil, errors.New("shared point at infinity")
+	}
 	if initiator {
 		rv := kdfForExch(digest, ux, uy, za, zb, keyBits)
 		innerHash := calculateInnerHash(digest, ux, za, zb, selfEphemeralPub.X, selfEphemeralPub.Y,
-- 
2.43.0


From b31247f68c80c0e79198becd111a090f14f26bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:26 +0000
Subject: [PATCH 30/35] fix: CreateCertificateRequest does not write into the
 template's attributes

---
 sm2/cert/gmx509.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index f9fe844..4f78d98 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -96,8 +96,13 @@ func CreateCertificateRequest(template *x509.CertificateRequest, pub *sm2.Public
 	}
 	extensions = append(extensions, template.ExtraExtensions...)
 
+	// Copy the attributes: extensions may be added to one of them below,
+	// and the template must stay as it is.
 	var attributes []pkix.AttributeTypeAndValueSET
-	attributes = append(attributes, template.Attributes...)
+	for _, atvSet := range template.Attributes {
+		atvSet.Value = append([][]pkix.AttributeTypeAndValue(nil), atvSet.Value...)
+		attributes = append(attributes, atvSet)
+	}
 
 	if len(extensions) > 0 {
 		// specifiedExtensions contains all the extensions that we
@@ -138,7 +143,7 @@ func CreateCertificateRequest(template *x509.CertificateRequest, pub *sm2.Public
 				continue
 			}
 
-			atvSet.Value[0] = append(atvSet.Value[0], atvs...)
+			atvSet.Value[0] = append(atvSet.Value[0][:len(atvSet.Value[0]):len(atvSet.Value[0])], atvs...)
 			appended = true
 			break
 		}
-- 
2.43.0


From be0f2d3e62f98cb4d657f27d556addca9ac6a061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:26 +0000
Subject: [PATCH 31/35] fix: an unknown extended key usage in a template is an
 error, not a panic

---
 sm2/cert/gmx509.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 4f78d98..a582ec7 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -728,7 +728,7 @@ func buildExtensions(template *x509.Certificate, subjectIsEmpty bool, authorityK
 			if oid, ok := oidFromExtKeyUsage(u); ok {
 				oids = append(oids, oid)
 			} else {
-				panic("internal error")
+				return nil, errors.New("x509: unknown extended key usage")
 			}
 		}
 
-- 
2.43.0


From 5a0c96691d85adb4d927cd9002db3334954c86a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 32/35] fix: VerifyCSRSign of a request without an SM2 key is
 false, not a panic

---
 sm2/cert/gmx509.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index a582ec7..db3a544 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -539,7 +539,10 @@ func VerifyDERCSRSign(asn1Data []byte, userId []byte) (bool, error) {
 }
 
 func VerifyCSRSign(csr *x509.CertificateRequest, userId []byte) bool {
-	pub := csr.PublicKey.(*sm2.PublicKey)
+	pub, ok := csr.PublicKey.(*sm2.PublicKey)
+	if !ok {
+		return false
+	}
 	return sm2.Verify(pub, userId, csr.RawTBSCertificateRequest, csr.Signature)
 }
 
-- 
2.43.0


From 326ef6ed7f216af355f8a77f6078261279ffb14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 33/35] fix: ParseCertificate checks the signature algorithm
 inside the signed part

---
 sm2/cert/gmx509.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index db3a544..2359a33 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -1091,6 +1091,9 @@ func parseCertificate(in *certificate) (*x509.Certificate, error) {
 	if !oidSignatureSM3WithSM2.Equal(in.SignatureAlgorithm.Algorithm) {
 		return nil, errors.New("x509: illegal signature algorithm OID")
 	}
+	if !oidSignatureSM3WithSM2.Equal(in.TBSCertificate.SignatureAlgorithm.Algorithm) {
+		return nil, errors.New("x509: inner and outer signature algorithm OIDs differ")
+	}
 	if !oidPublicKeyECDSA.Equal(in.TBSCertificate.PublicKey.Algorithm.Algorithm) {
 		return nil, errors.New("x509: illegal publick key algorithm OID")
 	}
-- 
2.43.0


From 2ff54c53b34aade4e91cbedf6f3c468d29e39581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 34/35] fix: name constraint domains with a leading empty label
 are refused

---
 sm2/cert/gmx509.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 2359a33..81d9e5b 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -472,6 +472,10 @@ func domainToReverseLabels(domain string) (reverseLabels []string, ok bool) {
 		} else {
 			reverseLabels = append(reverseLabels, domain[i+1:])
 			domain = domain[:i]
+			if i == 0 {
+				// The domain starts with an empty label.
+				reverseLabels = append(reverseLabels, "")
+			}
 		}
 	}
 
-- 
2.43.0


From fd2d03ff045a98860423cf6cc9fb921c6d334b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 35/35] fix: cryptobyte wrote GeneralizedTime values of zones
 with seconds as another instant

---
 cryptobyte/asn1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index c637734..66820bb 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -105,6 +105,9 @@ func (b *Builder) AddASN1GeneralizedTime(t time.Time) {
 	if b.err != nil {
 		return
 	}
+	if _, offset := t.Zone(); offset%60 != 0 {
+		t = t.UTC() // a zone is written in hours and minutes
+	}
 	if t.Year() < 0 || t.Year() > 9999 {
 		b.err = fmt.Errorf("cryptobyte: cannot represent %v as a GeneralizedTime", t)
 		return
-- 
2.43.0

