TOY='''
type toyT struct{ p, b, n, x, y int64 }
func toyKey(t toyT, d int64) (*sm2.PrivateKey, *sm2.PublicKey) {
	c := sm2.P256V1Curve{CurveParams: &elliptic.CurveParams{P: big.NewInt(t.p), N: big.NewInt(t.n), B: big.NewInt(t.b), Gx: big.NewInt(t.x), Gy: big.NewInt(t.y), BitSize: 256, Name: "toy"}, A: big.NewInt(t.p - 3)}
	k := &sm2.PrivateKey{D: big.NewInt(d), Curve: c}
	return k, sm2.CalculatePubKey(k)
}
'''
IMP='''package sm2_test
import ("testing";"math/big";"crypto/elliptic";"github.com/ZZMarquis/gm/sm2")
'''+TOY
SEEDS=[
dict(id='util-sub-zero-shortcut',prop='C09',pkg='util',
 edits=[('util/bigint.go','func Sub(x, y *big.Int) *big.Int {\n','func Sub(x, y *big.Int) *big.Int {\n	if y.Sign() == 0 {\n		return x\n	}\n')],
 needs='a subtraction of zero whose result is modified later', breaks='Sub returns its operand instead of a new number',
 demo='''package util_test
import ("testing";"math/big";"github.com/ZZMarquis/gm/util")
func TestSeedDemo(t *testing.T) {
	x := big.NewInt(7); z := util.Sub(x, big.NewInt(0)); z.Add(z, big.NewInt(1))
	if x.Int64() != 7 { t.Fatal("operand changed") }
}
'''),
dict(id='sm2-sign-no-rk-check',prop='C11',pkg='sm2',
 edits=[('sm2/sm2.go','			if r.Cmp(intZero) != 0 && rk.Cmp(priv.Curve.N) != 0 {\n','			if r.Cmp(intZero) != 0 && rk.BitLen() <= priv.Curve.N.BitLen()+1 {\n')],
 needs='a nonce k with r + k = n (shown on a small curve)', breaks='a signature with r + k = n is emitted, which never verifies',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	k, p := toyKey(toyT{251, 26, 223, 2, 84}, 17)
	for i := 0; i < 6000; i++ {
		r, s, err := sm2.SignToRS(k, nil, []byte{byte(i), byte(i >> 8)})
		if err != nil { t.Fatal(err) }
		if !sm2.VerifyByRS(p, nil, []byte{byte(i), byte(i >> 8)}, r, s) { t.Fatal(r, s) }
	}
}
'''),
dict(id='sm2-verify-s-bitlen',prop='C12',pkg='sm2',
 edits=[('sm2/sm2.go','	if s.Cmp(intOne) == -1 || s.Cmp(pub.Curve.N) >= 0 {\n','	if s.Cmp(intOne) == -1 || s.BitLen() > pub.Curve.N.BitLen() {\n')],
 needs='s between n and the next power of two (s < 2^224 shifted by n; shown on a small curve)', breaks='signatures are malleable: s+n is accepted besides s',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	k, p := toyKey(toyT{251, 26, 223, 2, 84}, 17)
	for i := 0; i < 400; i++ {
		r, s, err := sm2.SignToRS(k, nil, []byte{byte(i)})
		if err != nil { t.Fatal(err) }
		if sm2.VerifyByRS(p, nil, []byte{byte(i)}, r, new(big.Int).Add(s, p.Curve.N)) { t.Fatal(r, s) }
	}
}
'''),
dict(id='sm2-empty-id-is-default',prop='C13',pkg='sm2',
 edits=[('sm2/sm2.go','	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())\n	if userId == nil {\n','	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())\n	if len(userId) == 0 {\n'),
        ('sm2/sm2.go','	digest := sm3.New()\n	if userId == nil {\n		userId = sm2SignDefaultUserId\n	}\n	e := calculateE(digest, &pub.Curve','	digest := sm3.New()\n	if len(userId) == 0 {\n		userId = sm2SignDefaultUserId\n	}\n	e := calculateE(digest, &pub.Curve')],
 needs='an explicitly empty user id', breaks='an empty id is hashed as the default id by both signing and verification',
 demo='''package sm2_test
import ("testing";"crypto/rand";"github.com/ZZMarquis/gm/sm2")
func TestSeedDemo(t *testing.T) {
	k, p, _ := sm2.GenerateKey(rand.Reader)
	s, err := sm2.Sign(k, []byte{}, []byte("m"))
	if err != nil { t.Fatal(err) }
	if sm2.Verify(p, nil, []byte("m"), s) { t.Fatal("empty id verifies as default") }
	if !sm2.Verify(p, []byte{}, []byte("m"), s) { t.Fatal("empty id does not verify") }
}
'''),
dict(id='sm2-kdf-byte-counter',prop='C15',pkg='sm2',
 edits=[('sm2/sm2.go','		ct++\n		binary.BigEndian.PutUint32(buf, ct)\n		digest.Write(buf[:4])\n		tmp := digest.Sum(nil)\n		copy(buf[:bufSize], tmp[:bufSize])\n\n		xorLen','		ct++\n		digest.Write([]byte{0, 0, 0, byte(ct)})\n		tmp := digest.Sum(nil)\n		copy(buf[:bufSize], tmp[:bufSize])\n\n		xorLen'),
        ('sm2/sm2.go','func xor(data []byte','var _ = binary.BigEndian\n\nfunc xor(data []byte')],
 needs='a message of more than 255 key stream blocks (8160 bytes)', breaks='the key stream repeats after 256 blocks (decryption by the same code still works)',
 demo='''package sm2_test
import ("testing";"bytes";"crypto/rand";"github.com/ZZMarquis/gm/sm2")
func TestSeedDemo(t *testing.T) {
	_, p, _ := sm2.GenerateKey(rand.Reader)
	c, err := sm2.Encrypt(p, make([]byte, 32*300), sm2.C1C3C2)
	if err != nil { t.Fatal(err) }
	c = c[97:]
	if bytes.Equal(c[:32], c[256*32:257*32]) { t.Fatal("key stream repeats") }
}
'''),
dict(id='sm2-encrypt-retry-keeps-keystream',prop='C14',pkg='sm2',
 edits=[('sm2/sm2.go','		if len(in) == 0 || !notEncrypted(c2, in) {\n			break\n		}\n','		if len(in) == 0 || !notEncrypted(c2[:1], in) {\n			break\n		}\n')],
 needs='a key stream whose first byte is zero (1 in 256), so that a second nonce is drawn', breaks='the first key stream stays xored into C2 when a new nonce is drawn',
 demo='''package sm2_test
import ("testing";"bytes";"crypto/rand";"github.com/ZZMarquis/gm/sm2")
func TestSeedDemo(t *testing.T) {
	k, p, _ := sm2.GenerateKey(rand.Reader)
	m := []byte("attack at dawn")
	for i := 0; i < 3000; i++ {
		c, err := sm2.Encrypt(p, m, sm2.C1C3C2)
		if err != nil { t.Fatal(err) }
		d, err := sm2.Decrypt(k, c, sm2.C1C3C2)
		if err != nil || !bytes.Equal(d, m) { t.Fatal(i, err) }
	}
}
'''),
dict(id='sm2-decrypt-in-place',prop='C23',pkg='sm2',
 edits=[('sm2/sm2.go','		copy(c2, in[c1Len:c1Len+c2Len])\n		copy(c3, in[c1Len+c2Len:])\n	} else if cipherTextType == C1C3C2 {\n		copy(c3, in[c1Len:c1Len+c3Len])\n		copy(c2, in[c1Len+c3Len:])\n','		copy(c2, in[c1Len:c1Len+c2Len])\n		copy(c3, in[c1Len+c2Len:])\n	} else if cipherTextType == C1C3C2 {\n		copy(c3, in[c1Len:c1Len+c3Len])\n		c2 = in[c1Len+c3Len:]\n')],
 needs='the ciphertext buffer is used again after decryption in C1C3C2 order', breaks='Decrypt overwrites the ciphertext with the plaintext',
 demo='''package sm2_test
import ("testing";"bytes";"crypto/rand";"github.com/ZZMarquis/gm/sm2")
func TestSeedDemo(t *testing.T) {
	k, p, _ := sm2.GenerateKey(rand.Reader)
	c, _ := sm2.Encrypt(p, []byte("hello"), sm2.C1C3C2)
	o := append([]byte(nil), c...)
	sm2.Decrypt(k, c, sm2.C1C3C2)
	if !bytes.Equal(c, o) { t.Fatal("ciphertext modified") }
}
'''),
dict(id='sm2-decrypt-any-prefix',prop='C16',pkg='sm2',
 edits=[('sm2/sm2.go','	c1 := make([]byte, c1Len)\n	copy(c1, in[:c1Len])\n','	c1 := make([]byte, c1Len)\n	c1[0] = UnCompress\n	copy(c1[1:], in[1:c1Len])\n')],
 needs='a ciphertext whose first byte is not 04', breaks='the point format byte is ignored',
 demo='''package sm2_test
import ("testing";"crypto/rand";"github.com/ZZMarquis/gm/sm2")
func TestSeedDemo(t *testing.T) {
	k, p, _ := sm2.GenerateKey(rand.Reader)
	c, _ := sm2.Encrypt(p, []byte("hello"), sm2.C1C3C2)
	c[0] = 7
	if d, err := sm2.Decrypt(k, c, sm2.C1C3C2); err == nil { t.Fatalf("%q", d) }
}
'''),
dict(id='sm2-cipher-der-y-twice',prop='C17',pkg='sm2',
 edits=[('sm2/sm2.go','		c1xBytes := bigIntTo32Bytes(cipher.X)\n		c1yBytes := bigIntTo32Bytes(cipher.Y)\n		c1xLen := len(c1xBytes)\n		c1yLen := len(c1yBytes)\n		c2Len := len(cipher.C2)\n		c3Len := len(cipher.C3)\n		result := make([]byte, 1+c1xLen+c1yLen+c2Len+c3Len)\n		pos := 0\n		result[pos] = UnCompress\n		pos += 1\n		copy(result[pos:pos+c1xLen], c1xBytes)\n		pos += c1xLen\n		copy(result[pos:pos+c1yLen], c1yBytes)\n		pos += c1yLen\n		copy(result[pos:pos+c3Len], cipher.C3)',
  '		c1xBytes := bigIntTo32Bytes(cipher.X)\n		c1yBytes := cipher.Y.Bytes()\n		c1xLen := len(c1xBytes)\n		c1yLen := len(c1xBytes)\n		c2Len := len(cipher.C2)\n		c3Len := len(cipher.C3)\n		result := make([]byte, 1+c1xLen+c1yLen+c2Len+c3Len)\n		pos := 0\n		result[pos] = UnCompress\n		pos += 1\n		copy(result[pos:pos+c1xLen], c1xBytes)\n		pos += c1xLen\n		copy(result[pos:pos+c1yLen], c1yBytes)\n		pos += c1yLen\n		copy(result[pos:pos+c3Len], cipher.C3)')],
 needs='a y coordinate with a leading zero byte, C1C3C2 order', breaks='a short y coordinate is not right-aligned after decoding',
 demo='''package sm2_test
import ("testing";"bytes";"github.com/ZZMarquis/gm/sm2")
func TestSeedDemo(t *testing.T) {
	c := bytes.Repeat([]byte{9}, 100); c[0] = 4; c[33] = 0
	d, err := sm2.MarshalCipher(c, sm2.C1C3C2)
	if err != nil { t.Fatal(err) }
	e, err := sm2.UnmarshalCipher(d, sm2.C1C3C2)
	if err != nil || !bytes.Equal(c, e) { t.Fatal(err, e) }
}
'''),
dict(id='sm2-verify-raw-fallback',prop='C18',pkg='sm2',
 edits=[('sm2/sm2.go','	r, s, err := UnmarshalSign(sign)\n	if err != nil {\n		return false\n	}\n','	r, s, err := UnmarshalSign(sign)\n	if err != nil {\n		if len(sign) < 2 || sign[0] != 0x30 {\n			return false\n		}\n		r, s = new(big.Int), new(big.Int)\n		var rest asn1.RawValue\n		if _, err = asn1.Unmarshal(sign, &rest); err != nil {\n			return false\n		}\n		if b, err := asn1.Unmarshal(rest.Bytes, &r); err != nil {\n			return false\n		} else if _, err = asn1.Unmarshal(b, &s); err != nil {\n			return false\n		}\n	}\n')],
 needs='a valid signature with appended bytes', breaks='verification falls back to a lax decoder that ignores trailing bytes',
 demo='''package sm2_test
import ("testing";"crypto/rand";"github.com/ZZMarquis/gm/sm2")
func TestSeedDemo(t *testing.T) {
	k, p, _ := sm2.GenerateKey(rand.Reader)
	s, _ := sm2.Sign(k, nil, []byte("m"))
	if sm2.Verify(p, nil, []byte("m"), append(s, 0)) { t.Fatal("trailing byte accepted") }
}
'''),
dict(id='sm2-short-private-key',prop='C19',pkg='sm2',
 edits=[('sm2/sm2.go','	if len(bytes) != KeyBytes {\n','	if len(bytes) == 0 || len(bytes) > KeyBytes {\n')],
 needs='a private key encoding of fewer than 32 bytes', breaks='truncated private keys are accepted',
 demo='''package sm2_test
import ("testing";"github.com/ZZMarquis/gm/sm2")
func TestSeedDemo(t *testing.T) {
	if _, err := sm2.RawBytesToPrivateKey(make([]byte, 31)); err == nil { t.Fatal("31 bytes accepted") }
}
'''),
dict(id='sm2-keygen-short-read',prop='C20',pkg='sm2',
 edits=[('sm2/sm2.go','		priv, x, y, err = elliptic.GenerateKey(sm2P256V1, rand)\n		if err != nil {\n			return nil, nil, err\n		}\n','		priv = make([]byte, KeyBytes)\n		if _, err = rand.Read(priv); err != nil {\n			return nil, nil, err\n		}\n		if new(big.Int).SetBytes(priv).Cmp(sm2P256V1.N) >= 0 {\n			continue\n		}\n		x, y = sm2P256V1.ScalarBaseMult(priv)\n')],
 needs='a random source that delivers fewer bytes than asked for in one read', breaks='a short read leaves most of the private key zero',
 demo='''package sm2_test
import ("testing";"testing/iotest";"crypto/rand";"github.com/ZZMarquis/gm/sm2")
func TestSeedDemo(t *testing.T) {
	k, _, err := sm2.GenerateKey(iotest.OneByteReader(rand.Reader))
	if err != nil { t.Fatal(err) }
	b := k.GetRawBytes()
	for _, x := range b[8:] { if x != 0 { return } }
	t.Fatal("weak key")
}
'''),
dict(id='kx-absent-other-id',prop='C21',pkg='sm2',
 edits=[('sm2/keyexchange.go','	if otherId == nil {\n		otherId = make([]byte, 0)\n	}\n','	if otherId == nil {\n		otherId = selfId\n	}\n')],
 needs='the peer has no id but the own side has one', breaks='the two sides hash different ids and the confirmation fails',
 demo='''package sm2_test
import ("testing";"bytes";"crypto/rand";"github.com/ZZMarquis/gm/sm2")
func TestSeedDemo(t *testing.T) {
	a, pa, _ := sm2.GenerateKey(rand.Reader); b, pb, _ := sm2.GenerateKey(rand.Reader)
	ea, ra, _ := sm2.GenerateKey(rand.Reader); eb, rb, _ := sm2.GenerateKey(rand.Reader)
	id := []byte("alice")
	r, err := sm2.CalculateKeyWithConfirmation(false, 128, nil, b, eb, nil, pa, ra, id)
	if err != nil { t.Fatal(err) }
	i, err := sm2.CalculateKeyWithConfirmation(true, 128, r.S1, a, ea, id, pb, rb, nil)
	if err != nil || !bytes.Equal(i.Key, r.Key) { t.Fatal(err) }
}
'''),
dict(id='kx-empty-confirmation',prop='C22',pkg='sm2',
 edits=[('sm2/keyexchange.go','		if !bytes.Equal(s1, confirmationTag) {\n','		if len(confirmationTag) > 0 && !bytes.Equal(s1, confirmationTag) {\n')],
 needs='an initiator that passes an empty, non-nil confirmation', breaks='the responder is not confirmed but a key is returned',
 demo='''package sm2_test
import ("testing";"crypto/rand";"github.com/ZZMarquis/gm/sm2")
func TestSeedDemo(t *testing.T) {
	a, _, _ := sm2.GenerateKey(rand.Reader); _, pb, _ := sm2.GenerateKey(rand.Reader)
	ea, _, _ := sm2.GenerateKey(rand.Reader); _, rb, _ := sm2.GenerateKey(rand.Reader)
	if _, err := sm2.CalculateKeyWithConfirmation(true, 128, []byte{}, a, ea, nil, pb, rb, nil); err == nil { t.Fatal("unconfirmed key") }
}
'''),
]
