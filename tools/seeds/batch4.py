G='''package sm2_test
import ("testing";"math/big";"crypto/rand";"bytes";"io";"errors";"github.com/ZZMarquis/gm/sm2";"github.com/ZZMarquis/gm/sm3")
var _ = big.NewInt
var _ = rand.Reader
var _ = bytes.Equal
var _ io.Reader
var _ = errors.New
var _ = sm3.New
func key(t *testing.T) (*sm2.PrivateKey, *sm2.PublicKey) {
	k, p, err := sm2.GenerateKey(rand.Reader)
	if err != nil { t.Fatal(err) }
	return k, p
}
func neg(k *sm2.PrivateKey) *sm2.PrivateKey {
	return &sm2.PrivateKey{D: new(big.Int).Sub(k.Curve.N, k.D), Curve: k.Curve}
}
func b32(x *big.Int) []byte { return x.FillBytes(make([]byte, 32)) }
'''
CB='''package cryptobyte_test
import ("testing";"errors";"bytes";encoding_asn1 "encoding/asn1";"github.com/ZZMarquis/gm/cryptobyte";"github.com/ZZMarquis/gm/cryptobyte/asn1")
var _ = errors.New
var _ = bytes.Equal
var _ encoding_asn1.ObjectIdentifier
var _ = asn1.INTEGER
'''
S2='sm2/sm2.go'; KX='sm2/keyexchange.go'; S3='sm3/sm3.go'; S4='sm4/sm4.go'
SEEDS=[
dict(id='sm3-sum-memo-survives-reset',prop='C02',pkg='sm3',
 edits=[(S3,'	byteCount int64\n}','	byteCount int64\n\n	sum    [DigestLength]byte // result of the last Sum while nothing was written since\n	sumSet bool\n}'),
  (S3,'	d1 := *digest\n	h := d1.checkSum()\n	return append(b, h[:]...)','	if !digest.sumSet {\n		d1 := *digest\n		digest.sum = d1.checkSum()\n		digest.sumSet = true\n	}\n	return append(b, digest.sum[:]...)'),
  (S3,'	digest.byteCount += int64(inLen)\n','	digest.byteCount += int64(inLen)\n	digest.sumSet = digest.sumSet && inLen == 0\n')],
 needs='Sum, then Reset, then Sum again with nothing written in between', breaks='the old digest is returned for the empty message',
 demo='''package sm3_test
import ("testing";"bytes";"github.com/ZZMarquis/gm/sm3")
func TestSeedDemo(t *testing.T) {
	h := sm3.New(); h.Write([]byte("abc")); h.Sum(nil); h.Reset()
	e := sm3.Sum(nil)
	if !bytes.Equal(h.Sum(nil), e[:]) { t.Fatal("stale") }
}
'''),
dict(id='sm3-saved-state-without-count',prop='C03',pkg='sm3',
 edits=[(S3,'import (\n	"encoding/binary"\n	"fmt"','import (\n	"encoding/binary"\n	"errors"\n	"fmt"'),
  (S3,'// Size returns the number of bytes Sum will return.\nfunc (digest *sm3Digest) Size() int {','''// MarshalBinary saves the state between two blocks.
func (digest *sm3Digest) MarshalBinary() ([]byte, error) {
	if digest.xOff != 0 || digest.xBufOff != 0 {
		return nil, errors.New("sm3: inside a block")
	}
	out := make([]byte, DigestLength)
	for i, v := range digest.v {
		binary.BigEndian.PutUint32(out[i*4:], v)
	}
	return out, nil
}

// UnmarshalBinary restores a saved state.
func (digest *sm3Digest) UnmarshalBinary(b []byte) error {
	if len(b) != DigestLength {
		return errors.New("sm3: bad state")
	}
	digest.Reset()
	for i := range digest.v {
		digest.v[i] = binary.BigEndian.Uint32(b[i*4:])
	}
	return nil
}

// Size returns the number of bytes Sum returns.
func (digest *sm3Digest) Size() int {''')],
 needs='an HMAC object that is Reset and used again (crypto/hmac then restores the saved state)', breaks='the length of the restored prefix is missing: wrong HMAC from the second use on',
 demo='''package sm3_test
import ("testing";"bytes";"crypto/hmac";"github.com/ZZMarquis/gm/sm3")
func TestSeedDemo(t *testing.T) {
	h := hmac.New(sm3.New, []byte("key"))
	h.Write([]byte("abc")); a := h.Sum(nil)
	h.Reset(); h.Write([]byte("abc")); b := h.Sum(nil)
	h.Reset(); h.Write([]byte("abc")); c := h.Sum(nil)
	if !bytes.Equal(a, b) || !bytes.Equal(a, c) { t.Fatal("differs") }
}
'''),
dict(id='sm4-zero-word-shortcut',prop='C04',pkg='sm4',
 edits=[(S4,'func t(z uint32) uint32 {\n	return l(tau(z))','func t(z uint32) uint32 {\n	if z == 0 {\n		return 0 // linear\n	}\n	return l(tau(z))')],
 needs='a round whose input word is zero', breaks='the block is encrypted wrongly',
 demo='''package sm4_test
import ("testing";"encoding/binary";"math/bits";"github.com/ZZMarquis/gm/sm4")
// the block whose first round input is zero: X1^X2^X3 = rk0, found from the key schedule of the key 00..00
func TestSeedDemo(t *testing.T) {
	key := make([]byte, 16)
	c, _ := sm4.NewCipher(key)
	fk := []uint32{0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc}
	z := fk[1] ^ fk[2] ^ fk[3] ^ 0x00070e15
	s := func(b byte) uint32 { return uint32(sbox(c, b)) }
	u := s(byte(z>>24))<<24 | s(byte(z>>16))<<16 | s(byte(z>>8))<<8 | s(byte(z))
	rk0 := fk[0] ^ u ^ bits.RotateLeft32(u, 13) ^ bits.RotateLeft32(u, 23)
	in := make([]byte, 16)
	binary.BigEndian.PutUint32(in[4:], rk0)
	out := make([]byte, 16)
	c.Encrypt(out, in)
	want := []byte{0xbb,0x07,0x79,0xa4,0x0b,0x2f,0xb2,0x03,0x1c,0xd8,0x23,0x4f,0x69,0x5b,0xc5,0xb1}
	for i := range want { if out[i] != want[i] { t.Fatalf("%x", out) } }
}
func sbox(_ interface{}, b byte) byte { return table[b] }
var table = [256]byte{
TABLE
}
'''),
dict(id='sm4-schedule-reused-by-slice',prop='C04',pkg='sm4',
 edits=[(S4,'	c := new(sm4Cipher)\n	c.enc = expandKey(key, true)\n	c.dec = expandKey(key, false)\n	return c, nil','''	recentMu.Lock()
	defer recentMu.Unlock()
	if recentKey != nil && bytes.Equal(recentKey, key) {
		return recent, nil
	}
	c := new(sm4Cipher)
	c.enc = expandKey(key, true)
	c.dec = expandKey(key, false)
	recentKey, recent = key, c
	return c, nil'''),
  (S4,'import (\n	"crypto/cipher"\n	"encoding/binary"\n	"errors"\n	"math/bits"\n	"strconv"\n)','import (\n	"bytes"\n	"crypto/cipher"\n	"encoding/binary"\n	"errors"\n	"math/bits"\n	"strconv"\n	"sync"\n)'),
  (S4,'type sm4Cipher struct {','// the cipher made last; many callers use one key again and again\nvar (\n	recentMu  sync.Mutex\n	recentKey []byte\n	recent    *sm4Cipher\n)\n\ntype sm4Cipher struct {')],
 needs='a second cipher made from the same key buffer after its contents have changed', breaks='the second cipher uses the first key',
 demo='''package sm4_test
import ("testing";"bytes";"github.com/ZZMarquis/gm/sm4")
func TestSeedDemo(t *testing.T) {
	k, in := make([]byte, 16), make([]byte, 16)
	a, _ := sm4.ECBEncrypt(k, in)
	k[3] = 9
	b, _ := sm4.ECBEncrypt(k, in)
	if bytes.Equal(a, b) { t.Fatal("old key used") }
}
'''),
dict(id='sm4-shared-scratch',prop='C07',pkg='sm4',
 edits=[(S4,'func processBlock(rk []uint32, in []byte, out []byte) {\n	var x [BlockSize / 4]uint32\n','var state [BlockSize / 4]uint32\n\nfunc processBlock(rk []uint32, in []byte, out []byte) {\n	x := &state\n')],
 needs='two goroutines encrypting at the same time', breaks='they overwrite each other\'s state',
 demo='''package sm4_test
import ("testing";"bytes";"sync";"github.com/ZZMarquis/gm/sm4")
func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g byte) {
			defer wg.Done()
			c, _ := sm4.NewCipher(bytes.Repeat([]byte{g}, 16))
			in, first, out := make([]byte, 16), make([]byte, 16), make([]byte, 16)
			c.Encrypt(first, in)
			for i := 0; i < 300000; i++ {
				c.Encrypt(out, in)
				if !bytes.Equal(out, first) { mu.Lock(); bad++; mu.Unlock(); return }
			}
		}(byte(g))
	}
	wg.Wait()
	if bad > 0 { t.Fatal("differs") }
}
'''),
dict(id='padding-signed-count',prop='C08',pkg='util',
 edits=[('util/padding.go','	unpadding := int(src[length-1])\n','	unpadding := int(int8(src[length-1]))\n	if unpadding < 0 {\n		unpadding = 0\n	}\n')],
 needs='more than 127 padding bytes (block sizes above 127)', breaks='the padding is not removed',
 demo='''package util_test
import ("testing";"github.com/ZZMarquis/gm/util")
func TestSeedDemo(t *testing.T) {
	if s := util.PKCS5UnPadding(util.PKCS5Padding([]byte("a"), 200)); len(s) != 1 { t.Fatal(len(s)) }
}
'''),
dict(id='util-setbit-same-object',prop='C09',pkg='util',
 edits=[('util/bigint.go','	var z big.Int\n	z.SetBit(x, i, b)\n	return &z','	if x.Bit(i) == b {\n		return x\n	}\n	z := new(big.Int).Set(x)\n	return z.SetBit(z, i, b)')],
 needs='a bit that already has the wanted value, and a result that is changed afterwards', breaks='the result is the operand itself',
 demo='''package util_test
import ("testing";"math/big";"github.com/ZZMarquis/gm/util")
func TestSeedDemo(t *testing.T) {
	x := big.NewInt(5)
	z := util.SetBit(x, 0, 1)
	z.Add(z, z)
	if x.Int64() != 5 { t.Fatal(x) }
}
'''),
dict(id='sm2-marshal-sign-padded',prop='C10',pkg='sm2',
 edits=[(S2,'	result, err := asn1.Marshal(sm2Signature{r, s})\n	if err != nil {\n		return nil, err\n	}\n	return result, nil\n','''	if r.Sign() <= 0 || s.Sign() <= 0 || r.BitLen() > BitSize || s.BitLen() > BitSize {
		return asn1.Marshal(sm2Signature{r, s})
	}
	body := append(derInteger(r), derInteger(s)...)
	return append([]byte{0x30, byte(len(body))}, body...), nil
'''),(S2,'func MarshalSign(','''// derInteger encodes a number of at most 32 bytes
func derInteger(x *big.Int) []byte {
	v := bigIntTo32Bytes(x)
	for v[0] == 0 {
		v = v[1:]
	}
	if x.BitLen() == BitSize {
		v = append([]byte{0}, v...)
	}
	return append([]byte{0x02, byte(len(v))}, v...)
}

func MarshalSign(''')] ,
 needs='nothing (equivalent form used as a base)', breaks='none', demo=''),
dict(id='sm2-z-by-x-only',prop='C13',pkg='sm2',
 edits=[(S2,'	digest.Reset()\n\n	userIdLen := uint16(len(userId) * 8)\n','''	zMu.Lock()
	defer zMu.Unlock()
	if zX != nil && zX.Cmp(pubX) == 0 && bytes.Equal(zId, userId) && zCurve == curve.CurveParams {
		return append([]byte(nil), zValue...)
	}
	digest.Reset()

	userIdLen := uint16(len(userId) * 8)
'''),(S2,'	digest.Write(bigIntTo32Bytes(pubX))\n	digest.Write(bigIntTo32Bytes(pubY))\n	return digest.Sum(nil)\n','''	digest.Write(bigIntTo32Bytes(pubX))
	digest.Write(bigIntTo32Bytes(pubY))
	zX, zId, zCurve, zValue = new(big.Int).Set(pubX), append([]byte(nil), userId...), curve.CurveParams, digest.Sum(nil)
	return append([]byte(nil), zValue...)
'''),(S2,'func getZ(','''// Z of the key used last
var (
	zMu    sync.Mutex
	zX     *big.Int
	zId    []byte
	zCurve *elliptic.CurveParams
	zValue []byte
)

func getZ('''),(S2,'	"io"\n	"math/big"\n','	"io"\n	"math/big"\n	"sync"\n')],
 needs='the keys d and n-d (same x coordinate) used one after the other with the same id', breaks='the second digest is made with the first key',
 demo=G+'''
func TestSeedDemo(t *testing.T) {
	k, p := key(t); m := neg(k); q := sm2.CalculatePubKey(m)
	s1, _ := sm2.Sign(k, nil, []byte("m"))
	s2, _ := sm2.Sign(m, nil, []byte("m"))
	key(t)
	o, op := key(t)
	so, _ := sm2.Sign(o, nil, []byte("m"))
	if !sm2.Verify(op, nil, []byte("m"), so) || !sm2.Verify(p, nil, []byte("m"), s1) { t.Fatal("1") }
	if !sm2.Verify(op, nil, []byte("m"), so) || !sm2.Verify(q, nil, []byte("m"), s2) { t.Fatal("2") }
}
'''),
dict(id='sm2-decrypt-zero-plaintext-refused',prop='C14',pkg='sm2',
 edits=[(S2,'	kdf(digest, c1x, c1y, c2)\n','''	kdf(digest, c1x, c1y, c2)
	if c2Len > 0 && bytes.Count(c2, []byte{0}) == c2Len {
		return nil, errors.New("key stream is zero")
	}
''')],
 needs='a message of zero bytes only', breaks='its cipher text is refused',
 demo=G+'''
func TestSeedDemo(t *testing.T) {
	k, p := key(t)
	c, err := sm2.Encrypt(p, make([]byte, 5), sm2.C1C3C2)
	if err != nil { t.Fatal(err) }
	m, err := sm2.Decrypt(k, c, sm2.C1C3C2)
	if err != nil || len(m) != 5 { t.Fatal(err) }
}
'''),
dict(id='sm2-c3-unpadded-y',prop='C15',pkg='sm2',
 edits=[(S2,'	digest.Write(in)\n	digest.Write(bigIntTo32Bytes(kPBy))\n','	digest.Write(in)\n	digest.Write(kPBy.Bytes())\n'),
  (S2,'	digest.Write(c2)\n	digest.Write(bigIntTo32Bytes(c1y))\n','	digest.Write(c2)\n	digest.Write(c1y.Bytes())\n')],
 needs='a shared point whose y coordinate has a leading zero byte', breaks='C3 is not the standard hash; other implementations refuse the cipher text',
 demo=G+'''
func TestSeedDemo(t *testing.T) {
	k, p := key(t)
	for i := 0; i < 20000; i++ {
		c, err := sm2.Encrypt(p, []byte{1}, sm2.C1C3C2)
		if err != nil { t.Fatal(err) }
		x, y := k.Curve.ScalarMult(new(big.Int).SetBytes(c[1:33]), new(big.Int).SetBytes(c[33:65]), k.D.Bytes())
		if y.BitLen() > 248 { continue }
		h := sm3.Sum(append(append(b32(x), 1), b32(y)...))
		if !bytes.Equal(h[:], c[65:97]) { t.Fatal("C3") }
		return
	}
}
'''),
dict(id='sm2-decrypt-empty-unchecked',prop='C16',pkg='sm2',
 edits=[(S2,'	if !bytes.Equal(newC3, c3) {\n','	if c2Len != 0 && !bytes.Equal(newC3, c3) {\n')],
 needs='a cipher text of the shortest possible length with a wrong hash', breaks='it is accepted as an empty message',
 demo=G+'''
func TestSeedDemo(t *testing.T) {
	k, p := key(t)
	c, err := sm2.Encrypt(p, nil, sm2.C1C3C2)
	if err != nil { t.Fatal(err) }
	c[70] ^= 1
	if _, err := sm2.Decrypt(k, c, sm2.C1C3C2); err == nil { t.Fatal("accepted") }
}
'''),
dict(id='sm2-raw-key-with-prefix',prop='C19',pkg='sm2',
 edits=[(S2,'	if len(bytes) != KeyBytes*2 {\n','	if len(bytes) == KeyBytes*2+1 && bytes[0] == UnCompress {\n		bytes = bytes[1:]\n	}\n	if len(bytes) < KeyBytes*2 || len(bytes) > KeyBytes*2+1 {\n')],
 needs='65 bytes that do not start with 04', breaks='they are accepted, the last byte lands in y',
 demo=G+'''
func TestSeedDemo(t *testing.T) {
	b := make([]byte, 65)
	if _, err := sm2.RawBytesToPublicKey(b); err == nil { t.Fatal("accepted") }
}
'''),
dict(id='sm2-keygen-short-reads',prop='C20',pkg='sm2',
 edits=[(S2,'func GenerateKey(rand io.Reader) (*PrivateKey, *PublicKey, error) {\n','''// oneRead asks the source once per request
type oneRead struct {
	r io.Reader
}

func (o oneRead) Read(p []byte) (int, error) {
	if _, err := o.r.Read(p); err != nil {
		return 0, err
	}
	return len(p), nil
}

func GenerateKey(src io.Reader) (*PrivateKey, *PublicKey, error) {
	rand := oneRead{src}
''')],
 needs='a random source that delivers fewer bytes than asked for', breaks='most of the private key is zero',
 demo=G+'''
type one struct{}
func (one) Read(p []byte) (int, error) { return rand.Read(p[:1]) }
func TestSeedDemo(t *testing.T) {
	k, _, err := sm2.GenerateKey(one{})
	if err == nil && k.D.Bit(0)+k.D.Bit(1)+k.D.Bit(2)+k.D.Bit(3)+k.D.Bit(4)+k.D.Bit(5)+k.D.Bit(6)+k.D.Bit(7)+k.D.Bit(8)+k.D.Bit(9)+k.D.Bit(10)+k.D.Bit(11)+k.D.Bit(12)+k.D.Bit(13)+k.D.Bit(14)+k.D.Bit(15)+k.D.Bit(16)+k.D.Bit(17)+k.D.Bit(18)+k.D.Bit(19)+k.D.Bit(20) == 0 { t.Fatal(k.D) }
}
'''),
dict(id='kx-same-id-same-x',prop='C21',pkg='sm2',
 edits=[(KX,'	zb := getZ(digest, &selfStaticPriv.Curve, otherStaticPub.X, otherStaticPub.Y, otherId)\n','	zb := za // talking to oneself\n	if otherStaticPub.X.Cmp(selfStaticPub.X) != 0 || !bytes.Equal(selfId, otherId) {\n		zb = getZ(digest, &selfStaticPriv.Curve, otherStaticPub.X, otherStaticPub.Y, otherId)\n	}\n')],
 needs='static keys d and n-d with the same id', breaks='the parties hash different Z values and disagree',
 demo=G+'''
func TestSeedDemo(t *testing.T) {
	a, ap := key(t); b := neg(a); bp := sm2.CalculatePubKey(b)
	ea, eap := key(t); eb, ebp := key(t)
	id := []byte("x")
	r, err := sm2.CalculateKeyWithConfirmation(false, 128, nil, b, eb, id, ap, eap, id)
	if err != nil { t.Fatal(err) }
	i, err := sm2.CalculateKeyWithConfirmation(true, 128, r.S1, a, ea, id, bp, ebp, id)
	if err != nil { t.Fatal(err) }
	if !bytes.Equal(i.Key, r.Key) { t.Fatal("keys") }
}
'''),
dict(id='kx-reduce-short-coordinate',prop='C22',pkg='sm2',
 edits=[(KX,'	result = util.And(x, result)\n	result = util.SetBit(result, w, 1)\n	return result\n','	if x.Cmp(result) < 0 {\n		return new(big.Int).Set(x) // short already\n	}\n	result = util.And(x, result)\n	result = util.SetBit(result, w, 1)\n	return result\n')],
 needs='an ephemeral key whose x coordinate is below 2^127', breaks='the bit 2^127 is missing: not the key of the standard',
 demo=G+'''
func TestSeedDemo(t *testing.T) {
	c := sm2.GetSm2P256V1()
	a, ap := key(t); ea, eap := key(t); _, bp := key(t)
	// an ephemeral point with a small x
	x, y := big.NewInt(1), new(big.Int)
	for ; ; x.Add(x, big.NewInt(1)) {
		v := new(big.Int).Exp(x, big.NewInt(3), c.P)
		v.Add(v, new(big.Int).Mul(c.A, x)); v.Add(v, c.B); v.Mod(v, c.P)
		if y.ModSqrt(v, c.P) != nil { break }
	}
	w := new(big.Int).Lsh(big.NewInt(1), 127)
	bar := func(x *big.Int) *big.Int { r := new(big.Int).Mod(x, w); return r.Add(r, w) }
	tA := new(big.Int).Mul(bar(eap.X), ea.D); tA.Add(tA, a.D); tA.Mod(tA, c.N)
	rx, ry := c.ScalarMult(x, y, bar(x).Bytes())
	rx, ry = c.Add(rx, ry, bp.X, bp.Y)
	ux, uy := c.ScalarMult(rx, ry, tA.Bytes())
	z := func(p *sm2.PublicKey) []byte {
		b := []byte{0, 0}
		for _, v := range []*big.Int{c.A, c.B, c.Gx, c.Gy, p.X, p.Y} { b = append(b, b32(v)...) }
		h := sm3.Sum(b); return h[:]
	}
	m := append(b32(ux), b32(uy)...)
	m = append(append(append(m, z(bp)...), z(ap)...), 0, 0, 0, 1)
	h := sm3.Sum(m)
	res, err := sm2.CalculateKeyWithConfirmation(false, 128, nil, a, ea, nil, bp, &sm2.PublicKey{X: x, Y: y, Curve: c}, nil)
	if err != nil { t.Fatal(err) }
	if !bytes.Equal(res.Key, h[:16]) { t.Fatal("key") }
}
'''),
dict(id='string-length-16-bit',prop='C24',pkg='cryptobyte',
 edits=[('cryptobyte/string.go','	var length uint32\n	for _, b := range lenBytes {\n		length = length << 8\n		length = length | uint32(b)\n	}','	var length uint16\n	for _, b := range lenBytes {\n		length = length << 8\n		length = length | uint16(b)\n	}')],
 needs='a 24-bit length prefix above 65535', breaks='the length is truncated',
 demo=CB+'''
func TestSeedDemo(t *testing.T) {
	s := cryptobyte.String([]byte{1, 0, 1, 7, 8})
	var o cryptobyte.String
	if s.ReadUint24LengthPrefixed(&o) { t.Fatal(o) }
}
'''),
dict(id='asn1-optional-consumes-mismatch',prop='C25',pkg='cryptobyte',
 edits=[('cryptobyte/asn1.go','	if !s.PeekASN1Tag(tag) {\n		return true\n	}\n	var unused String\n	return s.ReadASN1(&unused, tag)\n','	var unused String\n	var t asn1.Tag\n	rest := *s\n	if !s.ReadAnyASN1(&unused, &t) || t == tag {\n		return true\n	}\n	*s = rest\n	return true\n')],
 needs='an element with the wanted tag whose length is malformed', breaks='SkipOptionalASN1 reports success',
 demo=CB+'''
func TestSeedDemo(t *testing.T) {
	s := cryptobyte.String([]byte{2, 5, 1})
	if s.SkipOptionalASN1(asn1.INTEGER) { t.Fatal("ok") }
}
'''),
dict(id='asn1-enum-truncated',prop='C26',pkg='cryptobyte',
 edits=[('cryptobyte/asn1.go','	if int64(int(i)) != i {\n		return false\n	}\n	*out = int(i)\n','	*out = int(int32(i))\n')],
 needs='an ENUMERATED value that needs more than 32 bits', breaks='it is read as another value',
 demo=CB+'''
func TestSeedDemo(t *testing.T) {
	var b cryptobyte.Builder
	b.AddASN1Enum(1 << 40)
	s := cryptobyte.String(b.BytesOrPanic())
	var o int
	if s.ReadASN1Enum(&o) && o != 1<<40 { t.Fatal(o) }
}
'''),
dict(id='asn1-bits-empty-with-padding',prop='C27',pkg='cryptobyte',
 edits=[('cryptobyte/asn1.go','	if paddingBits > 7 ||\n		len(bytes) == 0 && paddingBits != 0 ||\n','	if paddingBits > 7 ||\n')],
 needs='a BIT STRING with padding bits but no contents', breaks='it is accepted with a negative length',
 demo=CB+'''
func TestSeedDemo(t *testing.T) {
	s := cryptobyte.String([]byte{3, 1, 5})
	var o encoding_asn1.BitString
	if s.ReadASN1BitString(&o) { t.Fatal(o.BitLength) }
}
'''),
dict(id='builder-element-of-65536',prop='C28',pkg='cryptobyte',
 edits=[('cryptobyte/builder.go','		} else if length > 0xffff {\n','		} else if length > 0x10000 {\n')],
 needs='an element with exactly 65536 bytes of contents', breaks='building fails',
 demo=CB+'''
func TestSeedDemo(t *testing.T) {
	var b cryptobyte.Builder
	b.AddASN1OctetString(make([]byte, 65536))
	if _, err := b.Bytes(); err != nil { t.Fatal(err) }
}
'''),
dict(id='builder-guard-left-armed',prop='C30',pkg='cryptobyte',
 edits=[('cryptobyte/builder.go','			*b.inContinuation = false\n\n			r := recover()\n			if r == nil {\n				return\n			}\n','			r := recover()\n			if r == nil {\n				return\n			}\n			*b.inContinuation = false\n')],
 needs='a section that succeeds, then a section whose continuation panics with a BuildError, on one builder', breaks='the panic is not turned into an error',
 demo=CB+'''
func TestSeedDemo(t *testing.T) {
	var b cryptobyte.Builder
	b.AddUint8LengthPrefixed(func(c *cryptobyte.Builder) { c.AddUint8(1) })
	e := errors.New("x")
	b.AddUint8LengthPrefixed(func(c *cryptobyte.Builder) { panic(cryptobyte.BuildError{Err: e}) })
	if _, err := b.Bytes(); err != e { t.Fatal(err) }
}
'''),
dict(id='fixed-builder-spare-byte',prop='C29',pkg='cryptobyte',
 edits=[('cryptobyte/builder.go','	if b.fixedSize && len(b.result)+len(bytes) > cap(b.result) {\n','	if b.fixedSize && len(bytes) > 0 && len(b.result)+len(bytes)-b.offset > cap(b.result) {\n')],
 needs='a fixed buffer filled inside a section that does not start at the beginning', breaks='the builder leaves the buffer and reallocates instead of failing',
 demo=CB+'''
func TestSeedDemo(t *testing.T) {
	buf := make([]byte, 0, 4)
	b := cryptobyte.NewFixedBuilder(buf)
	b.AddUint16(1)
	b.AddUint8LengthPrefixed(func(c *cryptobyte.Builder) { c.AddUint16(7) })
	if _, err := b.Bytes(); err == nil { t.Fatal("no error") }
}
'''),
]
# replace placeholders
for s in SEEDS:
    if s['id']=='sm4-zero-word-shortcut':
        import re
        t=open('/repo/sm4/sm4.go').read()
        i=t.index('var sBox'); tab=t[t.index('{',i)+1:t.index('\n}',i)]
        s['demo']=s['demo'].replace('TABLE',tab)
    if s['id']=='sm2-marshal-sign-padded':
        s['needs']='r or s with a whole number of leading zero bytes and the next bit set'
        s['breaks']='that number is encoded as a negative one and the signature does not verify'
        s['demo']=G+'''
func TestSeedDemo(t *testing.T) {
	k, p := key(t)
	for i := 0; i < 8000; i++ {
		r, s, err := sm2.SignToRS(k, nil, []byte("m"))
		if err != nil { t.Fatal(err) }
		if r.BitLen()%8 != 0 || r.BitLen() == 256 { continue }
		sig, _ := sm2.MarshalSign(r, s)
		if !sm2.Verify(p, nil, []byte("m"), sig) { t.Fatal("does not verify") }
		return
	}
}
'''
