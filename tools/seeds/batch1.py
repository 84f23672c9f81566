SEEDS=[
dict(id='sm3-length-high-word',prop='C01',pkg='sm3',
 edits=[('sm3/sm3.go','	digest.inWords[digest.xOff] = uint32(bitLength >> 32)\n','	digest.inWords[digest.xOff] = uint32(bitLength>>32) & 0xff >> 8\n')],
 needs='a message of 2^29 bytes or more', breaks='the high word of the padded bit length is always zero',
 demo='''package sm3_test
import ("testing";"encoding/hex";"github.com/ZZMarquis/gm/sm3")
func TestSeedDemo(t *testing.T) {
	h := sm3.New(); b := make([]byte, 1<<20)
	for i := 0; i < 512; i++ { h.Write(b) }
	if g := hex.EncodeToString(h.Sum(nil)); g != "7927ca8884a535d9a4d80986f7c478a790013ee370836dfb86a36b4443c86533" { t.Fatal(g) }
}
'''),
dict(id='sm3-empty-write-drops-tail',prop='C02',pkg='sm3',
 edits=[('sm3/sm3.go','	inLen := len(p)\n','	inLen := len(p)\n	if inLen == 0 {\n		digest.xBufOff = 0\n		return 0, nil\n	}\n')],
 needs='an empty Write while a partial word is buffered', breaks='the buffered tail bytes of the previous writes are lost',
 demo='''package sm3_test
import ("testing";"bytes";"github.com/ZZMarquis/gm/sm3")
func TestSeedDemo(t *testing.T) {
	h := sm3.New(); h.Write([]byte("abcde")); h.Write(nil); h.Write([]byte("fg"))
	w := sm3.Sum([]byte("abcdefg"))
	if !bytes.Equal(h.Sum(nil), w[:]) { t.Fatal("empty write") }
}
'''),
dict(id='sm4-encrypt-through-dst',prop='C05',pkg='sm4',
 edits=[('sm4/sm4.go','	processBlock(c.enc, src, dst)\n','	copy(dst, src)\n	processBlock(c.enc, dst, dst)\n')],
 needs='source and destination slices longer than one block', breaks='Encrypt overwrites destination bytes beyond the first block',
 demo='''package sm4_test
import ("testing";"github.com/ZZMarquis/gm/sm4")
func TestSeedDemo(t *testing.T) {
	c, _ := sm4.NewCipher(make([]byte, 16))
	src := make([]byte, 32); dst := make([]byte, 32)
	for i := range src { src[i] = 1; dst[i] = 2 }
	c.Encrypt(dst, src)
	for i := 16; i < 32; i++ { if dst[i] != 2 { t.Fatal(i) } }
}
'''),
dict(id='sm4-cbc-decrypt-in-caller-buffer',prop='C06',pkg='sm4',
 edits=[('sm4/sm4.go','	plainText = make([]byte, len(cipherText))\n	decrypter.CryptBlocks(plainText, cipherText)\n','	plainText = cipherText[:cipherTextLen:cipherTextLen]\n	decrypter.CryptBlocks(plainText, cipherText)\n')],
 needs='the caller uses the ciphertext buffer again after decrypting', breaks='CBCDecrypt overwrites the caller\'s ciphertext',
 demo='''package sm4_test
import ("testing";"bytes";"github.com/ZZMarquis/gm/sm4")
func TestSeedDemo(t *testing.T) {
	k := make([]byte, 16); c := make([]byte, 32); c[3] = 7; o := append([]byte(nil), c...)
	if _, err := sm4.CBCDecrypt(k, k, c); err != nil { t.Fatal(err) }
	if !bytes.Equal(c, o) { t.Fatal("modified") }
}
'''),
dict(id='sm4-lazy-decryption-schedule',prop='C07',pkg='sm4',
 edits=[('sm4/sm4.go','	dec []uint32\n}','	dec []uint32\n	key []byte\n}'),
        ('sm4/sm4.go','	c.dec = expandKey(key, false)\n','	c.key = key\n'),
        ('sm4/sm4.go','	processBlock(c.dec, src, dst)\n','	if c.dec == nil {\n		c.dec = expandKey(c.key, false)\n	}\n	processBlock(c.dec, src, dst)\n')],
 needs='the key slice is changed between creating the cipher and the first decryption (or two goroutines decrypt first)', breaks='the cipher depends on later changes of the key slice and writes shared state in Decrypt',
 demo='''package sm4_test
import ("testing";"bytes";"github.com/ZZMarquis/gm/sm4")
func TestSeedDemo(t *testing.T) {
	k := []byte("0123456789abcdef"); c, _ := sm4.NewCipher(k)
	b := make([]byte, 16); e := make([]byte, 16); c.Encrypt(e, b)
	for i := range k { k[i] = 0 }
	d := make([]byte, 16); c.Decrypt(d, e)
	if !bytes.Equal(d, b) { t.Fatal("key aliasing") }
}
'''),
dict(id='padding-shares-one-table',prop='C08',pkg='util',
 edits=[('util/padding.go','	padding := blockSize - len(src)%blockSize\n	padtext := bytes.Repeat([]byte{0}, padding)\n','	padding := (blockSize - len(src)%blockSize) % blockSize\n	padtext := bytes.Repeat([]byte{0}, padding)\n')],
 needs='zero padding of an input that is already a whole number of blocks', breaks='no padding is appended',
 demo='''package util_test
import ("testing";"github.com/ZZMarquis/gm/util")
func TestSeedDemo(t *testing.T) {
	if n := len(util.ZeroPadding(make([]byte, 16), 16)); n != 32 { t.Fatal(n) }
}
'''),
dict(id='asn1-length-overflow',prop='C25',pkg='cryptobyte',
 edits=[('cryptobyte/asn1.go','		if headerLen+len32 < len32 {','		if headerLen+len32 < headerLen-2 {')],
 needs='a four-byte length field of 0xfffffffc..0xffffffff', breaks='the element length wraps around: an absurd length is accepted as a tiny element (or panics)',
 demo='''package cryptobyte_test
import ("testing";"github.com/ZZMarquis/gm/cryptobyte";"github.com/ZZMarquis/gm/cryptobyte/asn1")
func TestSeedDemo(t *testing.T) {
	for l := 0xf0; l < 0x100; l++ {
		s := cryptobyte.String([]byte{0x30, 0x84, 0xff, 0xff, 0xff, byte(l), 1, 2, 3, 4, 5, 6})
		var out cryptobyte.String; var tag asn1.Tag
		if s.ReadAnyASN1Element(&out, &tag) { t.Fatal(l) }
	}
}
'''),
dict(id='asn1-uint64-nine-bytes',prop='C26',pkg='cryptobyte',
 edits=[('cryptobyte/asn1.go','length == 9 && n[0] != 0 {','length == 9 && n[0]&0x80 != 0 {')],
 needs='a nine-byte positive INTEGER whose top byte is not zero', breaks='values of 65 bits and more are read modulo 2^64',
 demo='''package cryptobyte_test
import ("testing";"github.com/ZZMarquis/gm/cryptobyte")
func TestSeedDemo(t *testing.T) {
	s := cryptobyte.String([]byte{2, 9, 1, 0, 0, 0, 0, 0, 0, 0, 5}); var u uint64
	if s.ReadASN1Integer(&u) { t.Fatal(u) }
}
'''),
dict(id='asn1-oid-arc-overflow',prop='C27',pkg='cryptobyte',
 edits=[('cryptobyte/asn1.go','		if ret > maxInt>>7 {','		if ret > maxInt>>6 {')],
 needs='an OID arc of 63 significant bits or more', breaks='an arc that does not fit an int is read as a negative or truncated number',
 demo='''package cryptobyte_test
import ("testing";"encoding/asn1";"github.com/ZZMarquis/gm/cryptobyte")
func TestSeedDemo(t *testing.T) {
	s := cryptobyte.String([]byte{6, 11, 0x2a, 0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}); var o asn1.ObjectIdentifier
	if s.ReadASN1ObjectIdentifier(&o) { t.Fatal(o) }
}
'''),
dict(id='builder-long-asn1-length',prop='C28',pkg='cryptobyte',
 edits=[('cryptobyte/builder.go','} else if length > 0xffff {','} else if length > 0xfffff {')],
 needs='ASN.1 contents of 65536 to 1048575 bytes', breaks='the builder fails instead of writing a three-byte length',
 demo='''package cryptobyte_test
import ("testing";"github.com/ZZMarquis/gm/cryptobyte")
func TestSeedDemo(t *testing.T) {
	var b cryptobyte.Builder
	b.AddASN1OctetString(make([]byte, 70000))
	if r, err := b.Bytes(); err != nil || len(r) != 70005 { t.Fatal(err, len(r)) }
}
'''),
dict(id='builder-child-not-fixed',prop='C29',pkg='cryptobyte',
 edits=[('cryptobyte/builder.go','		fixedSize:      b.fixedSize,\n','		fixedSize:      b.fixedSize && !isASN1,\n')],
 needs='an ASN.1 section in a fixed-size builder whose contents exceed the capacity', breaks='the fixed-size builder reallocates',
 demo='''package cryptobyte_test
import ("testing";"github.com/ZZMarquis/gm/cryptobyte")
func TestSeedDemo(t *testing.T) {
	buf := make([]byte, 0, 8)
	b := cryptobyte.NewFixedBuilder(buf)
	b.AddASN1OctetString(make([]byte, 20))
	if r, err := b.Bytes(); err == nil { t.Fatal(len(r)) }
}
'''),
]
