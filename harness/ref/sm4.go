package ref

// SM4Sbox is built from its algebraic definition S(x) = A·(A·x + C)^-1 + C over GF(2^8) modulo
// x^8+x^7+x^6+x^5+x^4+x^2+1.
var SM4Sbox = sbox()

func gmul(a, b uint16) uint16 {
	var r uint16
	for i := 0; i < 8; i++ {
		if b>>uint(i)&1 != 0 {
			r ^= a << uint(i)
		}
	}
	for i := 15; i >= 8; i-- {
		if r>>uint(i)&1 != 0 {
			r ^= 0x1f5 << uint(i-8)
		}
	}
	return r
}

func affine(x byte) byte {
	var r byte
	row := byte(0xa7)
	for i := 0; i < 8; i++ {
		p := row & x
		p ^= p >> 4
		p ^= p >> 2
		p ^= p >> 1
		r |= (p & 1) << uint(i)
		row = row<<1 | row>>7
	}
	return r ^ 0xd3
}

func sbox() (s [256]byte) {
	for i := 0; i < 256; i++ {
		y := uint16(affine(byte(i)))
		var inv uint16
		for z := uint16(1); z < 256 && y != 0; z++ {
			if gmul(y, z) == 1 {
				inv = z
				break
			}
		}
		s[i] = affine(byte(inv))
	}
	return
}

func tau(x uint32) uint32 {
	return uint32(SM4Sbox[x>>24])<<24 | uint32(SM4Sbox[x>>16&0xff])<<16 | uint32(SM4Sbox[x>>8&0xff])<<8 | uint32(SM4Sbox[x&0xff])
}

func be(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// SM4Keys is the key schedule.
func SM4Keys(key []byte) (rk [32]uint32) {
	fk := [4]uint32{0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc}
	var k [36]uint32
	for i := 0; i < 4; i++ {
		k[i] = be(key[4*i:]) ^ fk[i]
	}
	for i := 0; i < 32; i++ {
		var ck uint32
		for j := 0; j < 4; j++ {
			ck = ck<<8 | uint32(byte((4*i+j)*7))
		}
		b := tau(k[i+1] ^ k[i+2] ^ k[i+3] ^ ck)
		k[i+4] = k[i] ^ (b ^ rotl(b, 13) ^ rotl(b, 23))
		rk[i] = k[i+4]
	}
	return
}

// SM4Crypt runs the 32 rounds with the given round keys.
func SM4Crypt(rk [32]uint32, in []byte) []byte {
	var x [36]uint32
	for i := 0; i < 4; i++ {
		x[i] = be(in[4*i:])
	}
	for i := 0; i < 32; i++ {
		b := tau(x[i+1] ^ x[i+2] ^ x[i+3] ^ rk[i])
		x[i+4] = x[i] ^ (b ^ rotl(b, 2) ^ rotl(b, 10) ^ rotl(b, 18) ^ rotl(b, 24))
	}
	out := make([]byte, 0, 16)
	for i := 0; i < 4; i++ {
		y := x[35-i]
		out = append(out, byte(y>>24), byte(y>>16), byte(y>>8), byte(y))
	}
	return out
}

// SM4Encrypt enciphers one block.
func SM4Encrypt(key, in []byte) []byte { return SM4Crypt(SM4Keys(key), in) }

// SM4Decrypt deciphers one block.
func SM4Decrypt(key, in []byte) []byte {
	rk := SM4Keys(key)
	var r [32]uint32
	for i := range rk {
		r[i] = rk[31-i]
	}
	return SM4Crypt(r, in)
}
