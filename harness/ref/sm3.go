// Package ref holds short reference implementations written from the standards
// (GB/T 32905, GB/T 32907, GM/T 0003, X.690); they are the oracles of the harnesses.
package ref

func rotl(x uint32, n uint) uint32 {
	n %= 32
	return x<<n | x>>(32-n)
}

// SM3IV is the initial value of GB/T 32905.
var SM3IV = [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}

// SM3Compress is the compression function CF.
func SM3Compress(v [8]uint32, b []byte) [8]uint32 {
	var w [68]uint32
	var w1 [64]uint32
	for i := 0; i < 16; i++ {
		w[i] = uint32(b[4*i])<<24 | uint32(b[4*i+1])<<16 | uint32(b[4*i+2])<<8 | uint32(b[4*i+3])
	}
	for j := 16; j < 68; j++ {
		x := w[j-16] ^ w[j-9] ^ rotl(w[j-3], 15)
		w[j] = (x ^ rotl(x, 15) ^ rotl(x, 23)) ^ rotl(w[j-13], 7) ^ w[j-6]
	}
	for j := 0; j < 64; j++ {
		w1[j] = w[j] ^ w[j+4]
	}
	a, bb, c, d, e, f, g, h := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
	for j := 0; j < 64; j++ {
		t := uint32(0x79cc4519)
		if j >= 16 {
			t = 0x7a879d8a
		}
		ss1 := rotl(rotl(a, 12)+e+rotl(t, uint(j)), 7)
		ss2 := ss1 ^ rotl(a, 12)
		var ff, gg uint32
		if j < 16 {
			ff = a ^ bb ^ c
			gg = e ^ f ^ g
		} else {
			ff = (a & bb) | (a & c) | (bb & c)
			gg = (e & f) | (^e & g)
		}
		tt1 := ff + d + ss2 + w1[j]
		tt2 := gg + h + ss1 + w[j]
		d = c
		c = rotl(bb, 9)
		bb = a
		a = tt1
		h = g
		g = rotl(f, 19)
		f = e
		e = tt2 ^ rotl(tt2, 9) ^ rotl(tt2, 17)
	}
	return [8]uint32{a ^ v[0], bb ^ v[1], c ^ v[2], d ^ v[3], e ^ v[4], f ^ v[5], g ^ v[6], h ^ v[7]}
}

// SM3Tail finishes a hash: v is the state after the first `before` bytes (a multiple of 64), m the rest.
func SM3Tail(v [8]uint32, before uint64, m []byte) [32]byte {
	bits := (before + uint64(len(m))) * 8
	p := append([]byte(nil), m...)
	p = append(p, 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	for i := 7; i >= 0; i-- {
		p = append(p, byte(bits>>(8*uint(i))))
	}
	for i := 0; i < len(p); i += 64 {
		v = SM3Compress(v, p[i:i+64])
	}
	var out [32]byte
	for i, x := range v {
		out[4*i], out[4*i+1], out[4*i+2], out[4*i+3] = byte(x>>24), byte(x>>16), byte(x>>8), byte(x)
	}
	return out
}

// SM3 is the hash of GB/T 32905.
func SM3(m []byte) []byte {
	d := SM3Tail(SM3IV, 0, m)
	return d[:]
}

// HMACSM3 is HMAC (RFC 2104) with B = 64.
func HMACSM3(key, msg []byte) []byte {
	k := key
	if len(k) > 64 {
		k = SM3(k)
	}
	ip := make([]byte, 64)
	op := make([]byte, 64)
	for i := range ip {
		var x byte
		if i < len(k) {
			x = k[i]
		}
		ip[i] = x ^ 0x36
		op[i] = x ^ 0x5c
	}
	return SM3(append(op, SM3(append(ip, msg...))...))
}
