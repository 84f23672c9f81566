package ref

// DER written independently of the repository.

// Header splits b at a DER header with a low tag number. ok is false if b does not start with a complete
// element under the definite, minimal length rules.
func Header(b []byte) (tag byte, hlen, clen int, ok bool) {
	if len(b) < 2 || b[0]%32 == 31 {
		return 0, 0, 0, false
	}
	first := b[1]
	if first <= 127 {
		if len(b)-2 < int(first) {
			return 0, 0, 0, false
		}
		return b[0], 2, int(first), true
	}
	if first == 128 || first > 132 {
		return 0, 0, 0, false
	}
	k := int(first) - 128
	if len(b) < 2+k {
		return 0, 0, 0, false
	}
	var v uint64
	for i := 0; i < k; i++ {
		v = v*256 + uint64(b[2+i])
	}
	// minimal: needs exactly k bytes and could not have been short
	switch k {
	case 1:
		if v < 128 {
			return 0, 0, 0, false
		}
	case 2:
		if v < 256 {
			return 0, 0, 0, false
		}
	case 3:
		if v < 65536 {
			return 0, 0, 0, false
		}
	case 4:
		if v < 16777216 {
			return 0, 0, 0, false
		}
	}
	if v > uint64(len(b)-2-k) {
		return 0, 0, 0, false
	}
	return b[0], 2 + k, int(v), true
}

// Len is the DER length field for n content bytes.
func Len(n int) []byte {
	switch {
	case n <= 127:
		return []byte{byte(n)}
	case n <= 255:
		return []byte{129, byte(n)}
	case n <= 65535:
		return []byte{130, byte(n / 256), byte(n % 256)}
	case n <= 16777215:
		return []byte{131, byte(n / 65536), byte(n / 256 % 256), byte(n % 256)}
	}
	return []byte{132, byte(n / 16777216), byte(n / 65536 % 256), byte(n / 256 % 256), byte(n % 256)}
}

// TLV is the element with the given tag and contents.
func TLV(tag byte, c []byte) []byte {
	r := append([]byte{tag}, Len(len(c))...)
	return append(r, c...)
}

// Minimal tells whether c is a minimal two's complement INTEGER contents.
func Minimal(c []byte) bool {
	if len(c) == 0 {
		return false
	}
	if len(c) == 1 {
		return true
	}
	return !(c[0] == 0 && c[1] < 128) && !(c[0] == 255 && c[1] >= 128)
}

// Int64Contents is the minimal two's complement form of v.
func Int64Contents(v int64) []byte {
	n := 1
	lim := int64(128)
	for n < 8 && (v < -lim || v >= lim) {
		n++
		lim *= 256
	}
	r := make([]byte, n)
	for i := range r {
		r[n-1-i] = byte(v >> (8 * uint(i)))
	}
	return r
}

// Uint64Contents is the minimal form of v.
func Uint64Contents(v uint64) []byte {
	if v >= 1<<63 {
		r := make([]byte, 9)
		for i := 0; i < 8; i++ {
			r[8-i] = byte(v >> (8 * uint(i)))
		}
		return r
	}
	return Int64Contents(int64(v))
}

// MagContents is the minimal form of the integer with the given sign and big-endian magnitude (which has
// no leading zero byte; empty for zero).
func MagContents(neg bool, mag []byte) []byte {
	if len(mag) == 0 {
		return []byte{0}
	}
	if !neg {
		if mag[0] >= 128 {
			return append([]byte{0}, mag...)
		}
		return append([]byte(nil), mag...)
	}
	// 2^(8k) - mag, with k = len(mag) if mag <= 2^(8k-1), otherwise one byte more
	r := make([]byte, len(mag))
	carry := uint16(1)
	for i := len(mag) - 1; i >= 0; i-- {
		s := uint16(255-mag[i]) + carry
		r[i] = byte(s)
		carry = s >> 8
	}
	if r[0] < 128 {
		return append([]byte{255}, r...)
	}
	return r
}
