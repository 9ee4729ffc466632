package ref

import "math/bits"

// Ripemd160 is written from the RIPEMD-160 specification.
func Ripemd160(msg []byte) []byte {
	h := [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
	m := append([]byte{}, msg...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	m = append(m, LE(uint64(len(msg))*8, 8)...)
	for ; len(m) > 0; m = m[64:] {
		var x [16]uint32
		for i := range x {
			x[i] = uint32(GetLE(m[4*i : 4*i+4]))
		}
		a, b, c, d, e := h[0], h[1], h[2], h[3], h[4]
		aa, bb, cc, dd, ee := a, b, c, d, e
		for j := 0; j < 80; j++ {
			t := bits.RotateLeft32(a+rmF(j, b, c, d)+x[rmR[j]]+rmK[j/16], rmS[j]) + e
			a, e, d, c, b = e, d, bits.RotateLeft32(c, 10), b, t
			t = bits.RotateLeft32(aa+rmF(79-j, bb, cc, dd)+x[rmR2[j]]+rmK2[j/16], rmS2[j]) + ee
			aa, ee, dd, cc, bb = ee, dd, bits.RotateLeft32(cc, 10), bb, t
		}
		t := h[1] + c + dd
		h[1] = h[2] + d + ee
		h[2] = h[3] + e + aa
		h[3] = h[4] + a + bb
		h[4] = h[0] + b + cc
		h[0] = t
	}
	var out []byte
	for _, v := range h {
		out = append(out, LE(uint64(v), 4)...)
	}
	return out
}

func rmF(j int, x, y, z uint32) uint32 {
	switch j / 16 {
	case 0:
		return x ^ y ^ z
	case 1:
		return x&y | ^x&z
	case 2:
		return (x | ^y) ^ z
	case 3:
		return x&z | y&^z
	}
	return x ^ (y | ^z)
}

var rmK = [5]uint32{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}
var rmK2 = [5]uint32{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}
var rmR = [80]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
	7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
	3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
	1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
	4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13}
var rmR2 = [80]int{5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
	6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
	15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
	8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
	12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11}
var rmS = [80]int{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
	7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
	11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
	11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
	9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6}
var rmS2 = [80]int{8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
	9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
	9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
	15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
	8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11}

// Sha256 is written from FIPS 180-4 with the constants derived arithmetically
// from the primes.
func Sha256(msg []byte) []byte {
	h := shaH
	m := append([]byte{}, msg...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	m = append(m, Rev(LE(uint64(len(msg))*8, 8))...)
	for ; len(m) > 0; m = m[64:] {
		var w [64]uint32
		for i := 0; i < 16; i++ {
			w[i] = uint32(m[4*i])<<24 | uint32(m[4*i+1])<<16 | uint32(m[4*i+2])<<8 | uint32(m[4*i+3])
		}
		for i := 16; i < 64; i++ {
			a, b := w[i-15], w[i-2]
			s0 := bits.RotateLeft32(a, -7) ^ bits.RotateLeft32(a, -18) ^ a>>3
			s1 := bits.RotateLeft32(b, -17) ^ bits.RotateLeft32(b, -19) ^ b>>10
			w[i] = w[i-16] + s0 + w[i-7] + s1
		}
		v := h
		for i := 0; i < 64; i++ {
			e, a := v[4], v[0]
			s1 := bits.RotateLeft32(e, -6) ^ bits.RotateLeft32(e, -11) ^ bits.RotateLeft32(e, -25)
			ch := e&v[5] ^ ^e&v[6]
			t1 := v[7] + s1 + ch + shaK[i] + w[i]
			s0 := bits.RotateLeft32(a, -2) ^ bits.RotateLeft32(a, -13) ^ bits.RotateLeft32(a, -22)
			mj := a&v[1] ^ a&v[2] ^ v[1]&v[2]
			v = [8]uint32{t1 + s0 + mj, v[0], v[1], v[2], v[3] + t1, v[4], v[5], v[6]}
		}
		for i := range h {
			h[i] += v[i]
		}
	}
	var out []byte
	for _, x := range h {
		out = append(out, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	return out
}

var shaH [8]uint32
var shaK [64]uint32

// frac32 returns the first 32 bits of the fractional part of the r-th root of p
// (r is 2 or 3), by integer search: floor(p^(1/r) * 2^32) mod 2^32.
func frac32(p uint64, r int) uint32 {
	lo, hi := newInt(0), newInt(1)
	hi.Lsh(hi, 40)
	target := newInt(int64(p))
	target.Lsh(target, uint(32*r))
	for {
		d := newInt(0).Sub(hi, lo)
		if d.Cmp(newInt(1)) <= 0 {
			break
		}
		mid := newInt(0).Add(lo, hi)
		mid.Rsh(mid, 1)
		pw := newInt(0).Mul(mid, mid)
		if r == 3 {
			pw.Mul(pw, mid)
		}
		if pw.Cmp(target) <= 0 {
			lo = mid
		} else {
			hi = mid
		}
	}
	return uint32(lo.Uint64())
}

func init() {
	n := 0
	for p := uint64(2); n < 64; p++ {
		prime := true
		for q := uint64(2); q*q <= p; q++ {
			if p%q == 0 {
				prime = false
			}
		}
		if !prime {
			continue
		}
		if n < 8 {
			shaH[n] = frac32(p, 2)
		}
		shaK[n] = frac32(p, 3)
		n++
	}
}
