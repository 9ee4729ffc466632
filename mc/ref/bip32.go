package ref

import (
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"math/big"
	"sync"
)

// ---- secp256k1 and BIP32, independent of bsvec and hdkeychain -----------------

var (
	curveP, _  = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	curveN, _  = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	curveGx, _ = new(big.Int).SetString("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16)
	curveGy, _ = new(big.Int).SetString("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16)
)

type point struct{ x, y *big.Int } // nil x: infinity

func (a point) add(b point) point {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	l := new(big.Int)
	if a.x.Cmp(b.x) == 0 {
		if a.y.Cmp(b.y) != 0 || a.y.Sign() == 0 {
			return point{}
		}
		l.Mul(a.x, a.x)
		l.Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.y, 1), curveP))
	} else {
		d := new(big.Int).Sub(b.x, a.x)
		d.Mod(d, curveP)
		l.Sub(b.y, a.y)
		l.Mul(l, new(big.Int).ModInverse(d, curveP))
	}
	l.Mod(l, curveP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x)
	x.Sub(x, b.x)
	x.Mod(x, curveP)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l)
	y.Sub(y, a.y)
	y.Mod(y, curveP)
	return point{x, y}
}

func (a point) mul(k *big.Int) point {
	var r point
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(a)
		}
	}
	return r
}

func (a point) bytes() []byte {
	b := make([]byte, 33)
	b[0] = 2 + byte(a.y.Bit(0))
	a.x.FillBytes(b[1:])
	return b
}

func parsePoint(b []byte) (point, bool) {
	if len(b) != 33 || b[0] != 2 && b[0] != 3 {
		return point{}, false
	}
	x := new(big.Int).SetBytes(b[1:])
	if x.Cmp(curveP) >= 0 {
		return point{}, false
	}
	r := new(big.Int).Exp(x, big.NewInt(3), curveP)
	r.Add(r, big.NewInt(7))
	r.Mod(r, curveP)
	y := new(big.Int).ModSqrt(r, curveP)
	if y == nil {
		return point{}, false
	}
	if byte(y.Bit(0)) != b[0]&1 {
		y.Sub(curveP, y)
	}
	return point{x, y}, true
}

// PubKey is the compressed public key of a private key.
func PubKey(priv []byte) []byte {
	return point{curveGx, curveGy}.mul(new(big.Int).SetBytes(priv)).bytes()
}

// XKey is an extended key.
type XKey struct {
	Chain, Key []byte // Key: 33 bytes; private keys start with 00
	Head       []byte // version, depth, fingerprint, child number
}

// ParseXKey reads the 78 raw bytes of an extended key; ok only for a usable key.
func ParseXKey(raw []byte) (k XKey, ok bool) {
	if len(raw) != 78 {
		return
	}
	k = XKey{cp(raw[13:45]), cp(raw[45:]), cp(raw[:13])}
	if k.Key[0] == 0 {
		v := new(big.Int).SetBytes(k.Key[1:])
		return k, v.Sign() > 0 && v.Cmp(curveN) < 0
	}
	_, ok = parsePoint(k.Key)
	return k, ok
}

// Raw serialises an extended key (78 bytes).
func (k XKey) Raw() []byte { return append(append(cp(k.Head), k.Chain...), k.Key...) }

// Depth is the depth field.
func (k XKey) Depth() int { return int(k.Head[4]) }

var (
	childMu  sync.Mutex
	childMem = map[string]XKey{}
	pubMem   = map[string][]byte{}
)

// Child derives child i (BIP32). Fingerprint and depth are not maintained in
// full: only keys and chain codes matter here.
func (k XKey) Child(i uint32) (XKey, bool) {
	id := string(k.Chain) + string(k.Key) + string([]byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)})
	childMu.Lock()
	c, hit := childMem[id]
	childMu.Unlock()
	if hit {
		return c, c.Key != nil
	}
	c, _ = k.child(i)
	childMu.Lock()
	if len(childMem) < 1<<18 {
		childMem[id] = c
	}
	childMu.Unlock()
	return c, c.Key != nil
}

func (k XKey) child(i uint32) (XKey, bool) {
	private := k.Key[0] == 0
	var data []byte
	if i >= 1<<31 {
		if !private {
			return XKey{}, false
		}
		data = cp(k.Key)
	} else if private {
		data = PubKey(k.Key[1:])
	} else {
		data = cp(k.Key)
	}
	data = binary.BigEndian.AppendUint32(data, i)
	m := hmac.New(sha512.New, k.Chain)
	m.Write(data)
	h := m.Sum(nil)
	il := new(big.Int).SetBytes(h[:32])
	if il.Sign() == 0 || il.Cmp(curveN) >= 0 {
		return XKey{}, false
	}
	c := XKey{Chain: h[32:], Head: cp(k.Head)}
	c.Head[4]++
	if private {
		v := new(big.Int).SetBytes(k.Key[1:])
		v.Add(v, il)
		v.Mod(v, curveN)
		c.Key = make([]byte, 33)
		v.FillBytes(c.Key[1:])
		return c, v.Sign() > 0
	}
	p, _ := parsePoint(k.Key)
	q := point{curveGx, curveGy}.mul(il).add(p)
	if q.x == nil {
		return XKey{}, false
	}
	c.Key = q.bytes()
	return c, true
}

// Pub is the compressed public key of an extended key.
func (k XKey) Pub() []byte {
	if k.Key[0] != 0 {
		return cp(k.Key)
	}
	childMu.Lock()
	p, hit := pubMem[string(k.Key)]
	childMu.Unlock()
	if !hit {
		p = PubKey(k.Key[1:])
		childMu.Lock()
		pubMem[string(k.Key)] = p
		childMu.Unlock()
	}
	return cp(p)
}
