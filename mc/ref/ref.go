// Package ref holds boring reference models, written from the Bitcoin protocol
// documentation and sharing no code with the library under test.
package ref

import (
	"crypto/sha256"
	"encoding/hex"
	"math/big"
	"sort"
	"strings"
)

// ---- integers -------------------------------------------------------------

func LE(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

func GetLE(b []byte) uint64 {
	var v uint64
	for i := len(b) - 1; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v
}

func Rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

// VarInt is the minimal CompactSize encoding.
func VarInt(v uint64) []byte {
	switch {
	case v <= 252:
		return []byte{byte(v)}
	case v <= 65535:
		return append([]byte{0xfd}, LE(v, 2)...)
	case v <= 4294967295:
		return append([]byte{0xfe}, LE(v, 4)...)
	}
	return append([]byte{0xff}, LE(v, 8)...)
}

// ReadVarInt returns value, size and whether b holds a complete CompactSize.
func ReadVarInt(b []byte) (v uint64, n int, ok bool) {
	if len(b) == 0 {
		return 0, 0, false
	}
	n = 1
	switch b[0] {
	case 0xfd:
		n = 3
	case 0xfe:
		n = 5
	case 0xff:
		n = 9
	default:
		return uint64(b[0]), 1, true
	}
	if len(b) < n {
		return 0, 0, false
	}
	return GetLE(b[1:n]), n, true
}

func Minimal(v uint64, n int) bool { return len(VarInt(v)) == n }

// ---- hashes ---------------------------------------------------------------

func Sha256d(b []byte) []byte {
	a := sha256.Sum256(b)
	c := sha256.Sum256(a[:])
	return c[:]
}

func Hash160(b []byte) []byte {
	a := sha256.Sum256(b)
	return Ripemd160(a[:])
}

// ---- transactions ---------------------------------------------------------

type In struct {
	TxID   []byte // display order (as in the hex string)
	Vout   uint32
	Script []byte
	Seq    uint32
	Sats   uint64 // not on the wire
	Prev   []byte // not on the wire
}

type Out struct {
	Sats   uint64
	Script []byte
}

type Tx struct {
	Version  uint32
	Ins      []In
	Outs     []Out
	Locktime uint32
}

func cp(b []byte) []byte { return append([]byte{}, b...) }

func (t *Tx) Clone() *Tx {
	c := &Tx{Version: t.Version, Locktime: t.Locktime}
	for _, i := range t.Ins {
		i.TxID, i.Script = cp(i.TxID), cp(i.Script)
		if i.Prev != nil {
			i.Prev = cp(i.Prev)
		}
		c.Ins = append(c.Ins, i)
	}
	for _, o := range t.Outs {
		o.Script = cp(o.Script)
		c.Outs = append(c.Outs, o)
	}
	return c
}

func (i *In) Bytes() []byte {
	b := cp(Rev(i.TxID))
	b = append(b, LE(uint64(i.Vout), 4)...)
	b = append(b, VarInt(uint64(len(i.Script)))...)
	b = append(b, i.Script...)
	return append(b, LE(uint64(i.Seq), 4)...)
}

func (o *Out) Bytes() []byte {
	b := LE(o.Sats, 8)
	b = append(b, VarInt(uint64(len(o.Script)))...)
	return append(b, o.Script...)
}

func (t *Tx) Bytes() []byte {
	b := LE(uint64(t.Version), 4)
	b = append(b, VarInt(uint64(len(t.Ins)))...)
	for k := range t.Ins {
		b = append(b, t.Ins[k].Bytes()...)
	}
	b = append(b, VarInt(uint64(len(t.Outs)))...)
	for k := range t.Outs {
		b = append(b, t.Outs[k].Bytes()...)
	}
	return append(b, LE(uint64(t.Locktime), 4)...)
}

func (t *Tx) ID() string { return hex.EncodeToString(Rev(Sha256d(t.Bytes()))) }

// ParseIn parses one input; minimal reports whether the length prefix is minimal.
func ParseIn(b []byte) (in In, n int, minimal, ok bool) {
	if len(b) < 36 {
		return
	}
	in.TxID = Rev(b[:32])
	in.Vout = uint32(GetLE(b[32:36]))
	l, s, k := ReadVarInt(b[36:])
	if !k {
		return
	}
	rest := b[36+s:]
	if l > uint64(len(rest)) || uint64(len(rest))-l < 4 {
		return
	}
	in.Script = cp(rest[:l])
	in.Seq = uint32(GetLE(rest[l : l+4]))
	return in, 36 + s + int(l) + 4, Minimal(l, s), true
}

// ParseOut parses one output.
func ParseOut(b []byte) (o Out, n int, minimal, ok bool) {
	if len(b) < 8 {
		return
	}
	o.Sats = GetLE(b[:8])
	l, s, k := ReadVarInt(b[8:])
	if !k {
		return
	}
	rest := b[8+s:]
	if l > uint64(len(rest)) {
		return
	}
	o.Script = cp(rest[:l])
	return o, 8 + s + int(l), Minimal(l, s), true
}

// ParseTx parses a whole transaction, which must span b exactly.
func ParseTx(b []byte) (t *Tx, minimal, ok bool) {
	minimal = true
	t = &Tx{}
	if len(b) < 4 {
		return nil, false, false
	}
	t.Version = uint32(GetLE(b[:4]))
	b = b[4:]
	c, s, k := ReadVarInt(b)
	if !k {
		return nil, false, false
	}
	minimal = minimal && Minimal(c, s)
	b = b[s:]
	for i := uint64(0); i < c; i++ {
		in, n, m, k := ParseIn(b)
		if !k {
			return nil, false, false
		}
		minimal = minimal && m
		t.Ins = append(t.Ins, in)
		b = b[n:]
	}
	c, s, k = ReadVarInt(b)
	if !k {
		return nil, false, false
	}
	minimal = minimal && Minimal(c, s)
	b = b[s:]
	for i := uint64(0); i < c; i++ {
		o, n, m, k := ParseOut(b)
		if !k {
			return nil, false, false
		}
		minimal = minimal && m
		t.Outs = append(t.Outs, o)
		b = b[n:]
	}
	if len(b) != 4 {
		return nil, false, false
	}
	t.Locktime = uint32(GetLE(b))
	return t, minimal, true
}

// SigHash is the replay-protected signature digest (internal byte order), see
// bitcoin-sv doc/abc/replay-protected-sighash.md.
func (t *Tx) SigHash(idx int, flag uint32) []byte { return Sha256d(t.Preimage(idx, flag)) }

// Preimage is what SigHash hashes.
func (t *Tx) Preimage(idx int, flag uint32) []byte {
	base := flag & 0x1f
	acp := flag&0x80 != 0
	zero := make([]byte, 32)
	hp, hs, ho := zero, zero, zero
	if !acp {
		var b []byte
		for _, i := range t.Ins {
			b = append(b, Rev(i.TxID)...)
			b = append(b, LE(uint64(i.Vout), 4)...)
		}
		hp = Sha256d(b)
	}
	if !acp && base != 3 && base != 2 {
		var b []byte
		for _, i := range t.Ins {
			b = append(b, LE(uint64(i.Seq), 4)...)
		}
		hs = Sha256d(b)
	}
	if base != 3 && base != 2 {
		var b []byte
		for k := range t.Outs {
			b = append(b, t.Outs[k].Bytes()...)
		}
		ho = Sha256d(b)
	} else if base == 3 && idx < len(t.Outs) {
		ho = Sha256d(t.Outs[idx].Bytes())
	}
	in := t.Ins[idx]
	b := LE(uint64(t.Version), 4)
	b = append(b, hp...)
	b = append(b, hs...)
	b = append(b, Rev(in.TxID)...)
	b = append(b, LE(uint64(in.Vout), 4)...)
	b = append(b, VarInt(uint64(len(in.Prev)))...)
	b = append(b, in.Prev...)
	b = append(b, LE(in.Sats, 8)...)
	b = append(b, LE(uint64(in.Seq), 4)...)
	b = append(b, ho...)
	b = append(b, LE(uint64(t.Locktime), 4)...)
	return append(b, LE(uint64(flag), 4)...)
}

// ---- script ---------------------------------------------------------------

// Op is one script instruction.
type Op struct {
	Push bool   // data push (opcode 0x01..0x4e)
	Code byte   // opcode byte
	Data []byte // pushed data
}

// ParseScript splits a script into instructions; ok is false when a push runs
// past the end.
func ParseScript(b []byte) (ops []Op, ok bool) {
	i := 0
	for i < len(b) {
		c := b[i]
		i++
		var l uint64
		switch {
		case c >= 1 && c <= 75:
			l = uint64(c)
		case c == 0x4c:
			if len(b)-i < 1 {
				return ops, false
			}
			l = uint64(b[i])
			i++
		case c == 0x4d:
			if len(b)-i < 2 {
				return ops, false
			}
			l = GetLE(b[i : i+2])
			i += 2
		case c == 0x4e:
			if len(b)-i < 4 {
				return ops, false
			}
			l = GetLE(b[i : i+4])
			i += 4
		default:
			ops = append(ops, Op{false, c, nil})
			continue
		}
		if uint64(len(b)-i) < l {
			return ops, false
		}
		ops = append(ops, Op{true, c, b[i : i+int(l)]})
		i += int(l)
	}
	return ops, true
}

// Push is the shortest length-prefixed push of non-opcode form.
func Push(d []byte) []byte {
	var p []byte
	switch n := len(d); {
	case n <= 75:
		p = []byte{byte(n)}
	case n <= 255:
		p = []byte{0x4c, byte(n)}
	case n <= 65535:
		p = append([]byte{0x4d}, LE(uint64(n), 2)...)
	default:
		p = append([]byte{0x4e}, LE(uint64(n), 4)...)
	}
	return append(p, d...)
}

func P2PKH(h []byte) []byte {
	return append(append([]byte{0x76, 0xa9, 0x14}, h...), 0x88, 0xac)
}

func P2SH(h []byte) []byte {
	return append(append([]byte{0xa9, 0x14}, h...), 0x87)
}

func IsP2PKH(b []byte) bool {
	return len(b) == 25 && b[0] == 0x76 && b[1] == 0xa9 && b[2] == 20 && b[23] == 0x88 && b[24] == 0xac
}

func IsP2SH(b []byte) bool {
	return len(b) == 23 && b[0] == 0xa9 && b[1] == 20 && b[22] == 0x87
}

// MultisigScript is m-of-n over already ordered keys.
func MultisigScript(m int, keys [][]byte) []byte {
	b := []byte{byte(0x50 + m)}
	for _, k := range keys {
		b = append(b, Push(k)...)
	}
	return append(b, byte(0x50+len(keys)), 0xae)
}

func SortedKeys(keys [][]byte) [][]byte {
	s := append([][]byte{}, keys...)
	sort.SliceStable(s, func(i, j int) bool { return string(s[i]) < string(s[j]) })
	return s
}

// ---- base58 ---------------------------------------------------------------

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func B58Encode(b []byte) string {
	x := new(big.Int).SetBytes(b)
	m, r := big.NewInt(58), new(big.Int)
	var s []byte
	for x.Sign() > 0 {
		x.DivMod(x, m, r)
		s = append(s, b58[r.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		s = append(s, '1')
	}
	return string(Rev(s))
}

func B58Decode(s string) ([]byte, bool) {
	x := new(big.Int)
	m := big.NewInt(58)
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte(b58, s[i])
		if d < 0 {
			return nil, false
		}
		x.Mul(x, m)
		x.Add(x, big.NewInt(int64(d)))
	}
	z := 0
	for z < len(s) && s[z] == '1' {
		z++
	}
	return append(make([]byte, z), x.Bytes()...), true
}

func B58Check(payload []byte) string {
	return B58Encode(append(cp(payload), Sha256d(payload)[:4]...))
}

// Address is the P2PKH address of hash h.
func Address(h []byte, mainnet bool) string {
	v := byte(0x6f)
	if mainnet {
		v = 0
	}
	return B58Check(append([]byte{v}, h...))
}

// ParseAddress accepts exactly the P2PKH addresses of mainnet and testnet.
func ParseAddress(s string) (h []byte, mainnet, ok bool) {
	b, k := B58Decode(s)
	if !k || len(b) != 25 || (b[0] != 0 && b[0] != 0x6f) {
		return nil, false, false
	}
	if string(Sha256d(b[:21])[:4]) != string(b[21:]) {
		return nil, false, false
	}
	return b[1:21], b[0] == 0, true
}

// ---- BIP276 ---------------------------------------------------------------

const hexd = "0123456789abcdef"

func BIP276(prefix string, network, version int, data []byte) string {
	s := prefix + ":" + hex.EncodeToString([]byte{byte(network), byte(version)}) + hex.EncodeToString(data)
	return s + hex.EncodeToString(Sha256d([]byte(s))[:4])
}

// ParseBIP276 accepts exactly the texts BIP276 produces.
func ParseBIP276(t string) (prefix string, network, version int, data []byte, ok bool) {
	i := strings.LastIndexByte(t, ':')
	if i <= 0 {
		return
	}
	body := t[i+1:]
	if len(body) < 12 || len(body)%2 != 0 || strings.Trim(body, hexd) != "" {
		return
	}
	raw, err := hex.DecodeString(body)
	if err != nil {
		return
	}
	prefix, network, version, data = t[:i], int(raw[0]), int(raw[1]), raw[2:len(raw)-4]
	return prefix, network, version, data, BIP276(prefix, network, version, data) == t && network > 0 && version > 0
}

// ---- merkle ---------------------------------------------------------------

// MerkleLevels returns all levels of the tree over leaves (internal order).
func MerkleLevels(leaves [][]byte) [][][]byte {
	lv := [][][]byte{leaves}
	for len(lv[len(lv)-1]) > 1 {
		cur := lv[len(lv)-1]
		var nx [][]byte
		for i := 0; i < len(cur); i += 2 {
			r := cur[i]
			if i+1 < len(cur) {
				r = cur[i+1]
			}
			nx = append(nx, Sha256d(append(cp(cur[i]), r...)))
		}
		lv = append(lv, nx)
	}
	return lv
}

func MerkleRoot(leaves [][]byte) []byte {
	lv := MerkleLevels(leaves)
	return lv[len(lv)-1][0]
}

// MerklePath returns the siblings of leaf idx, bottom up.
func MerklePath(lv [][][]byte, idx int) [][]byte {
	var p [][]byte
	for l := 0; l+1 < len(lv); l++ {
		s := idx ^ 1
		if s >= len(lv[l]) {
			s = idx
		}
		p = append(p, lv[l][s])
		idx >>= 1
	}
	return p
}

// MerkleFold recomputes the root from a leaf, its index and a path.
func MerkleFold(leaf []byte, idx int, path [][]byte) []byte {
	h := leaf
	for _, s := range path {
		if idx&1 == 1 {
			h = Sha256d(append(cp(s), h...))
		} else {
			h = Sha256d(append(cp(h), s...))
		}
		idx >>= 1
	}
	return h
}

// ---- compact targets ------------------------------------------------------

// Target expands compact bits.
func Target(bits uint32) *big.Int {
	e := int(bits >> 24)
	t := new(big.Int).SetUint64(uint64(bits & 0x7fffff))
	if e >= 3 {
		t.Mul(t, new(big.Int).Exp(big.NewInt(256), big.NewInt(int64(e-3)), nil))
	} else {
		t.Div(t, new(big.Int).Exp(big.NewInt(256), big.NewInt(int64(3-e)), nil))
	}
	if bits&0x800000 != 0 {
		t.Neg(t)
	}
	return t
}

// ---- BIP34 ----------------------------------------------------------------

// HeightPush is the minimal script push of a block height (BIP34).
func HeightPush(h uint32) []byte {
	if h == 0 {
		return []byte{0}
	}
	if h <= 16 {
		return []byte{byte(0x50 + h)}
	}
	var b []byte
	for v := h; v > 0; v >>= 8 {
		b = append(b, byte(v))
	}
	if b[len(b)-1]&0x80 != 0 {
		b = append(b, 0)
	}
	return append([]byte{byte(len(b))}, b...)
}
