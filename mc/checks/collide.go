package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"sync"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/utils"

	"verif/mc/engine"
	"verif/mc/ref"
)

// Pairs of different arguments which have the same checksum: code which
// remembers, compares or indexes by one confuses them.

type weakHash struct {
	name string
	f    func(b []byte) uint32
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

func poly(start, mul uint32, xor bool) func(b []byte) uint32 {
	return func(b []byte) uint32 {
		h := start
		for _, c := range b {
			if xor {
				h = h*mul ^ uint32(c)
			} else {
				h = h*mul + uint32(c)
			}
		}
		return h
	}
}

func words(b []byte, f func(h, w uint64) uint64) uint32 {
	h := uint64(len(b))
	for i := 0; i < len(b); i += 8 {
		var w [8]byte
		copy(w[:], b[i:])
		h = f(h, binary.LittleEndian.Uint64(w[:]))
	}
	return uint32(h ^ h>>32)
}

var weakHashes = []weakHash{
	{"CRC-32", crc32.ChecksumIEEE},
	{"CRC-32C", func(b []byte) uint32 { return crc32.Checksum(b, castagnoli) }},
	{"Adler-32", adler32.Checksum},
	{"FNV-1", func(b []byte) uint32 { h := fnv.New32(); h.Write(b); return h.Sum32() }},
	{"FNV-1a", func(b []byte) uint32 { h := fnv.New32a(); h.Write(b); return h.Sum32() }},
	{"31 h + c", poly(0, 31, false)},
	{"33 h + c", poly(5381, 33, false)},
	{"33 h ^ c", poly(5381, 33, true)},
	{"65599 h + c", poly(0, 65599, false)},
	{"words added", func(b []byte) uint32 { return words(b, func(h, w uint64) uint64 { return h + w }) }},
	{"words xored", func(b []byte) uint32 { return words(b, func(h, w uint64) uint64 { return h ^ w }) }},
	{"4 bytes of SHA-256", func(b []byte) uint32 { return binary.LittleEndian.Uint32(fast256d(b)) }},
}

// payload is 24 bytes which are part of an instance.
func payload(n uint32) []byte {
	a := uint64(n)*0x9e3779b97f4a7c15 + 0x1234567
	r := make([]byte, 24)
	for i := 0; i < 3; i++ {
		a ^= a >> 29
		a *= 0xbf58476d1ce4e5b9
		a ^= a >> 32
		binary.LittleEndian.PutUint64(r[8*i:], a)
	}
	return r
}

// swapped are payloads whose 8-byte words are exchanged, or whose bytes are:
// sums, xors and multisets agree whatever the alignment.
func swapped(p []byte) [][]byte {
	r := [][]byte{cat(p[8:16], p[:8], p[16:]), cat(p[16:], p[8:16], p[:8]), cat(p[:8], p[16:], p[8:16]), ref.Rev(p)}
	for _, d := range []int{1, 2, 4} {
		q := cp(p)
		for i := 0; i < d; i++ {
			q[i], q[d+i] = q[d+i], q[i]
		}
		r = append(r, q)
	}
	for _, i := range []int{0, 7, 11, 12, 23} { // the ends and the length agree
		q := cp(p)
		q[i] ^= 0x40
		r = append(r, q)
	}
	q := cp(p)
	q[3]++
	q[9]--
	q[4], q[20] = q[4]+5, q[20]-5
	return append(r, q)
}

// A colliding family: inst builds the instance of a payload, of one of two
// kinds (a good one and a bad one; both good when kinds is 1), keys what code
// might compute a checksum over, and run compares the library with the model.
type collider struct {
	kinds int
	keys  func(p []byte, kind int) [][]byte
	names []string
	run   func(x *X, p []byte, kind int)
	pair  func(x *X, p, q []byte) // may be nil
	n     uint32                  // instances searched
}

type collision struct {
	what string
	a, b []byte
	ka   int
	kb   int
}

func collisions(c collider) []collision {
	var r []collision
	nk := len(c.names)
	type entry struct{ n, kind uint32 }
	sets := make([][][]byte, nk) // keys of all instances
	for i := range sets {
		sets[i] = make([][]byte, c.n)
	}
	var wg sync.WaitGroup
	for w := uint32(0); w < 8; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := w; n < c.n; n += 8 {
				for i, k := range c.keys(payload(n), int(n)%c.kinds) {
					sets[i][n] = k
				}
			}
		}()
	}
	wg.Wait()
	found := make([][]collision, nk*len(weakHashes))
	for j := range found {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			h := weakHashes[j%len(weakHashes)]
			set := sets[j/len(weakHashes)]
			seen := make(map[uint32]entry, c.n)
			for n := uint32(0); n < c.n && len(found[j]) < 4; n++ {
				v := h.f(set[n])
				e, ok := seen[v]
				if !ok {
					seen[v] = entry{n, n % uint32(c.kinds)}
					continue
				}
				if bytes.Equal(set[e.n], set[n]) {
					continue
				}
				if len(found[j]) >= 2 && e.kind == n%uint32(c.kinds) && c.kinds > 1 {
					continue // wait for a pair of a good and a bad one
				}
				found[j] = append(found[j], collision{fmt.Sprintf("%s of the %s", h.name, c.names[j/len(weakHashes)]), payload(e.n), payload(n), int(e.kind), int(n) % c.kinds})
			}
		}()
	}
	wg.Wait()
	for _, f := range found {
		r = append(r, f...)
	}
	for n := uint32(0); n < 3; n++ {
		p := payload(n)
		for i, q := range swapped(p) {
			for k := 0; k < c.kinds; k++ {
				r = append(r, collision{fmt.Sprintf("parts exchanged or few bytes changed, %d", i), p, q, 0, k})
			}
		}
	}
	return r
}

func colliderOf(id string) *collider {
	const many = 150000
	// cut drops or damages good data when the kind is 1
	hexKey := func(f func(p []byte, kind int) []byte) func(p []byte, kind int) [][]byte {
		return func(p []byte, kind int) [][]byte {
			b := f(p, kind)
			return [][]byte{b, []byte(hx(b))}
		}
	}
	txOf := func(p []byte) *ref.Tx {
		t := simpleTx(1, 1)
		t.Ins[0].Script = p
		t.Outs[0].Script = cat([]byte{0x6a, 24}, p)
		t.Ins[0].Prev = ref.P2PKH(keys[0].hash)
		return t
	}
	rawOf := func(p []byte, kind int) []byte {
		b := txOf(p).Bytes()
		if kind == 1 {
			b[len(b)-4-27]++ // the output's script length
		}
		return b
	}
	switch id {
	case "C01":
		return &collider{1, hexKey(rawOf), []string{"bytes", "hex"}, func(x *X, p []byte, _ int) { checkWire(x, txOf(p)) }, nil, many}
	case "C02":
		return &collider{2, hexKey(rawOf), []string{"bytes", "hex"}, func(x *X, p []byte, k int) { checkParseTx(x, rawOf(p, k), "exact") }, nil, many}
	case "C04", "C05":
		pre := func(p []byte) *ref.Tx {
			t := txOf(p)
			t.Ins[0].Prev = cat([]byte{0x51, 24}, p)
			return t
		}
		return &collider{1, func(p []byte, _ int) [][]byte {
			t := pre(p)
			return [][]byte{t.Ins[0].Prev, t.Outs[0].Bytes(), t.Bytes()}
		}, []string{"previous script", "output", "transaction"}, func(x *X, p []byte, _ int) {
			t := pre(p)
			if id == "C04" {
				for _, f := range []uint8{0x41, 0xc3} {
					digest(x, libTx(t), t, 0, f, "colliding")
				}
				return
			}
			signCheck(x, libTx(t), t, 0, 0, 0x41, true)
		}, nil, many}
	case "C06":
		sc := func(p []byte, kind int) []byte { // another key's script, or the signer's among others
			if kind == 1 {
				return ref.P2PKH(p[:20])
			}
			return cat([]byte{0x51, 24}, p)
		}
		return &collider{2, func(p []byte, kind int) [][]byte { return [][]byte{sc(p, kind)} }, []string{"previous script"}, func(x *X, p []byte, kind int) {
			t := txOf(p)
			t.Ins = append(t.Ins, simpleIn(3))
			t.Ins[0].Prev = sc(p, kind)
			t.Ins[1].Prev = ref.P2PKH(keys[0].hash)
			autoTx(x, t, []int{0}, []uint8{0x41})
		}, nil, many}
	case "C09":
		return &collider{1, func(p []byte, _ int) [][]byte { return [][]byte{p} }, []string{"part"}, func(x *X, p []byte, _ int) {
			checkPush(x, p, true)
			checkPush(x, cat(p, p, p, p), true)
		}, nil, many}
	case "C10":
		return &collider{2, hexKey(func(p []byte, kind int) []byte { return append([]byte{byte(24 + kind)}, p...) }), []string{"bytes", "hex"}, func(x *X, p []byte, kind int) {
			b := append([]byte{byte(24 + kind)}, p...)
			decode10(x, b)
			decStr(x, hx(b))
			decode10(x, cat([]byte{0x51}, p))
		}, nil, many}
	case "C11":
		return &collider{1, func(p []byte, _ int) [][]byte {
			return [][]byte{cat([]byte{24}, p, []byte{0xac}), []byte(hx(p) + " OP_CHECKSIG"), []byte(hx(p))}
		}, []string{"script", "text", "word"}, func(x *X, p []byte, _ int) {
			asmBoth(x, cat([]byte{24}, p, []byte{0xac}), hx(p)+" OP_CHECKSIG")
		}, nil, many}
	case "C12":
		sc := func(p []byte, kind int) []byte {
			if kind == 1 {
				return cat([]byte{0x76, 0xa9, 0x14}, p[:20], []byte{0x88, 0xad})
			}
			return ref.P2PKH(p[:20])
		}
		return &collider{2, func(p []byte, kind int) [][]byte { return [][]byte{sc(p, kind)} }, []string{"script"}, func(x *X, p []byte, kind int) {
			classify2(x, sc(p, kind))
			classify2(x, cat([]byte{0xa9, 0x14}, p[:20], []byte{byte(0x87 + kind)}))
			classify2(x, cat([]byte{33, 2}, p, p[:8], []byte{byte(0xac + kind)}))
		}, nil, many}
	case "C13", "C14", "C34":
		return &collider{1, func(p []byte, _ int) [][]byte {
			return [][]byte{p[:20], []byte(hx(p[:20])), []byte(ref.Address(p[:20], true)), append([]byte{2}, p...)}
		}, []string{"hash", "hex hash", "address", "key"}, func(x *X, p []byte, _ int) {
			if id == "C14" {
				codec(x, p[:20])
				return
			}
			agree(x, nil, p[:20], true)
			try(x, "P2PKH from key bytes", func() {
				k := cat([]byte{2}, p, p[:8])
				s, err := script.NewP2PKHFromPubKeyBytes(k)
				built(x, "NewP2PKHFromPubKeyBytes", s, err, ref.P2PKH(ref.Hash160(k)))
				puzzle(x, string(p))
			})
		}, nil, 100000}
	case "C15":
		text := func(p []byte, kind int) []byte {
			b := append([]byte{0}, p[:20]...)
			b = append(b, ref.Sha256d(b)[:4]...)
			if kind == 1 {
				b[24-p[23]%4] ^= 1 << (p[22] % 8)
			}
			return []byte(ref.B58Encode(b))
		}
		return &collider{2, func(p []byte, kind int) [][]byte { return [][]byte{text(p, kind)} }, []string{"text"}, func(x *X, p []byte, kind int) {
			accept(x, string(text(p, kind)), true)
		}, nil, 200000}
	case "C16":
		text := func(p []byte, kind int) []byte {
			b := []byte(ref.BIP276("bitcoin-script", 1, 1, p))
			if kind == 1 {
				c := b[len(b)-1-int(p[0]%8)]
				b[len(b)-1-int(p[0]%8)] = "0123456789abcdef"[(bytes.IndexByte([]byte("0123456789abcdef"), c)+1+int(p[1]%15))%16]
			}
			return b
		}
		return &collider{2, func(p []byte, kind int) [][]byte { return [][]byte{text(p, kind), p} }, []string{"text", "data"}, func(x *X, p []byte, kind int) {
			bipText(x, string(text(p, kind)))
			bipRound(x, "bitcoin-script", 1, 1, p)
		}, nil, many}
	case "C17":
		path := func(p []byte) []uint32 {
			return []uint32{binary.LittleEndian.Uint32(p) >> 1, binary.LittleEndian.Uint32(p[4:]) >> 1}
		}
		return &collider{1, func(p []byte, _ int) [][]byte {
			q := path(p)
			return [][]byte{cat(le4(q[0]), le4(q[1])), []byte(fmt.Sprintf("%d/%d", q[0], q[1]))}
		}, []string{"path", "path text"}, func(x *X, p []byte, _ int) {
			xkeys()
			rs, _ := script.NewRedeemScript(2)
			try(x, "AddPublicKey", func() {
				if err := rs.AddPublicKey(xtext[0], path(p)); err != nil {
					x.Failf("AddPublicKey", "%v", err)
				}
			})
			pb, _ := derive(xpubs[0], path(p)...)
			checkRedeem(x, rs, 2, [][]byte{pb}, "colliding path")
		}, nil, many}
	case "C19", "C20":
		leaf := func(p []byte) []byte { return cat(p, p[:8]) }
		return &collider{1, func(p []byte, _ int) [][]byte {
			l := leaf(p)
			return [][]byte{l, []byte(hx(ref.Rev(l))), cat(l, pat(32, 7)), cat(pat(32, 7), l)}
		}, []string{"leaf", "text", "pair", "pair"}, func(x *X, p []byte, _ int) {
			l := [][]byte{leaf(p), pat(32, 7), leaf(p), pat(32, 8), pat(32, 7), leaf(p)}
			if id == "C19" {
				coinbaseTree(x, l, false)
				return
			}
			lv := ref.MerkleLevels(l)
			for i := range l {
				proof(x, hx(ref.Rev(l[i])), i, display(ref.MerklePath(lv, i)), lv[len(lv)-1][0])
			}
		}, nil, 100000}
	case "C21":
		return &collider{1, func(p []byte, _ int) [][]byte { return [][]byte{p} }, []string{"text"}, func(x *X, p []byte, _ int) {
			coinbase(x, cbArgs{height: 700000, value: 5, text: string(p), wallet: mainAddr, e1: 4, miner: p, witness: p})
		}, nil, many}
	case "C25":
		ct := func(p []byte, kind int) []byte {
			c := modelCipher(0, pat(16, 3), []byte(base64.StdEncoding.EncodeToString(p)))
			if kind == 1 {
				c[20] ^= 0x80
			}
			return c
		}
		return &collider{2, func(p []byte, kind int) [][]byte { return [][]byte{ct(p, kind), p} }, []string{"ciphertext", "text"}, func(x *X, p []byte, kind int) {
			decrypts(x, 0, ct(p, kind))
			cipherRound(x, 0, p)
		}, nil, 100000}
	case "C28":
		return &collider{1, func(p []byte, _ int) [][]byte { return [][]byte{p, cat(p, p, p, p)} }, []string{"message", "message of 96 bytes"}, func(x *X, p []byte, _ int) {
			hash4(x, p, 0)
			hash4(x, cat(p, p, p, p), 0)
		}, nil, many}
	case "C29":
		return &collider{1, func(p []byte, _ int) [][]byte { return [][]byte{p, []byte(hx(p))} }, []string{"bytes", "hex"}, func(x *X, p []byte, _ int) {
			revHex(x, hx(p))
			var r []byte
			try(x, "ReverseBytes", func() { r = utils.ReverseBytes(cp(p)) })
			if !bytes.Equal(r, ref.Rev(p)) {
				x.Failf("ReverseBytes", "ReverseBytes(%x) = %x", p, r)
			}
		}, func(x *X, p, q []byte) {
			var e, e2 bool
			try(x, "Equals", func() { e, e2 = utils.Equals(p, q), utils.Equals(q, p) })
			if e || e2 {
				x.Failf("Equals", "Equals(%x, %x) is true", p, q)
			}
			for _, l := range [][][]byte{{p, q}, {q, p}} {
				var s [][]byte
				try(x, "SortByteArrays", func() { s = utils.SortByteArrays([][]byte{l[0], l[1]}) })
				if w := ref.SortedKeys(l); !bytes.Equal(s[0], w[0]) || !bytes.Equal(s[1], w[1]) {
					x.Failf("SortByteArrays", "sorting %x, %x gives %x, %x", l[0], l[1], s[0], s[1])
				}
			}
		}, many}
	case "C30":
		return &collider{1, func(p []byte, _ int) [][]byte { return [][]byte{p, txOf(p).Bytes()} }, []string{"script", "transaction"}, func(x *X, p []byte, _ int) {
			cleared(x, txOf(p), 0, p)
		}, nil, many}
	case "C35":
		return &collider{1, func(p []byte, _ int) [][]byte {
			return [][]byte{p, cat([]byte{0, 0x6a, 24}, p)}
		}, []string{"part", "script"}, func(x *X, p []byte, _ int) {
			for way := range dataWays {
				carry(x, [][]byte{p}, way, 1+way%3, 0)
			}
		}, nil, many}
	}
	return nil
}

// collisionScenario runs every colliding pair one after the other and the
// first again, with both fresh objects and the result of the first kept.
func collisionScenario(id string) []engine.Scenario {
	c := colliderOf(id)
	if c == nil {
		return nil
	}
	var once sync.Once
	var l []collision
	hs := ""
	for _, h := range weakHashes {
		hs += ", " + h.name
	}
	return []engine.Scenario{{Name: "checksum-collisions", Bound: fmt.Sprintf("pairs of arguments which agree in a checksum%s (up to 4 pairs each among %d, computed over: %v), or made of the same bytes or words in another order, or differing in one byte: A, B, A, B", hs, c.n, c.names), Serial: true, Run: func(x *X) {
		once.Do(func() { l = collisions(*c) })
		e := l[x.Choose(len(l))]
		if x.Bool() {
			e.a, e.b, e.ka, e.kb = e.b, e.a, e.kb, e.ka
		}
		x.Outcome(e.what)
		c.run(x, e.a, e.ka)
		c.run(x, e.b, e.kb)
		c.run(x, e.a, e.ka)
		c.run(x, e.b, e.kb)
		if c.pair != nil {
			c.pair(x, e.a, e.b)
		}
		x.Step(4)
		x.Validated(1)
		x.Statef("%x %d %x %d", e.a, e.ka, e.b, e.kb)
	}}}
}
