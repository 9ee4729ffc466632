package checks

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/bitcoinsv/bsvd/bsvec"
	"golang.org/x/crypto/ripemd160"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"

	"verif/mc/engine"
	"verif/mc/ref"
)

// Rare values of what the library computes: hashes, checksums, coordinates and
// signatures which begin or end with several zero or ff bytes, or the like.
// Inputs which lead to them are searched once ("mc shapes" writes
// shapes_data.go); a check runs the library on every one found.

type shape struct {
	name string
	ok   func(b []byte) bool
}

var shapeList = func() []shape {
	var l []shape
	add := func(name string, f func(b []byte) bool) { l = append(l, shape{name, f}) }
	for _, v := range []byte{0, 0xff} {
		for n := 2; n <= 3; n++ {
			p := rep(n, v)
			add(fmt.Sprintf("%x first", p), func(b []byte) bool { return bytes.HasPrefix(b, p) })
			add(fmt.Sprintf("%x last", p), func(b []byte) bool { return bytes.HasSuffix(b, p) })
			add(fmt.Sprintf("%x in the middle", p), func(b []byte) bool {
				return bytes.Equal(b[len(b)/2:min(len(b)/2+len(p), len(b))], p)
			})
		}
		add(fmt.Sprintf("%02x first and last", v), func(b []byte) bool { return b[0] == v && b[len(b)-1] == v })
	}
	for _, p := range [][]byte{{0, 0x80}, {0x80, 0}, {0, 1}, {1, 0}, {0x7f, 0xff}, {0xff, 0xfe}, {0, 0x6a}, {0x76, 0xa9}, {0x0d, 0x0a}, {0x30, 0x78}} {
		add(fmt.Sprintf("%x first", p), func(b []byte) bool { return bytes.HasPrefix(b, p) })
		add(fmt.Sprintf("%x last", p), func(b []byte) bool { return bytes.HasSuffix(b, p) })
	}
	add("four equal bytes first", func(b []byte) bool { return b[0] == b[1] && b[0] == b[2] && b[0] == b[3] })
	add("four letters or digits first", func(b []byte) bool {
		for _, c := range b[:4] {
			if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
				return false
			}
		}
		return true
	})
	add("hex text all digits in front", func(b []byte) bool {
		for _, c := range b[:min(len(b), 16)] {
			if c>>4 > 9 || c&15 > 9 {
				return false
			}
		}
		return true
	})
	add("hex text like 12e34 in front", func(b []byte) bool {
		s := hx(b[:4])
		return s[2] == 'e' && !strings.ContainsAny(s[:2]+s[3:], "abcdef")
	})
	return l
}()

// sigShapes are over r || s, 32 bytes each.
var sigShapes = []shape{
	{"r of 30 bytes", func(b []byte) bool { return b[0] == 0 && b[1] == 0 && b[2] < 0x80 }},
	{"r of 29 bytes", func(b []byte) bool { return b[0] == 0 && b[1] == 0 && b[2] == 0 && b[3] < 0x80 }},
	{"r of 31 bytes and a zero", func(b []byte) bool { return b[0] == 0 && b[1] >= 0x80 }},
	{"r of 30 bytes and a zero", func(b []byte) bool { return b[0] == 0 && b[1] == 0 && b[2] >= 0x80 }},
	{"s of 30 bytes", func(b []byte) bool { return b[32] == 0 && b[33] == 0 && b[34] < 0x80 }},
	{"s of 29 bytes", func(b []byte) bool { return b[32] == 0 && b[33] == 0 && b[34] == 0 && b[35] < 0x80 }},
	{"s of 31 bytes and a zero", func(b []byte) bool { return b[32] == 0 && b[33] >= 0x80 }},
	{"s of 30 bytes and a zero", func(b []byte) bool { return b[32] == 0 && b[33] == 0 && b[34] >= 0x80 }},
	{"both of 31 bytes", func(b []byte) bool { return b[0] == 0 && b[1] < 0x80 && b[32] == 0 && b[33] < 0x80 }},
	{"r of 31 bytes, s of 30", func(b []byte) bool {
		return b[0] == 0 && b[1] < 0x80 && b[32] == 0 && b[33] == 0 && b[34] < 0x80
	}},
	{"r of 33 bytes, s of 31", func(b []byte) bool { return b[0] >= 0x80 && b[32] == 0 && b[33] < 0x80 }},
	{"r of 33 bytes, s of 30", func(b []byte) bool { return b[0] >= 0x80 && b[32] == 0 && b[33] == 0 && b[34] < 0x80 }},
	{"r ends in zeros", func(b []byte) bool { return b[30] == 0 && b[31] == 0 }},
	{"s ends in zeros", func(b []byte) bool { return b[62] == 0 && b[63] == 0 }},
	{"r begins ffff", func(b []byte) bool { return b[0] == 0xff && b[1] == 0xff }},
	{"s begins 7f", func(b []byte) bool { return b[32] == 0x7f && b[33] >= 0xf0 }},
}

// A rarity is a quantity computed from a counter.
type rarity struct {
	name   string
	shapes []shape
	limit  uint32
	fast   func() func(n uint32) []byte // for the search; not used by the checks
	model  func(n uint32) []byte        // the same by the model
	size   int
}

func le4(n uint32) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }

func fast256d(m []byte) []byte {
	a := sha256.Sum256(m)
	b := sha256.Sum256(a[:])
	return b[:]
}

func fast160(m []byte) []byte {
	a := sha256.Sum256(m)
	h := ripemd160.New()
	h.Write(a[:])
	return h.Sum(nil)
}

// patched searches over a message of which 4 bytes count.
func patched(msg []byte, at int, h func([]byte) []byte) func() func(n uint32) []byte {
	return func() func(n uint32) []byte {
		m := cp(msg)
		return func(n uint32) []byte {
			copy(m[at:], le4(n))
			return h(m)
		}
	}
}

func shapeTx(n uint32) *ref.Tx {
	t := simpleTx(1, 2)
	t.Locktime = n
	t.Ins[0].Prev = ref.P2PKH(keys[0].hash)
	t.Outs[0].Script = ref.P2PKH(keys[0].hash)
	return t
}

func shapeKey(n uint32) *key {
	b := append(pat(28, 11), le4(n)...)
	p, pub := bsvec.PrivKeyFromBytes(bsvec.S256(), b)
	c := pub.SerializeCompressed()
	return &key{priv: p, pub: c, unc: pub.SerializeUncompressed(), hash: ref.Hash160(c)}
}

func shapePub(n uint32) []byte {
	b := append(pat(28, 11), le4(n)...)
	x, y := bsvec.S256().ScalarBaseMult(b)
	r := make([]byte, 64)
	x.FillBytes(r[:32])
	y.FillBytes(r[32:])
	return r
}

func shapeHash(n uint32) []byte { return append(le4(n), pat(16, 12)...) }

func shapeData(n uint32) []byte { return append(pat(9, 13), le4(n)...) }

func shapePair(n uint32) [2][]byte { return [2][]byte{append(le4(n), pat(28, 14)...), pat(32, 15)} }

func compressed(xy []byte) []byte { return append([]byte{2 + xy[63]&1}, xy[:32]...) }

func shapeSig(n uint32) []byte {
	t := shapeTx(n)
	s, err := keys[0].priv.Sign(t.SigHash(0, 0x41))
	if err != nil {
		panic(err)
	}
	r := make([]byte, 64)
	s.R.FillBytes(r[:32])
	s.S.FillBytes(r[32:])
	return r
}

func rarities() []rarity {
	pre := shapeTx(0).Preimage(0, 0x41)
	raw := shapeTx(0).Bytes()
	sum := func(v byte) func() func(n uint32) []byte {
		return patched(append([]byte{v}, shapeHash(0)...), 1, func(m []byte) []byte { return fast256d(m)[:4] })
	}
	sumModel := func(v byte) func(n uint32) []byte {
		return func(n uint32) []byte { return ref.Sha256d(append([]byte{v}, shapeHash(n)...))[:4] }
	}
	pair := shapePair(0)
	return []rarity{
		{"digest", shapeList, 1 << 27, patched(pre, len(pre)-8, fast256d), func(n uint32) []byte { return shapeTx(n).SigHash(0, 0x41) }, 32},
		{"txid", shapeList, 1 << 27, patched(raw, len(raw)-4, fast256d), func(n uint32) []byte { return ref.Sha256d(shapeTx(n).Bytes()) }, 32},
		{"signature", sigShapes, 1 << 24, func() func(n uint32) []byte { return shapeSig }, shapeSig, 64},
		{"x", shapeList, 1 << 22, func() func(n uint32) []byte { return func(n uint32) []byte { return shapePub(n)[:32] } }, func(n uint32) []byte { return shapeKey(n).pub[1:] }, 32},
		{"y", shapeList, 1 << 20, func() func(n uint32) []byte { return func(n uint32) []byte { return shapePub(n)[32:] } }, func(n uint32) []byte { return shapeKey(n).unc[33:] }, 32},
		{"key hash", shapeList, 1 << 22, func() func(n uint32) []byte {
			return func(n uint32) []byte { return fast160(compressed(shapePub(n))) }
		}, func(n uint32) []byte { return shapeKey(n).hash }, 20},
		{"main checksum", shapeList, 1 << 27, sum(0), sumModel(0), 4},
		{"test checksum", shapeList, 1 << 27, sum(0x6f), sumModel(0x6f), 4},
		{"bip276 checksum", shapeList, 1 << 26, func() func(n uint32) []byte {
			return func(n uint32) []byte {
				return fast256d([]byte("bitcoin-script:0101" + hx(shapeData(n))))[:4]
			}
		}, func(n uint32) []byte {
			return ref.Sha256d([]byte("bitcoin-script:0101" + hx(shapeData(n))))[:4]
		}, 4},
		{"node", shapeList, 1 << 27, patched(cat(pair[0], pair[1]), 0, fast256d), func(n uint32) []byte {
			p := shapePair(n)
			return ref.Sha256d(cat(p[0], p[1]))
		}, 32},
		{"sha256", shapeList, 1 << 27, patched(shapeData(0), 9, func(m []byte) []byte { a := sha256.Sum256(m); return a[:] }), func(n uint32) []byte { return ref.Sha256(shapeData(n)) }, 32},
		{"sha256d", shapeList, 1 << 27, patched(shapeData(0), 9, fast256d), func(n uint32) []byte { return ref.Sha256d(shapeData(n)) }, 32},
		{"ripemd160", shapeList, 1 << 27, patched(shapeData(0), 9, func(m []byte) []byte { h := ripemd160.New(); h.Write(m); return h.Sum(nil) }), func(n uint32) []byte { return ref.Ripemd160(shapeData(n)) }, 20},
		{"hash160", shapeList, 1 << 27, patched(shapeData(0), 9, fast160), func(n uint32) []byte { return ref.Hash160(shapeData(n)) }, 20},
		{"script hash", shapeList, 1 << 18, func() func(n uint32) []byte { return shapeRedeem }, shapeRedeem, 20},
	}
}

var redeemMemo sync.Map

// shapeRedeem is the hash of the 2-of-2 script of children 0/n and 1/0 of an extended key.
func shapeRedeem(n uint32) []byte {
	return ref.Hash160(ref.MultisigScript(2, ref.SortedKeys(shapeRedeemKeys(n))))
}

func shapeRedeemKeys(n uint32) [][]byte {
	xkeys()
	parent := func(i uint32) ref.XKey {
		if v, ok := redeemMemo.Load(i); ok {
			return v.(ref.XKey)
		}
		k, _ := xpubs[0].Child(i)
		redeemMemo.Store(i, k)
		return k
	}
	a, _ := parent(0).Child(n)
	b, _ := parent(1).Child(0)
	return [][]byte{a.Pub(), b.Pub()}
}

// GenShapes searches and writes shapes_data.go.
func GenShapes(w io.Writer, log io.Writer) {
	fmt.Fprint(w, "package checks\n\n// Written by \"mc shapes\".\n\nvar shapeData_ = map[string][]uint32{\n")
	for _, r := range rarities() {
		found := make([]uint32, len(r.shapes))
		for i := range found {
			found[i] = ^uint32(0)
		}
		var mu sync.Mutex
		var next uint32
		var left atomic.Int32
		left.Store(int32(len(r.shapes)))
		var wg sync.WaitGroup
		for c := 0; c < runtime.NumCPU(); c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				f := r.fast()
				for left.Load() > 0 {
					lo := atomic.AddUint32(&next, 256) - 256
					if lo >= r.limit {
						return
					}
					for n := lo; n < lo+256; n++ {
						b := f(n)
						for i, s := range r.shapes {
							if atomic.LoadUint32(&found[i]) < n || !s.ok(b) {
								continue
							}
							mu.Lock()
							if found[i] == ^uint32(0) {
								left.Add(-1)
							}
							if n < found[i] {
								atomic.StoreUint32(&found[i], n)
							}
							mu.Unlock()
						}
					}
				}
			}()
		}
		wg.Wait()
		n := 0
		fmt.Fprintf(w, "\t%q: {", r.name)
		seen := map[uint32]bool{}
		var l []string
		for _, v := range found {
			if v != ^uint32(0) {
				n++
				if !seen[v] {
					seen[v] = true
					l = append(l, fmt.Sprint(v))
				}
			}
		}
		sort.Slice(l, func(i, j int) bool { return len(l[i]) < len(l[j]) || len(l[i]) == len(l[j]) && l[i] < l[j] })
		fmt.Fprintf(w, "%s},\n", strings.Join(l, ", "))
		fmt.Fprintf(log, "%s: %d of %d shapes\n", r.name, n, len(r.shapes))
	}
	fmt.Fprint(w, "}\n")
}

// shapesOf gives the counters of a rarity; the shapes reached are reported as outcomes.
func shapesOf(x *X, names ...string) (string, uint32) {
	name := engine.Pick(x, names)
	n := engine.Pick(x, shapeData_[name])
	for _, r := range rarities() {
		if r.name == name {
			b := r.model(n)
			any := false
			for _, s := range r.shapes {
				if s.ok(b) {
					any = true
					x.Outcome(name + ": " + s.name)
				}
			}
			if !any {
				panic("shapes_data.go is stale: " + name)
			}
		}
	}
	x.Statef("%s %d", name, n)
	return name, n
}

// rareValues lists the scenarios over rare values.
func rareValues(id string) []engine.Scenario {
	sc := func(bound string, f func(x *X)) []engine.Scenario {
		return []engine.Scenario{{Name: "rare-values", Bound: bound + ": beginning or ending with, or containing in the middle, 2 or 3 zero or ff bytes; beginning or ending with one of 10 pairs of bytes; 4 equal bytes, 4 letters or digits, or only decimal digits in front (every shape a search finds)", Run: func(x *X) {
			f(x)
			x.Validated(1)
		}}}
	}
	switch id {
	case "C01":
		return sc("transactions with rare txids", func(x *X) {
			_, n := shapesOf(x, "txid")
			checkWire(x, shapeTx(n))
		})
	case "C04":
		return sc("transactions with rare digests", func(x *X) {
			_, n := shapesOf(x, "digest")
			t := shapeTx(n)
			digest(x, libTx(t), t, 0, 0x41, "rare digest")
		})
	case "C05", "C06":
		return sc("transactions with rare digests or signatures (r or s short by 1..3 bytes, with and without the sign byte, at once, ending in zeros), or signed by keys with rare coordinates or hashes", func(x *X) {
			name, n := shapesOf(x, "digest", "signature", "x", "y", "key hash")
			k := &keys[0]
			t := shapeTx(n)
			if name != "digest" && name != "signature" {
				k = shapeKey(n)
				t = shapeTx(1)
				t.Ins[0].Prev = ref.P2PKH(k.hash)
			}
			tx := libTx(t)
			sg := &signature.InternalSigner{PrivateKey: k.priv, SigHashFlag: 0x41}
			var err error
			try(x, "signing", func() {
				if id == "C05" {
					err = tx.Sign(0, sg)
				} else {
					err = tx.SignAuto(sg)
				}
			})
			if err != nil || tx.Inputs[0].UnlockingScript == nil {
				x.Failf("Sign fails", "%s %d: %v", name, n, err)
			}
			t.Ins[0].Script = cp(*tx.Inputs[0].UnlockingScript)
			if d := diffTx(tx, t, true); d != "" {
				x.Failf("Sign changes more", "%s %d: %s", name, n, d)
			}
			checkUnlock(x, t.Ins[0].Script, t, 0, k, 0x41, fmt.Sprintf("%s %d", name, n))
		})
	case "C13":
		return sc("scripts for keys with rare coordinates or hashes, hash puzzles with rare secret hashes, addresses with rare checksums", func(x *X) {
			name, n := shapesOf(x, "x", "y", "key hash", "hash160", "main checksum", "test checksum")
			try(x, "building a script", func() {
				switch name {
				case "hash160":
					o, err := output.NewHashPuzzle(string(shapeData(n)), hx(keys[0].hash), 5)
					builtOut(x, "NewHashPuzzle", o, err, cat([]byte{0xa9, 20}, ref.Hash160(shapeData(n)), []byte{0x88}, ref.P2PKH(keys[0].hash)), 5)
					s, err := script.NewP2PKHFromPubKeyBytes(shapeData(n))
					if err == nil {
						built(x, "NewP2PKHFromPubKeyBytes", s, err, ref.P2PKH(ref.Hash160(shapeData(n))))
					}
				case "main checksum", "test checksum":
					a := ref.Address(shapeHash(n), name[0] == 'm')
					s, err := script.NewP2PKHFromAddress(a)
					built(x, "NewP2PKHFromAddress", s, err, ref.P2PKH(shapeHash(n)))
					o, err := output.NewP2PKHFromAddress(a, 5)
					builtOut(x, "output.NewP2PKHFromAddress", o, err, ref.P2PKH(shapeHash(n)), 5)
				default:
					k := shapeKey(n)
					for _, p := range [][]byte{k.pub, k.unc} {
						s, err := script.NewP2PKHFromPubKeyBytes(p)
						built(x, "NewP2PKHFromPubKeyBytes", s, err, ref.P2PKH(ref.Hash160(p)))
						s, err = script.NewP2PKHFromPubKeyStr(hx(p))
						built(x, "NewP2PKHFromPubKeyStr", s, err, ref.P2PKH(ref.Hash160(p)))
					}
				}
			})
		})
	case "C14", "C34":
		return sc("keys with rare coordinates or hashes; hashes with rare address checksums", func(x *X) {
			name, n := shapesOf(x, "x", "y", "key hash", "main checksum", "test checksum")
			if strings.HasSuffix(name, "checksum") {
				if id == "C14" {
					codec(x, shapeHash(n))
				} else {
					agree(x, nil, shapeHash(n), true)
				}
				return
			}
			k := shapeKey(n)
			if id == "C34" {
				agree(x, k.pub, k.hash, true)
				agree(x, k.unc, ref.Hash160(k.unc), false)
				return
			}
			codec(x, k.hash)
			try(x, "address from key", func() {
				for _, main := range []bool{true, false} {
					a, err := address.NewFromPublicKey(k.priv.PubKey(), main)
					sameAddr(x, "NewFromPublicKey", a, err, ref.Address(k.hash, main), k.hash)
					for _, b := range [][]byte{k.pub, k.unc} {
						a, err = address.NewFromPublicKeyString(hx(b), main)
						sameAddr(x, "NewFromPublicKeyString", a, err, ref.Address(ref.Hash160(b), main), ref.Hash160(b))
					}
				}
			})
		})
	case "C15":
		return sc("addresses with rare checksums, and their checksum with each byte changed, zeroed, set to ff, each pair of bytes exchanged, or rotated, or the checksum of the other network, or a hash byte changed", func(x *X) {
			name, n := shapesOf(x, "main checksum", "test checksum")
			v := byte(0)
			if name[0] == 't' {
				v = 0x6f
			}
			p := append([]byte{v}, shapeHash(n)...)
			good := cat(p, ref.Sha256d(p)[:4])
			try := func(b []byte) { accept(x, ref.B58Encode(b), false) }
			accept(x, ref.B58Encode(good), true)
			for i := 21; i < 25; i++ {
				for d := 1; d < 256; d++ {
					b := cp(good)
					b[i] ^= byte(d)
					try(b)
				}
				for j := 21; j < i; j++ {
					b := cp(good)
					b[i], b[j] = b[j], b[i]
					try(b)
				}
			}
			try(cat(good[:21], good[22:], good[21:22]))
			try(cat(good[:21], ref.Rev(good[21:])))
			try(cat(good[:21], ref.Sha256d(append([]byte{v ^ 0x6f}, p[1:]...))[:4]))
			for i := 0; i < 21; i++ {
				b := cp(good)
				b[i] ^= 1
				try(b)
			}
			try(good[:24])
			try(good[:23])
			try(good[:21])
			x.Step(1050)
		})
	case "C16":
		return sc("data with rare checksums, encoded and decoded; the text with each checksum digit changed, dropped, or the checksum's leading zeros dropped", func(x *X) {
			_, n := shapesOf(x, "bip276 checksum")
			bipRound(x, "bitcoin-script", 1, 1, shapeData(n))
			s := ref.BIP276("bitcoin-script", 1, 1, shapeData(n))
			b, c := s[:len(s)-8], s[len(s)-8:]
			bipText(x, b+strings.TrimLeft(c, "0"))
			bipText(x, b+strings.TrimRight(c, "0"))
			for i := range c {
				bipText(x, b+c[:i]+c[i+1:])
				for _, d := range "0123456789abcdef" {
					if byte(d) != c[i] {
						bipText(x, b+c[:i]+string(d)+c[i+1:])
					}
				}
			}
			x.Step(130)
		})
	case "C17":
		return sc("redeem scripts with rare hashes", func(x *X) {
			_, n := shapesOf(x, "script hash")
			rs, _ := script.NewRedeemScript(2)
			try(x, "AddPublicKey", func() {
				if err := rs.AddPublicKey(xtext[0], []uint32{0, n}); err != nil {
					x.Failf("AddPublicKey", "%v", err)
				}
				if err := rs.AddPublicKey(xtext[0], []uint32{1, 0}); err != nil {
					x.Failf("AddPublicKey", "%v", err)
				}
			})
			checkRedeem(x, rs, 2, shapeRedeemKeys(n), "rare hash")
		})
	case "C19":
		return sc("templates of 2..9 transactions whose first two have a rare parent, or whose coinbase has a rare id", func(x *X) {
			name, n := shapesOf(x, "node", "txid")
			l := leafSet(2+x.Choose(8), 3)
			if name == "node" {
				p := shapePair(n)
				l[0], l[1] = p[0], p[1]
			} else {
				l[0] = ref.Sha256d(shapeTx(n).Bytes())
			}
			coinbaseTree(x, l, false)
			if name == "node" {
				var r []byte
				try(x, "BuildMerkleRootFromCoinbase", func() { r = block.BuildMerkleRootFromCoinbase(cp(l[0]), []string{hx(l[1])}) })
				if !bytes.Equal(r, ref.Sha256d(cat(l[0], l[1]))) {
					x.Failf("root", "root of two is %x", r)
				}
			}
		})
	case "C20":
		return sc("proofs of every leaf of trees of 2..9 leaves of which two, at each even position, have a rare parent, or one is rare", func(x *X) {
			name, n := shapesOf(x, "node", "txid")
			l := leafSet(2+x.Choose(8), 3)
			at := x.Choose(5) * 2
			if at+1 >= len(l) {
				x.Prune()
			}
			if name == "node" {
				p := shapePair(n)
				l[at], l[at+1] = p[0], p[1]
			} else {
				l[at] = ref.Sha256d(shapeTx(n).Bytes())
			}
			lv := ref.MerkleLevels(l)
			for i := range l {
				proof(x, hx(ref.Rev(l[i])), i, display(ref.MerklePath(lv, i)), lv[len(lv)-1][0])
			}
			x.Step(len(l))
		})
	case "C28":
		return sc("messages with rare hashes of each of the 4 kinds", func(x *X) {
			_, n := shapesOf(x, "sha256", "sha256d", "ripemd160", "hash160")
			hash4(x, shapeData(n), 8)
			hash4(x, ref.Sha256(shapeData(n)), 8)
		})
	case "C31":
		return sc("payments with rare txids, payments to keys with rare coordinates or hashes, spends with rare signatures", func(x *X) {
			name, n := shapesOf(x, "txid", "x", "y", "key hash")
			k := &keys[0]
			way := x.Choose(len(payWays))
			if name == "txid" {
				t := shapeTx(n)
				spendOne(x, libTx(t), t.Bytes(), 0, k, k, 1+way%3, way%4, way%4, 0x41, "rare txid")
				return
			}
			k = shapeKey(n)
			prev := funded(x, 2, 1, way, k, n%2 == 0, 777)
			spendOne(x, prev, prev.ToBytes(), 1, k, k, 1+way%3, way%4, int(n)%4, 0x41, "rare key")
		})
	}
	return nil
}
