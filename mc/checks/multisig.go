package checks

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/libsv/libsv/script"

	"verif/mc/engine"
	"verif/mc/ref"
)

// ---- extended keys ----------------------------------------------------------

var (
	xOnce sync.Once
	xpubs []ref.XKey // public extended keys
	xprvs []ref.XKey
	xtext []string // text of xpubs, then of xprvs
)

func xkeys() {
	xOnce.Do(func() {
		for i := 0; i < 20; i++ {
			priv := ref.Sha256([]byte(fmt.Sprintf("private key %d", i)))
			head := cat([]byte{0x04, 0x88, 0xad, 0xe4, byte(i % 5)}, pat(4, i), ref.LE(uint64(i), 4))
			chain := ref.Sha256([]byte(fmt.Sprintf("chain %d", i)))
			xprvs = append(xprvs, ref.XKey{Chain: chain, Key: append([]byte{0}, priv...), Head: head})
			ph := cp(head)
			copy(ph, []byte{0x04, 0x88, 0xb2, 0x1e})
			xpubs = append(xpubs, ref.XKey{Chain: chain, Key: ref.PubKey(priv), Head: ph})
		}
		for _, k := range xpubs {
			xtext = append(xtext, ref.B58Check(k.Raw()))
		}
		for _, k := range xprvs {
			xtext = append(xtext, ref.B58Check(k.Raw()))
		}
	})
}

func xkey(i int) ref.XKey {
	if i < len(xpubs) {
		return xpubs[i]
	}
	return xprvs[i-len(xpubs)]
}

func derive(k ref.XKey, path ...uint32) ([]byte, bool) {
	for _, p := range path {
		c, ok := k.Child(p)
		if !ok {
			return nil, false
		}
		k = c
	}
	return k.Pub(), true
}

// ---- C17: multisig redeem scripts ----------------------------------------------

// checkRedeem compares everything derived from a redeem script with the model
// (keys in any order).
func checkRedeem(x *X, rs *script.RedeemScript, m int, keys [][]byte, what string) {
	want := ref.MultisigScript(m, ref.SortedKeys(keys))
	h := ref.Hash160(want)
	for round := 0; round < 2; round++ {
		var b, hh []byte
		var a string
		try(x, "redeem script queries", func() { b, hh, a = rs.GetRedeemScript(), rs.GetRedeemScriptHash(), rs.GetAddress() })
		if !bytes.Equal(b, want) {
			x.Failf("GetRedeemScript", "%s: redeem script %s, want %s", what, short(b), short(want))
		}
		if !bytes.Equal(hh, h) {
			x.Failf("GetRedeemScriptHash", "%s: hash %x, want %x", what, hh, h)
		}
		if w := ref.B58Check(append([]byte{5}, h...)); a != w {
			x.Failf("GetAddress", "%s: address %s, want %s", what, a, w)
		}
		// overwriting what was returned must not matter to the second round
		for i := range b {
			b[i] ^= 0x5a
		}
		for i := range hh {
			hh[i] ^= 0x5a
		}
	}
	if rs.SignaturesRequired != m || len(rs.PublicKeys) != len(keys) {
		x.Failf("redeem script fields", "%s: %d of %d, want %d of %d", what, rs.SignaturesRequired, len(rs.PublicKeys), m, len(keys))
	}
	a, b := ref.SortedKeys(rs.PublicKeys), ref.SortedKeys(keys)
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			x.Failf("public keys changed", "%s: the set of public keys is no longer the one added", what)
		}
	}
	x.State(want)
}

func init() {
	paths := [][]uint32{{0, 0}, {0, 1}, {1, 0}, {7, 65535}, {0x7fffffff, 0}, {0, 0x7fffffff}, {65536, 3}}
	register(engine.Property{ID: "C17", Level: "model_checking",
		Rule:        "every history of key additions of the bound is applied and redeem script, hash and address are compared with an independent BIP32 derivation, key sorting and Base58Check; a state is a distinct redeem script",
		Assumptions: []string{baseAssumption, "m greater than the number of keys is not judged beyond its plain encoding; keys set directly are 33 or 65 bytes long; a hardened step below a private key with a leading zero byte (the dependency hdkeychain mishandles it) is left out"},
		Scenarios: []engine.Scenario{
			{Name: "threshold", Bound: "every threshold -300..300 and +-2^31, 2^32+2: accepted exactly for 2..16", Run: func(x *X) {
				xkeys()
				m := x.Choose(604) - 300
				if m > 300 {
					m = []int{-1 << 31, 1 << 31, 1<<32 + 2}[m-301]
				}
				var rs *script.RedeemScript
				var err error
				try(x, "NewRedeemScript", func() { rs, err = script.NewRedeemScript(m) })
				if (err == nil) != (m >= 2 && m <= 16) {
					x.Failf("threshold", "NewRedeemScript(%d): err = %v", m, err)
				}
				if err == nil {
					var keys [][]byte
					for i := 0; i < 16; i++ {
						k, _ := derive(xpubs[i], 0, uint32(i))
						if err := rs.AddPublicKey(xtext[i], []uint32{0, uint32(i)}); err != nil {
							x.Failf("AddPublicKey", "%v", err)
						}
						keys = append(keys, k)
						checkRedeem(x, rs, m, keys, fmt.Sprintf("%d of %d", m, i+1))
					}
				}
				x.Outcome(fmt.Sprintf("accepted %v", err == nil))
			}},
			{Name: "add-histories", Bound: "threshold 2 or 16; every sequence of 3 (thorough 4) additions of 6 extended keys (5 public, 1 private) with 3 paths or 1 of 6 refused additions; queried after every addition", Run: func(x *X) {
				xkeys()
				n := 3
				if x.Thorough {
					n = 4
				}
				m := 2 + 14*x.Choose(2)
				rs, err := script.NewRedeemScript(m)
				if err != nil {
					x.Failf("threshold", "%v", err)
				}
				var keys [][]byte
				for i := 0; i < n; i++ {
					k := x.Choose(7)
					if k == 6 {
						bad := x.Choose(6)
						path := []uint32{0, 0}
						text := xtext[0]
						switch bad {
						case 0:
							path = nil
						case 1:
							path = []uint32{1}
						case 2:
							path = []uint32{0, 1, 2}
						case 3:
							path = []uint32{0, 1 << 31} // hardened step of a public key
						case 4:
							text = text[:50] + "x" + text[51:]
							if text == xtext[0] {
								text = text[:50] + "y" + text[51:]
							}
						default:
							text = ""
						}
						var err error
						try(x, "AddPublicKey", func() { err = rs.AddPublicKey(text, path) })
						if err == nil {
							x.Failf("AddPublicKey accepts", "AddPublicKey(%q, %v) gives no error", text, path)
						}
					} else {
						xi := []int{0, 1, 2, 3, 4, 21}[k]
						p := paths[x.Choose(3)]
						pb, ok := derive(xkey(xi), p...)
						arg := append([]uint32{}, p...)
						var err error
						try(x, "AddPublicKey", func() { err = rs.AddPublicKey(xtext[xi], arg) })
						if ok != (err == nil) {
							x.Failf("AddPublicKey", "AddPublicKey(%d, %v): err %v, model %v", xi, p, err, ok)
						}
						if arg[0] != p[0] || arg[1] != p[1] {
							x.Failf("path changed", "AddPublicKey changed its path argument")
						}
						keys = append(keys, pb)
					}
					if len(keys) > 0 {
						checkRedeem(x, rs, m, keys, "after an addition")
					}
				}
				x.Outcome(fmt.Sprintf("%d keys", len(keys)))
			}},
			{Name: "full-sets", Bound: "16 keys added in order, rotated or reversed, with one of 7 refused additions (no path, paths of 1 and 3 steps, a hardened step, a changed text, no text, hardened below a public key) attempted at one of 17 places, or before every one: redeem script, hash and address after every step", Run: func(x *X) {
				xkeys()
				bad := x.Choose(7)
				at := x.Choose(18)
				ord := x.Choose(3)
				m := []int{2, 3, 16}[x.Choose(3)]
				rs, err := script.NewRedeemScript(m)
				if err != nil {
					x.Failf("threshold", "%v", err)
				}
				var ks [][]byte
				for i := 0; i <= 16; i++ {
					if i == at || at == 17 {
						c := []byte(xtext[i%20])
						c[20+i] = "23"[b2i(c[20+i] == '2')]
						text := []string{xtext[i], xtext[i], xtext[i], xtext[i], string(c), "", xtext[i]}[bad]
						path := [][]uint32{nil, {1}, {0, 1, 2}, {0, 1 << 31}, {0, 1}, {0, 1}, {1 << 31, 1}}[bad]
						try(x, "AddPublicKey", func() { err = rs.AddPublicKey(text, path) })
						if err == nil {
							x.Failf("AddPublicKey accepts", "AddPublicKey(%q, %v) gives no error", text, path)
						}
						if len(ks) > 0 {
							checkRedeem(x, rs, m, ks, fmt.Sprintf("after a refused addition to %d keys", len(ks)))
						} else if len(rs.PublicKeys) != 0 {
							x.Failf("failed addition kept", "a failed addition left %d keys", len(rs.PublicKeys))
						}
					}
					if i == 16 {
						break
					}
					k := []int{i, (i + 7) % 16, 15 - i}[ord]
					pb, _ := derive(xpubs[k], 0, uint32(k))
					try(x, "AddPublicKey", func() { err = rs.AddPublicKey(xtext[k], []uint32{0, uint32(k)}) })
					if err != nil {
						x.Failf("AddPublicKey", "key %d: %v", i, err)
					}
					ks = append(ks, pb)
					checkRedeem(x, rs, m, ks, fmt.Sprintf("%d of %d", m, len(ks)))
				}
				x.Step(16)
				x.Validated(1)
			}},
			{Name: "derivation", Bound: "20 public and 20 private extended keys x 7 paths (and for private keys hardened steps)", Run: func(x *X) {
				xkeys()
				xi := x.Choose(40)
				p := engine.Pick(x, append(append([][]uint32{}, paths...), []uint32{1 << 31, 0}, []uint32{44, 1<<31 + 5}, []uint32{1<<32 - 1, 1<<32 - 1}))
				if c, ok := xkey(xi).Child(p[0]); ok && c.Key[0] == 0 && c.Key[1] == 0 && p[1] >= 1<<31 {
					x.Prune() // hdkeychain (a dependency) drops the leading zero here
				}
				rs, _ := script.NewRedeemScript(2)
				var err error
				try(x, "AddPublicKey", func() { err = rs.AddPublicKey(xtext[xi], p) })
				pb, ok := derive(xkey(xi), p...)
				if ok != (err == nil) {
					x.Failf("derivation result", "key %d path %v: err %v, model derivable %v", xi, p, err, ok)
				}
				if ok {
					checkRedeem(x, rs, 2, [][]byte{pb}, fmt.Sprintf("key %d path %v", xi, p))
				} else if len(rs.PublicKeys) != 0 {
					x.Failf("failed addition kept", "a failed addition left %d keys", len(rs.PublicKeys))
				}
				x.Outcome(fmt.Sprintf("derivable %v", ok))
			}},
			{Name: "orders", Bound: "PublicKeys set to every permutation of 6 (thorough 7) keys and every sequence of 4 out of 7 keys (33- and 65-byte, sharing prefixes, duplicates), 2 of n", Run: func(x *X) {
				xkeys()
				pool := [][]byte{xpubs[0].Pub(), xpubs[1].Pub(), xpubs[2].Pub(), append([]byte{4}, pat(64, 1)...), append(cp(xpubs[0].Key[:32]), xpubs[0].Key[32]^1), append([]byte{3}, rep(32, 0xff)...), append([]byte{2}, rep(32, 0)...)}
				var keys [][]byte
				if x.Bool() {
					n := 6
					if x.Thorough {
						n = 7
					}
					left := append([][]byte{}, pool[:n]...)
					for len(left) > 0 {
						k := x.Choose(len(left))
						keys = append(keys, left[k])
						left = append(append([][]byte{}, left[:k]...), left[k+1:]...)
					}
				} else {
					for i := 0; i < 4; i++ {
						keys = append(keys, pool[x.Choose(7)])
					}
				}
				rs, _ := script.NewRedeemScript(2)
				for _, k := range keys {
					rs.PublicKeys = append(rs.PublicKeys, cp(k))
				}
				checkRedeem(x, rs, 2, keys, "permuted keys")
				s := script.NewFromBytes(rs.GetRedeemScript())
				if !s.IsMultisigOut() {
					x.Failf("IsMultisigOut", "the redeem script is not classified as multisig")
				}
			}},
			{Name: "sixteen", Bound: "sizes 1..40: at most 16 keys are ever accepted, in ascending, descending or rotated order", Run: func(x *X) {
				xkeys()
				rot := x.Choose(20)
				desc := x.Bool()
				rs, _ := script.NewRedeemScript(16)
				var keys [][]byte
				for i := 0; i < 40; i++ {
					j := (i + rot) % 20
					if desc {
						j = 19 - j
					}
					var err error
					try(x, "AddPublicKey", func() { err = rs.AddPublicKey(xtext[j], []uint32{0, 0}) })
					if (err == nil) != (i < 16) {
						x.Failf("seventeenth key", "adding key number %d: err = %v", i+1, err)
					}
					if err == nil {
						k, _ := derive(xpubs[j], 0, 0)
						keys = append(keys, k)
					}
					checkRedeem(x, rs, 16, keys, fmt.Sprintf("%d keys", len(keys)))
				}
			}},
		}})

	register(engine.Property{ID: "C18", Level: "model_checking",
		Rule:        "every Electrum redeem script of the bound is parsed and compared with an independent parser and BIP32 derivation; a state is a distinct script",
		Assumptions: []string{baseAssumption, "not judged: thresholds of 16, thresholds above the number of keys, fewer than 1 key, non-shortest pushes of a key, extended private keys and extended keys at depth 253 or more"},
		Scenarios: []engine.Scenario{
			{Name: "well-formed", Bound: "threshold 2..15 x keys 2..15 (keys >= threshold) x rotation of the key order(3)", Run: func(x *X) {
				xkeys()
				m, n, r := 2+x.Choose(14), 2+x.Choose(14), x.Choose(3)
				electrum(x, electrumScript(m, n, r*5, n))
			}},
			{Name: "paths", Bound: "every pair of derivation steps over {0,1,255,256,32767,32768,65535}, keys 2", Run: func(x *X) {
				xkeys()
				st := []uint16{0, 1, 255, 256, 32767, 32768, 65535}
				b := electrumScript(2, 2, 0, 2)
				off := 1 + 2 + 79
				for i := 0; i < 2; i++ {
					v := engine.Pick(x, st)
					b[off+2*i], b[off+2*i+1] = byte(v), byte(v>>8)
				}
				electrum(x, b)
			}},
			{Name: "head-tail", Bound: "first byte x second-last byte x last byte: all 256 values of each with the others correct, and pairs over 20 values; declared key counts", Run: func(x *X) {
				xkeys()
				n := x.Choose(5)
				b := electrumScript(2, n, 0, n)
				all := func(k int) byte {
					if k < 256 {
						return byte(k)
					}
					return 0
				}
				switch x.Choose(4) {
				case 0:
					b[0] = all(x.Choose(256))
				case 1:
					b[len(b)-2] = all(x.Choose(256))
				case 2:
					b[len(b)-1] = all(x.Choose(256))
				default:
					vs := []byte{0, 1, 2, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x51, 0x52, 0x53, 0x5f, 0x60, 0x61, 0x62, 0x6a, 0xac, 0xad, 0xae, 0xaf}
					b[0], b[len(b)-2] = engine.Pick(x, vs), engine.Pick(x, vs)
				}
				electrum(x, b)
			}},
			{Name: "prefixes", Bound: "every prefix and suffix of a 2-of-2 script, alone and followed by the closing opcodes", Run: func(x *X) {
				xkeys()
				b := electrumScript(2, 2, 0, 2)
				p := x.Choose(len(b) + 1)
				c := b[:p]
				if x.Bool() {
					c = b[p:]
				}
				if x.Bool() {
					c = cat(c, []byte{0x52, 0xae})
				}
				electrum(x, c)
			}},
			{Name: "byte-changes", Bound: "every position of the script outside the extended key, the key marker, the version, depth and key-type bytes, replaced by every value; every other byte of the extended key flipped in its lowest bit (thorough: replaced by 16 values)", Run: func(x *X) {
				xkeys()
				b := electrumScript(2, 2, 0, 2)
				p := x.Choose(90)
				if p <= 8 || p == 47 || p == 48 || p >= 81 {
					v := x.Choose(256)
					b[p] = byte(v)
				} else {
					n := 1
					if x.Thorough {
						n = 16
					}
					b[p] ^= byte(1 + 15*x.Choose(n))
				}
				electrum(x, b)
			}},
			{Name: "many-keys-byte-changes", Bound: "2..15 keys; one of them with one byte (push opcode, length, marker, version, depth, key type, paths) replaced by 10 values, or one byte shorter or longer", Run: func(x *X) {
				xkeys()
				n := engine.Pick(x, []int{2, 3, 5, 8, 9, 12, 15})
				b := electrumScript(2, n, 0, n)
				at := 1 + 85*x.Choose(n)
				switch p := engine.Pick(x, []int{0, 1, 2, 3, 6, 7, 48, 81, 82, 83, 84, -1, -2}); {
				case p == -1:
					b[at+1]--
					b = cat(b[:at+84], b[at+85:])
				case p == -2:
					b[at+1]++
					b = cat(b[:at+85], []byte{0}, b[at+85:])
				default:
					b[at+p] = engine.Pick(x, []byte{b[at+p] ^ 1, b[at+p] ^ 0x80, b[at+p] + 1, b[at+p] - 1, 0, 2, 0x4c, 0x51, 0xfe, 0xff})
				}
				electrum(x, b)
			}},
			{Name: "markers-inside", Bound: "1..3 keys; each of 12 byte strings with a meaning elsewhere in the script (push and marker, another key's first bytes, closing opcodes, version bytes, zeros, ff) written over each position of one of the keys' payload and path, or of two of them", Run: func(x *X) {
				xkeys()
				n := 1 + x.Choose(3)
				b := electrumScript(2, n, 0, n)
				first := cp(b[1:12])
				l := [][]byte{{0x4c, 83, 0xff}, {0x4c, 83}, {83, 0xff}, {0xff, 0x04, 0x88, 0xb2, 0x1e}, {0x52, 0xae}, {0xae}, {0x52, 0x4c, 83, 0xff}, first, {0x04, 0x88, 0xb2, 0x1e}, {0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}, {0x4c, 83, 0xff, 0x04, 0x88, 0xb2, 0x1e}}
				m := engine.Pick(x, l)
				p := 3 + x.Choose(82)
				k := x.Choose(n + 1)
				for i := 0; i < n; i++ {
					if i == k || k == n {
						copy(b[1+85*i:][p:85], m)
					}
				}
				electrum(x, b)
			}},
			{Name: "key-lengths", Bound: "a key push of every length 0..200 (all prefixes and extensions of a good one), pushed shortest, marker ff or not, first or second of two keys", Run: func(x *X) {
				xkeys()
				n := x.Choose(201)
				k := cat([]byte{0xff}, xpubs[0].Raw(), []byte{1, 0, 2, 0}, rep(120, 0))[:n]
				if n > 0 && x.Bool() {
					k[0] = 0xfe
				}
				good := cat([]byte{0x4c, 83, 0xff}, xpubs[1].Raw(), []byte{0, 0, 1, 0})
				bad := ref.Push(k)
				if x.Bool() {
					good, bad = bad, good
				}
				electrum(x, cat([]byte{0x52}, good, bad, []byte{0x52, 0xae}))
			}},
			{Name: "token-strings", Bound: "every sequence of up to 5 (thorough 6) tokens out of {OP_1, OP_2, OP_16, OP_0, CHECKMULTISIG, push of 52, push of ae, empty push, good key, key without marker, truncated PUSHDATA1}", Run: func(x *X) {
				xkeys()
				n := 5
				if x.Thorough {
					n = 6
				}
				good := cat([]byte{0x4c, 83, 0xff}, xpubs[1].Raw(), []byte{0, 0, 1, 0})
				nomark := cp(good)
				nomark[2] = 0
				toks := [][]byte{{0x51}, {0x52}, {0x60}, {0}, {0xae}, {1, 0x52}, {1, 0xae}, {0x4c, 0}, good, nomark, {0x4c}}
				var b []byte
				for i := 0; i < n; i++ {
					k := x.Choose(len(toks) + 1)
					if k == len(toks) {
						break
					}
					b = append(b, toks[k]...)
				}
				electrum(x, b)
			}},
			{Name: "short-scripts", Bound: "every script of 0..2 bytes and of 3 bytes with 16 values each; texts which are not hex", Run: func(x *X) {
				switch x.Choose(3) {
				case 0:
					a := x.Choose(256)
					electrum(x, nil)
					electrum(x, []byte{byte(a)})
					for b := 0; b < 256; b++ {
						electrum(x, []byte{byte(a), byte(b)})
					}
				case 1:
					vs := []byte{0, 1, 2, 0x4b, 0x4c, 0x4d, 0x4e, 0x50, 0x51, 0x52, 0x53, 0x5f, 0x60, 0x61, 0xae, 0xff}
					electrum(x, []byte{engine.Pick(x, vs), engine.Pick(x, vs), engine.Pick(x, vs)})
				default:
					t := []string{"5", "zz", "52ae5", "52 52 ae", "0x52ae", "G252ae"}[x.Choose(6)]
					var err error
					try(x, "NewRedeemScriptFromElectrum", func() { _, err = script.NewRedeemScriptFromElectrum(t) })
					if err == nil {
						x.Failf("accepts bad hex", "NewRedeemScriptFromElectrum(%q) gives no error", t)
					}
				}
			}},
		}})
}

func electrumScript(m, n, rot, declared int) []byte {
	b := []byte{byte(0x50 + m)}
	for i := 0; i < n; i++ {
		j := (i + rot) % 20
		b = append(b, cat([]byte{0x4c, 83, 0xff}, xpubs[j].Raw(), ref.LE(uint64(i%2), 2), ref.LE(uint64(i), 2))...)
	}
	return append(b, byte(0x50+declared), 0xae)
}

// electrum parses one script; want: 1 accept, 0 refuse, -1 not judged.
func electrum(x *X, b []byte) {
	want, m, keys := judgeElectrum(b)
	var rs *script.RedeemScript
	var err error
	if p := caught(func() { rs, err = script.NewRedeemScriptFromElectrum(hx(b)) }); p != "" {
		x.Failf("NewRedeemScriptFromElectrum panics", "NewRedeemScriptFromElectrum(%s) panics: %s", hx(b), p)
	}
	if want == 0 && err == nil {
		x.Failf("NewRedeemScriptFromElectrum accepts", "NewRedeemScriptFromElectrum(%s) gives no error", hx(b))
	}
	if want == 1 {
		if err != nil || rs == nil {
			x.Failf("NewRedeemScriptFromElectrum refuses", "NewRedeemScriptFromElectrum(%s): %v", hx(b), err)
		}
		if rs.SignaturesRequired != m || !samePartList(ref.SortedKeys(rs.PublicKeys), ref.SortedKeys(keys)) {
			x.Failf("NewRedeemScriptFromElectrum", "NewRedeemScriptFromElectrum(%s) gives %d of %x, want %d of %x", hx(b), rs.SignaturesRequired, rs.PublicKeys, m, keys)
		}
		checkRedeem(x, rs, m, keys, "parsed Electrum script")
	}
	x.State(append([]byte("e:"), b...))
	x.Outcome(fmt.Sprintf("judged %d, accepted %v", want, err == nil))
}

func judgeElectrum(b []byte) (want, m int, keys [][]byte) {
	ops, ok := ref.ParseScript(b)
	n := len(ops)
	if !ok || n < 3 || !smallInt(ops[0]) || !smallInt(ops[n-2]) || ops[n-1].Push || ops[n-1].Code != 0xae {
		return 0, 0, nil
	}
	m = int(ops[0].Code) - 0x50
	cnt := int(ops[n-2].Code) - 0x50
	if ops[0].Code == 0 || m < 2 {
		return 0, 0, nil
	}
	want = 1
	if m == 16 || m > n-3 || n-3 < 1 {
		want = -1
	}
	if cnt != n-3 && !(n == 3) {
		return 0, 0, nil
	}
	for _, o := range ops[1 : n-2] {
		if !o.Push || len(o.Data) != 83 || o.Data[0] != 0xff {
			return 0, 0, nil
		}
		k, ok := ref.ParseXKey(o.Data[1:79])
		if !ok {
			return 0, 0, nil
		}
		if k.Key[0] == 0 || k.Depth() >= 253 {
			want = -1
		}
		d := o.Data[79:]
		p, ok := derive(k, uint32(d[0])|uint32(d[1])<<8, uint32(d[2])|uint32(d[3])<<8)
		if !ok {
			return 0, 0, nil
		}
		keys = append(keys, p)
		if o.Code != 0x4c {
			want = -1
		}
	}
	return want, m, keys
}
