package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction/output"

	"verif/mc/engine"
	"verif/mc/ref"
)

// tri: 1 must be true, 0 must be false, -1 unspecified
type verdicts struct {
	p2pkh, p2sh, p2pk, data, multisig int
	pkh                               []byte // exact result required
	pkhErr                            bool   // error required
}

func tri(b bool) int { return b2i(b) }

func isKey(d []byte) bool {
	return len(d) == 33 && (d[0] == 2 || d[0] == 3) || len(d) == 65 && (d[0] == 4 || d[0] == 6 || d[0] == 7)
}

func smallInt(o ref.Op) bool { return !o.Push && (o.Code == 0 || o.Code >= 0x51 && o.Code <= 0x60) }

func judge(b []byte) verdicts {
	v := verdicts{p2pkh: tri(ref.IsP2PKH(b)), p2sh: tri(ref.IsP2SH(b))}
	v.data = tri(len(b) > 0 && b[0] == 0x6a || len(b) > 1 && b[0] == 0 && b[1] == 0x6a)
	ops, ok := ref.ParseScript(b)
	if ok {
		if len(ops) == 2 && ops[0].Push && isKey(ops[0].Data) && !ops[1].Push && ops[1].Code == 0xac {
			v.p2pk = 1
			if !bytes.Equal(b, cat(ref.Push(ops[0].Data), []byte{0xac})) {
				v.p2pk = -1 // non-shortest push of the key
			}
		}
		n := len(ops)
		if n >= 3 && smallInt(ops[0]) && smallInt(ops[n-2]) && !ops[n-1].Push && ops[n-1].Code == 0xae {
			v.multisig = -1
			good := true
			for _, o := range ops[1 : n-2] {
				good = good && o.Push && len(o.Data) > 0
				if o.Push && len(o.Data) == 0 {
					v.multisig = 0 // a key is never empty
				}
			}
			m, k := int(ops[0].Code)-0x50, int(ops[n-2].Code)-0x50
			if good && n > 3 && k == n-3 && m >= 1 && m <= k {
				v.multisig = 1
			}
		}
	}
	switch {
	case ref.IsP2PKH(b):
		v.pkh = b[3:23]
	case len(b) < 2 || b[0] != 0x76 || b[1] != 0xa9:
		v.pkhErr = true
	}
	return v
}

// classify evaluates every predicate on one script.
func classify(x *X, b []byte, log bool) {
	s := script.Script(b)
	v := judge(b)
	test := func(name string, want int, f func() bool) {
		var g bool
		if p := caught(func() { g = f() }); p != "" {
			x.Failf(name+" panics", "%s panics on %s (capacity %d): %s", name, short(b), cap(b), p)
		}
		if want >= 0 && g != (want == 1) {
			x.Failf(fmt.Sprintf("%s is %v", name, g), "%s is %v for %s", name, g, short(b))
		}
	}
	test("IsP2PKH", v.p2pkh, s.IsP2PKH)
	test("IsP2SH", v.p2sh, s.IsP2SH)
	test("IsP2PK", v.p2pk, s.IsP2PK)
	test("IsData", v.data, s.IsData)
	test("IsMultisigOut", v.multisig, s.IsMultisigOut)
	var h []byte
	var err error
	if p := caught(func() { h, err = s.GetPublicKeyHash() }); p != "" {
		x.Failf("GetPublicKeyHash panics", "GetPublicKeyHash panics on %s (capacity %d): %s", short(b), cap(b), p)
	}
	if v.pkh != nil && (err != nil || !bytes.Equal(h, v.pkh)) {
		x.Failf("GetPublicKeyHash", "GetPublicKeyHash(%s) = %x, %v", short(b), h, err)
	}
	if v.pkhErr && err == nil {
		x.Failf("GetPublicKeyHash accepts", "GetPublicKeyHash(%s) = %x without error", short(b), h)
	}
	if log {
		x.Outcome(fmt.Sprintf("p2pkh %d p2sh %d p2pk %d data %d multisig %d pkh %v/%v", v.p2pkh, v.p2sh, v.p2pk, v.data, v.multisig, v.pkh != nil, v.pkhErr))
	}
}

// classify2 uses an exact and an over-long backing array.
func classify2(x *X, b []byte) {
	classify(x, exact(b), true)
	g := mkGuard(b, 40)
	classify(x, g.b(), false)
	// the spare capacity continues the script plausibly
	full := cat(b, []byte{0x6a, 0x88, 0xac, 0xae, 0x87})
	classify(x, full[:len(b)], false)
	g.check(x, "classifier")
	x.State(b)
}

func templates() [][]byte {
	k33 := append([]byte{2}, pat(32, 1)...)
	k33b := append([]byte{3}, pat(32, 2)...)
	k65 := append([]byte{4}, pat(64, 3)...)
	return [][]byte{
		ref.P2PKH(pat(20, 1)), ref.P2SH(pat(20, 2)),
		cat(ref.Push(k33), []byte{0xac}), cat(ref.Push(k65), []byte{0xac}),
		ref.MultisigScript(1, [][]byte{k33}), ref.MultisigScript(2, [][]byte{k33, k33b}), ref.MultisigScript(2, [][]byte{k33, k65, k33b}),
		cat([]byte{0x6a}, ref.Push(pat(5, 3))), cat([]byte{0, 0x6a}, ref.Push(pat(5, 3))), {0x6a}, {0, 0x6a},
		{0x52, 1, 0x11, 1, 0x22, 1, 0x33, 0x53, 0xae},
		cat(ref.Push(append([]byte{6}, pat(64, 4)...)), []byte{0xac}), cat(ref.Push(append([]byte{7}, pat(64, 4)...)), []byte{0xac}),
		ref.P2PKH(rep(20, 0xac)), ref.P2SH(rep(20, 0x87)),
	}
}

func init() {
	register(engine.Property{ID: "C12", Level: "model_checking",
		Rule:        "every script of the bound is classified and compared with template definitions over an independent parser; a state is a distinct script",
		Assumptions: []string{baseAssumption, "unspecified: P2PK whose key is pushed with a longer-than-needed prefix; multisig-shaped scripts with m=0, m>n, a wrong key count or opcodes among the keys; GetPublicKeyHash on scripts starting DUP HASH160 which are not P2PKH (no panic is still required)"},
		Scenarios: []engine.Scenario{
			{Name: "all-short", Bound: "every byte string of length 0..3 (length 0..2 also with plausible bytes beyond the length)", Run: func(x *X) {
				a := x.Choose(256)
				if a == 0 {
					classify2(x, nil)
					classify2(x, []byte{})
				}
				classify2(x, []byte{byte(a)})
				var buf [3]byte
				buf[0] = byte(a)
				for b := 0; b < 256; b++ {
					buf[1] = byte(b)
					classify2(x, buf[:2:2])
					for c := 0; c < 256; c++ {
						buf[2] = byte(c)
						classify(x, buf[:3:3], false)
					}
				}
				x.Step(65792)
				x.Distinct(65536)
				x.Validated(65792)
			}},
			{Name: "template-substitution", Bound: "16 templates, every position, every byte value", Run: func(x *X) {
				t := engine.Pick(x, templates())
				p := x.Choose(210)
				if p >= len(t) {
					x.Prune()
				}
				for v := 0; v < 256; v++ {
					m := cp(t)
					m[p] = byte(v)
					classify2(x, m)
				}
				x.Step(256)
				x.Validated(255)
			}},
			{Name: "template-edits", Bound: "16 templates: every prefix, every suffix, every deletion, every insertion of 16 bytes at every position, every template pair concatenated", Run: func(x *X) {
				t := engine.Pick(x, templates())
				p := x.Choose(210)
				if p > len(t) {
					x.Prune()
				}
				classify2(x, t[:p])
				classify2(x, t[p:])
				if p < len(t) {
					classify2(x, cat(t[:p], t[p+1:]))
				}
				for _, v := range []byte{0, 1, 0x14, 0x4c, 0x4d, 0x4e, 0x4f, 0x51, 0x60, 0x61, 0x6a, 0x76, 0x87, 0x88, 0xac, 0xae} {
					classify2(x, cat(t[:p], []byte{v}, t[p:]))
				}
				if p < len(templates()) {
					classify2(x, cat(t, templates()[p]))
				}
				x.Step(20)
				x.Validated(19)
			}},
			{Name: "two-substitutions", Bound: "P2PKH, P2SH, P2PK (33 byte) and 1-byte-key multisig templates: every pair of positions over 9 byte values", Run: func(x *X) {
				t := [][]byte{ref.P2PKH(pat(20, 1)), ref.P2SH(pat(20, 2)), cat(ref.Push(append([]byte{2}, pat(32, 1)...)), []byte{0xac}), {0x52, 1, 0x11, 1, 0x22, 1, 0x33, 0x53, 0xae}}[x.Choose(4)]
				p, q := x.Choose(35), x.Choose(35)
				if p >= q || q >= len(t) {
					x.Prune()
				}
				vs := []byte{0, 1, 0x14, 0x21, 0x4c, 0x51, 0x87, 0xac, 0xae}
				for _, v := range vs {
					for _, w := range vs {
						m := cp(t)
						m[p], m[q] = v, w
						classify2(x, m)
					}
				}
				x.Step(81)
				x.Validated(80)
			}},
			{Name: "token-strings", Bound: "every sequence of up to 5 (thorough 6) tokens out of 17 (small ints, signature opcodes, pushes whose data are opcodes, keys, empty and cut pushes)", Run: func(x *X) {
				k33 := append([]byte{2}, pat(32, 1)...)
				toks := [][]byte{{0x51}, {0x52}, {0}, {0x60}, {0xae}, {0xac}, {1, 0xae}, {1, 0xac}, {1, 0x51}, {1, 0x52}, ref.Push(k33), {0x4c, 0}, {0x4c, 1, 0x52}, {0x6a}, {0x76}, {0xa9}, {0x4d}}
				n := 5
				if x.Thorough {
					n = 6
				}
				var b []byte
				for i := 0; i < n; i++ {
					c := x.Choose(len(toks) + 1)
					if c == len(toks) {
						break
					}
					b = append(b, toks[c]...)
				}
				classify(x, exact(b), true)
				x.State(b)
			}},
			{Name: "multisig-keys", Bound: "n 1..16 (m = 1 and n): every key position holding an empty push in each of its three forms, a 1-byte key, a 33- or 65-byte key", Run: func(x *X) {
				k33 := ref.Push(append([]byte{2}, pat(32, 1)...))
				n := 1 + x.Choose(16)
				m := 1 + x.Choose(2)*(n-1)
				p := x.Choose(16)
				if p >= n {
					x.Prune()
				}
				odd := engine.Pick(x, [][]byte{{0x4c, 0}, {0x4d, 0, 0}, {0x4e, 0, 0, 0, 0}, {1, 0}, {1, 0xae}, k33, ref.Push(append([]byte{4}, pat(64, 1)...))})
				b := cat([]byte{byte(0x50 + m)}, bytes.Repeat(k33, p), odd, bytes.Repeat(k33, n-1-p), []byte{byte(0x50 + n), 0xae})
				classify2(x, b)
			}},
			{Name: "multisig-shapes", Bound: "m 0..17 x n 0..17 x key count 0..17 with 33-, 65- and 1-byte keys", Run: func(x *X) {
				m, n, k := x.Choose(18), x.Choose(18), x.Choose(18)
				var key []byte
				switch x.Choose(3) {
				case 0:
					key = ref.Push(append([]byte{2}, pat(32, 1)...))
				case 1:
					key = ref.Push(append([]byte{4}, pat(64, 1)...))
				case 2:
					key = []byte{1, 0xae}
				}
				op := func(v int) byte {
					if v == 0 {
						return 0
					}
					return byte(0x50 + v)
				}
				classify2(x, cat([]byte{op(m)}, bytes.Repeat(key, k), []byte{op(n), 0xae}))
			}},
			{Name: "key-shapes", Bound: "P2PK with every first key byte 0..255 x key length 1..80 x 5 final bytes", Run: func(x *X) {
				v := x.Choose(256)
				n := 1 + x.Choose(80)
				for _, c := range []byte{0xac, 0xad, 0xae, 0xab, 0} {
					classify2(x, cat(ref.Push(append([]byte{byte(v)}, pat(n-1, 4)...)), []byte{c}))
				}
				x.Step(5)
				x.Validated(4)
			}},
			{Name: "long-data", Bound: "data scripts of every length 0..600 and 65535..65540, each prefix form", Run: func(x *X) {
				n := engine.Pick(x, lensAround(600, 3, 65537))
				for _, p := range [][]byte{{0x6a}, {0, 0x6a}, {0x51, 0x6a}, {0, 0, 0x6a}, {1, 0x6a}, {0x4c, 0, 0x6a}} {
					classify2(x, cat(p, pat(n, 2)))
					classify2(x, cat(p, ref.Push(pat(n, 2))))
				}
				x.Validated(11)
			}},
			{Name: "nil-script", Bound: "GetPublicKeyHash on a nil script", Run: func(x *X) {
				var s *script.Script
				var err error
				if p := caught(func() { _, err = s.GetPublicKeyHash() }); p != "" || err == nil {
					x.Failf("nil script", "panic %q, err %v", p, err)
				}
				x.StateS("nil")
			}},
		}})

	register(engine.Property{ID: "C13", Level: "model_checking",
		Rule:        "every builder is run over all listed arguments and the script compared with its template; a state is a distinct built script",
		Assumptions: []string{baseAssumption},
		Scenarios: []engine.Scenario{
			{Name: "p2pkh-from-key", Bound: "public keys of every length 0..200 with each byte pattern of 8; hex forms in both cases; 7 kinds of bad hex", Run: func(x *X) {
				n := x.Choose(201)
				d := [][]byte{pat(n, 1), rep(n, 0), rep(n, 0xff), append([]byte{2}, pat(n, 2)...), append([]byte{3}, pat(n, 3)...), append([]byte{4}, pat(n, 4)...), pat(n, 5), pat(n, 6)}[x.Choose(8)]
				want := ref.P2PKH(ref.Hash160(d))
				g := mkGuard(d, 16)
				try(x, "P2PKH from key", func() {
					s, err := script.NewP2PKHFromPubKeyBytes(g.b())
					built(x, "NewP2PKHFromPubKeyBytes", s, err, want)
					s, err = script.NewP2PKHFromPubKeyStr(hx(d))
					built(x, "NewP2PKHFromPubKeyStr", s, err, want)
					s, err = script.NewP2PKHFromPubKeyStr(strings.ToUpper(hx(d)))
					built(x, "NewP2PKHFromPubKeyStr upper case", s, err, want)
					for _, bad := range []string{hx(d) + "0", hx(d) + "zz", "g" + hx(d), " " + hx(d), "0x" + hx(d), hx(d) + "\n", hx(d) + "0g"} {
						if s, err := script.NewP2PKHFromPubKeyStr(bad); err == nil {
							x.Failf("bad hex accepted", "NewP2PKHFromPubKeyStr(%q) = %v", bad, s)
						}
					}
				})
				g.check(x, "NewP2PKHFromPubKeyBytes")
				x.State(want)
			}},
			{Name: "p2pkh-from-hash", Bound: "hashes of every length 0..300 (only 20 bytes accepted), 9 patterns of 20 bytes, amounts(8)", Run: func(x *X) {
				n := x.Choose(301)
				pk := x.Choose(9)
				if n != 20 && pk > 1 {
					x.Prune()
				}
				d := [][]byte{pat(n, 1), rep(n, 0), rep(n, 0xff), rep(n, 0x76), rep(n, 0xac), rep(n, 0x14), pat(n, 7), pat(n, 8), pat(n, 9)}[pk]
				sats := engine.Pick(x, u64s)
				want := ref.P2PKH(d)
				for _, h := range []string{hx(d), strings.ToUpper(hx(d))} {
					var s *script.Script
					var o *output.Output
					var e1, e2 error
					try(x, "P2PKH from hash", func() {
						s, e1 = script.NewP2PKHFromPubKeyHashStr(h)
						o, e2 = output.NewP2PkhFromPubKeyHash(h, sats)
					})
					if n != 20 {
						if e1 == nil || e2 == nil {
							x.Failf("hash length accepted", "a %d-byte public key hash is accepted (script err %v, output err %v)", n, e1, e2)
						}
						continue
					}
					built(x, "NewP2PKHFromPubKeyHashStr", s, e1, want)
					builtOut(x, "NewP2PkhFromPubKeyHash", o, e2, want, sats)
				}
				x.Statef("%x %d", d, sats)
				x.Outcome(fmt.Sprintf("accepted %v", n == 20))
			}},
			{Name: "p2pkh-bad-hash", Bound: "a 20-byte hash with every character replaced by each of 8 others, one character more or less", Run: func(x *X) {
				h := []byte(hx(pat(20, 3)))
				p := x.Choose(42)
				var bad []string
				switch p {
				case 40:
					bad = []string{string(h[:39]), string(h[1:])}
				case 41:
					bad = []string{string(h) + "0", "0" + string(h)}
				default:
					for _, c := range []byte{'g', 'z', ' ', '-', '.', 0, 0xff, 'G'} {
						m := cp(h)
						m[p] = c
						bad = append(bad, string(m))
					}
				}
				for _, b := range bad {
					var e1, e2, e3 error
					try(x, "bad hash", func() {
						_, e1 = script.NewP2PKHFromPubKeyHashStr(b)
						_, e2 = output.NewP2PkhFromPubKeyHash(b, 1)
						_, e3 = output.NewHashPuzzle("s", b, 1)
					})
					if e1 == nil || e2 == nil || e3 == nil {
						x.Failf("bad hash accepted", "%q: script err %v, output err %v, puzzle err %v", b, e1, e2, e3)
					}
					x.StateS(b)
				}
			}},
			{Name: "p2pkh-from-address", Bound: "11 hashes x both networks x amounts(8)", Run: func(x *X) {
				h := engine.Pick(x, hashes())
				main := x.Bool()
				sats := engine.Pick(x, u64s)
				a := ref.Address(h, main)
				try(x, "P2PKH from address", func() {
					s, err := script.NewP2PKHFromAddress(a)
					built(x, "NewP2PKHFromAddress", s, err, ref.P2PKH(h))
					o, err := output.NewP2PKHFromAddress(a, sats)
					builtOut(x, "output.NewP2PKHFromAddress", o, err, ref.P2PKH(h), sats)
				})
				x.Statef("%s %d", a, sats)
			}},
			{Name: "hash-puzzle", Bound: "secrets of every length 0..600 x 12 contents x 2 hashes, of every length 0..300 x 11 hashes x 8 amounts", Run: func(x *X) {
				var sec, h []byte
				sats := uint64(7)
				if x.Bool() {
					sec, h = fill(x.Choose(601), x.Choose(nFills)), hashes()[x.Choose(2)]
				} else {
					sec, h, sats = pat(x.Choose(301), 4), engine.Pick(x, hashes()), engine.Pick(x, u64s)
				}
				want := cat([]byte{0xa9}, ref.Push(ref.Hash160(sec)), []byte{0x88}, ref.P2PKH(h))
				try(x, "hash puzzle", func() {
					o, err := output.NewHashPuzzle(string(sec), hx(h), sats)
					builtOut(x, "NewHashPuzzle", o, err, want, sats)
				})
				x.State(want)
			}},
			{Name: "op-return", Bound: "data of every length 0..700 and 65500..65600 (thorough 0..70000); every length 0..600 x 12 contents", Run: func(x *X) {
				lens := lensAround(700, 50, 65550)
				if x.Thorough {
					lens = lensAround(70000, 1, 1<<17, 1<<20)
				}
				var d []byte
				if x.Bool() {
					d = pat(engine.Pick(x, lens), 3)
				} else {
					d = fill(x.Choose(601), x.Choose(nFills))
				}
				g := mkGuard(d, 16)
				want := cat([]byte{0, 0x6a}, ref.Push(d))
				try(x, "OP_RETURN", func() {
					o, err := output.NewOpReturn(g.b())
					builtOut(x, "NewOpReturn", o, err, want, 0)
					g.check(x, "NewOpReturn")
					// later changes of the caller's data do not reach the output
					for i := range g.full {
						g.full[i] ^= 0xff
					}
					if !bytes.Equal(*o.LockingScript, want) {
						x.Failf("NewOpReturn aliases", "changing the data afterwards changes the script")
					}
				})
				x.State(d)
				x.Outcome(fmt.Sprintf("prefix %d bytes", len(ref.Push(d))-len(d)))
			}},
			{Name: "op-return-many-parts", Bound: "1..600 and 3000 parts of each of 5 lengths x 4 contents", Run: func(x *X) {
				n := 1 + x.Choose(601)
				if n > 600 {
					n = 3000
				}
				l, k := []int{0, 1, 20, 75, 76}[x.Choose(5)], x.Choose(4)
				var parts [][]byte
				want := []byte{0, 0x6a}
				for i := 0; i < n; i++ {
					parts = append(parts, fill(l, k))
					want = append(want, ref.Push(fill(l, k))...)
				}
				try(x, "OP_RETURN parts", func() {
					o, err := output.NewOpReturnParts(parts)
					builtOut(x, "NewOpReturnParts", o, err, want, 0)
				})
				x.Statef("%d %d %d", n, l, k)
				x.Outcome(fmt.Sprintf("part length %d", l))
			}},
			{Name: "op-return-parts", Bound: "every list of 0..4 parts with lengths in {0,1,75,76,255,256,65536 (at most one)}", Run: func(x *X) {
				n := x.Choose(5)
				var parts [][]byte
				want := []byte{0, 0x6a}
				big := 0
				for i := 0; i < n; i++ {
					l := []int{0, 1, 75, 76, 255, 256, 65536}[x.Choose(7)]
					if l > 60000 {
						big++
					}
					if big > 1 {
						x.Prune()
					}
					parts = append(parts, pat(l, i))
					want = append(want, ref.Push(pat(l, i))...)
				}
				try(x, "OP_RETURN parts", func() {
					o, err := output.NewOpReturnParts(parts)
					builtOut(x, "NewOpReturnParts", o, err, want, 0)
				})
				x.Statef("%v", lensOf(parts))
			}},
		}})
}

func hashes() [][]byte {
	return [][]byte{pat(20, 1), rep(20, 0), rep(20, 0xff), append(rep(1, 0), pat(19, 2)...), append(rep(3, 0), pat(17, 3)...), append(rep(19, 0), 1), append([]byte{1}, rep(19, 0)...), pat(20, 4), rep(20, 0x76), pat(20, 5), append([]byte{0x80}, rep(19, 0)...)}
}

func built(x *X, what string, s *script.Script, err error, want []byte) {
	if err != nil || s == nil || !bytes.Equal(*s, want) {
		x.Failf(what, "%s gives %s, %v; want %s", what, short(sb(s)), err, short(want))
	}
}

func builtOut(x *X, what string, o *output.Output, err error, want []byte, sats uint64) {
	if err != nil || o == nil || o.Satoshis != sats || !bytes.Equal(sb(o.LockingScript), want) {
		var g []byte
		if o != nil {
			g = sb(o.LockingScript)
		}
		x.Failf(what, "%s (%d satoshis) gives %s, %v; want %s", what, sats, short(g), err, short(want))
	}
}

var _ = address.NewFromString
