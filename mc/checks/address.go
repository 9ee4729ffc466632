package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/output"

	"verif/mc/engine"
	"verif/mc/ref"
)

// ---- C14: address codec -----------------------------------------------------

func codec(x *X, h []byte) {
	for _, main := range []bool{true, false} {
		want := ref.Address(h, main)
		g := mkGuard(h, 12)
		var a *address.Address
		var err error
		try(x, "NewFromPublicKeyHash", func() { a, err = address.NewFromPublicKeyHash(g.b(), main) })
		g.check(x, "NewFromPublicKeyHash")
		sameAddr(x, "NewFromPublicKeyHash", a, err, want, h)
		try(x, "NewFromString", func() { a, err = address.NewFromString(want) })
		sameAddr(x, "NewFromString", a, err, want, h)
		valid(x, want, 1)
	}
	x.State(h)
	z := 0
	for z < 20 && h[z] == 0 {
		z++
	}
	x.Outcome(fmt.Sprintf("%d leading zero bytes", z))
}

func sameAddr(x *X, what string, a *address.Address, err error, want string, h []byte) {
	if err != nil || a == nil || a.AddressString != want || !strings.EqualFold(a.PublicKeyHash, hx(h)) {
		x.Failf(what, "%s for %s (hash %x) gives %+v, %v", what, want, h, a, err)
	}
}

// valid: want 1 valid, 0 invalid, -1 unspecified.
func valid(x *X, s string, want int) {
	var ok bool
	var err error
	try(x, "ValidateAddress", func() { ok, err = address.ValidateAddress(s) })
	if want == 1 && (!ok || err != nil) {
		x.Failf("ValidateAddress refuses", "ValidateAddress(%q) = %v, %v", s, ok, err)
	}
	if want == 0 && ok {
		x.Failf("ValidateAddress accepts", "ValidateAddress(%q) = %v, %v", s, ok, err)
	}
}

// ---- C15: which address texts are accepted ------------------------------------

// accept checks every function which takes an address text.
func accept(x *X, s string, deep bool) {
	h, main, ok := ref.ParseAddress(s)
	want := b2i(ok)
	v := want
	if b, k := ref.B58Decode(s); !ok && k && len(b) == 25 && (b[0] == 5 || b[0] == 0xc4) {
		v = -1 // script addresses: ValidateAddress may or may not support them
	}
	if !strings.HasPrefix(s, "bitcoin-script:") {
		valid(x, s, v)
	}
	var a *address.Address
	var err error
	try(x, "NewFromString", func() { a, err = address.NewFromString(s) })
	if ok {
		sameAddr(x, "NewFromString", a, err, s, h)
	} else if err == nil {
		x.Failf("NewFromString accepts", "NewFromString(%q) = %+v without error", s, a)
	}
	if deep || ok {
		var sc *script.Script
		try(x, "NewP2PKHFromAddress", func() { sc, err = script.NewP2PKHFromAddress(s) })
		payee(x, "script.NewP2PKHFromAddress", s, sb(sc), err, h, ok)
		var o *output.Output
		try(x, "output.NewP2PKHFromAddress", func() { o, err = output.NewP2PKHFromAddress(s, 5) })
		var ls []byte
		if o != nil {
			ls = sb(o.LockingScript)
		}
		payee(x, "output.NewP2PKHFromAddress", s, ls, err, h, ok)
		tx := transaction.New()
		tx.AddOutput(&output.Output{Satoshis: 9, LockingScript: scr([]byte{0x51})})
		try(x, "PayTo", func() { err = tx.PayTo(s, 5) })
		ls = nil
		if ok && len(tx.Outputs) == 2 {
			ls = sb(tx.Outputs[1].LockingScript)
		}
		payee(x, "PayTo", s, ls, err, h, ok)
		if !ok && (len(tx.Outputs) != 1 || tx.Outputs[0].Satoshis != 9) {
			x.Failf("PayTo failed but changed", "PayTo(%q) failed and left %d outputs", s, len(tx.Outputs))
		}
		var c2 []byte
		try(x, "GetCoinbaseParts", func() { _, c2, err = block.GetCoinbaseParts(700000, 5, "", "t", s, nil) })
		if ok {
			ls = cat(rep(4, 0xff), []byte{1}, ref.LE(5, 8), []byte{25}, ref.P2PKH(h), rep(4, 0))
			if err != nil || !bytes.Equal(c2, ls) {
				x.Failf("GetCoinbaseParts", "GetCoinbaseParts for wallet %q: %x, %v", s, c2, err)
			}
		} else if err == nil {
			x.Failf("GetCoinbaseParts accepts", "GetCoinbaseParts pays the wallet %q without error", s)
		}
	}
	x.StateS(s)
	x.Outcome(fmt.Sprintf("valid %v main %v", ok, main))
}

func payee(x *X, what, s string, got []byte, err error, h []byte, ok bool) {
	if ok && (err != nil || !bytes.Equal(got, ref.P2PKH(h))) {
		x.Failf(what, "%s(%q) gives %x, %v", what, s, got, err)
	}
	if !ok && err == nil {
		x.Failf(what+" accepts", "%s(%q) gives no error", what, s)
	}
}

const b58chars = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func addrBases() []string {
	var r []string
	for i, h := range hashes() {
		if i < 7 {
			r = append(r, ref.Address(h, i%2 == 0))
		}
	}
	return append(r, mainAddr, testAddr, ref.Address(rep(20, 0), true), ref.Address(append(rep(19, 0), 1), false))
}

// ---- C16: BIP276 ---------------------------------------------------------------

// bipText decodes one text; only texts which differ from a canonical one by the
// case of their hex digits, or which name network or version 0, are not judged.
func bipText(x *X, s string) {
	p, n, v, d, ok := ref.ParseBIP276(s)
	unspec := false
	if !ok {
		i := strings.LastIndexByte(s, ':')
		if i >= 0 {
			p2, n2, v2, d2, _ := ref.ParseBIP276(strings.ToLower(s[:0]) + s[:i+1] + strings.ToLower(s[i+1:]))
			_ = p2
			low := s[:i+1] + strings.ToLower(s[i+1:])
			unspec = len(s) > i+12 && (s != low || n2 == 0 || v2 == 0) && ref.BIP276(s[:i], n2, v2, d2) == low
			if s != low && len(s) >= 8 { // checksum over the text as written
				body := s[i+1:]
				if len(body) >= 12 && strings.EqualFold(hx(ref.Sha256d([]byte(s[:len(s)-8]))[:4]), s[len(s)-8:]) {
					unspec = true
				}
			}
			unspec = unspec || strings.Contains(s[:i], "\n") || strings.Contains(s[:i], ":") || i == 0
		}
	}
	var gp string
	var gv, gn int
	var gd []byte
	var err error
	if m := caught(func() { gp, gv, gn, gd, err = address.DecodeBIP276(s) }); m != "" {
		x.Failf("DecodeBIP276 panics", "DecodeBIP276(%q) panics: %s", s, m)
	}
	if ok && (err != nil || gp != p || gv != v || gn != n || !bytes.Equal(gd, d)) {
		x.Failf("DecodeBIP276", "DecodeBIP276(%q) = prefix %q version %d network %d data %x err %v; want %q %d %d %x", s, gp, gv, gn, gd, err, p, v, n, d)
	}
	if !ok && !unspec && err == nil {
		x.Failf("DecodeBIP276 accepts", "DecodeBIP276(%q) = %q %d %d %x without error", s, gp, gv, gn, gd)
	}
	if strings.HasPrefix(s, "bitcoin-script:") && !unspec {
		valid(x, s, b2i(ok))
	}
	x.StateS(s)
	x.Outcome(fmt.Sprintf("valid %v unspecified %v", ok, unspec))
}

func bipRound(x *X, prefix string, network, version int, data []byte) {
	var s string
	g := mkGuard(data, 9)
	try(x, "EncodeBIP276", func() { s = address.EncodeBIP276(prefix, network, version, g.b()) })
	g.check(x, "EncodeBIP276")
	if w := ref.BIP276(prefix, network, version, data); s != w {
		x.Failf("EncodeBIP276", "EncodeBIP276(%q, %d, %d, %s) = %q, want %q", prefix, network, version, short(data), cut(s), cut(w))
	}
	bipText(x, s)
}

func init() {
	register(engine.Property{ID: "C14", Level: "model_checking",
		Rule:        "every hash / key of the bound is encoded and decoded and compared with an independent Base58Check codec; a state is a distinct hash, key or payload",
		Assumptions: []string{baseAssumption},
		Scenarios: []engine.Scenario{
			{Name: "hashes", Bound: "20-byte hashes: every (position, value) over 3 backgrounds (all 00, all ff, pattern), every count of leading zero bytes; quick: every 3rd value pair of the first two bytes, thorough: all 65536", Run: func(x *X) {
				switch x.Choose(3) {
				case 0:
					p, v := x.Choose(20), x.Choose(256)
					h := [][]byte{rep(20, 0), rep(20, 0xff), pat(20, 3)}[x.Choose(3)]
					h[p] = byte(v)
					codec(x, h)
				case 1:
					n := x.Choose(21)
					codec(x, append(rep(n, 0), pat(20-n, 1+x.Choose(50))...))
				default:
					step := 3
					if x.Thorough {
						step = 1
					}
					a := x.Choose(256)
					h := pat(20, 8)
					for b := a % step; b < 256; b += step {
						h[0], h[1] = byte(a), byte(b)
						codec(x, h)
						x.Validated(1)
					}
				}
			}},
			{Name: "public-keys", Bound: "600 (thorough 6000) key pairs: NewFromPublicKey and NewFromPublicKeyString (compressed, uncompressed, upper case) on both networks", Run: func(x *X) {
				n := 20
				if x.Thorough {
					n = 200
				}
				k := 1 + x.Choose(n)*30 + x.Choose(30)
				_, pub := bsvec.PrivKeyFromBytes(bsvec.S256(), append(pat(28, k), byte(k>>24), byte(k>>16), byte(k>>8), byte(k)))
				main := x.Bool()
				c, u := pub.SerializeCompressed(), pub.SerializeUncompressed()
				try(x, "address from key", func() {
					a, err := address.NewFromPublicKey(pub, main)
					sameAddr(x, "NewFromPublicKey", a, err, ref.Address(ref.Hash160(c), main), ref.Hash160(c))
					for _, b := range [][]byte{c, u} {
						for _, t := range []string{hx(b), strings.ToUpper(hx(b))} {
							a, err = address.NewFromPublicKeyString(t, main)
							sameAddr(x, "NewFromPublicKeyString", a, err, ref.Address(ref.Hash160(b), main), ref.Hash160(b))
						}
					}
				})
				if !bytes.Equal(pub.SerializeCompressed(), c) {
					x.Failf("key changed", "the public key was changed")
				}
				x.State(c)
			}},
			{Name: "key-text-errors", Bound: "a key text with each position replaced by each of 9 characters, and odd lengths: an error, not an address", Run: func(x *X) {
				s := []byte("026cf33373a9f3f6c676b75b543180703df225f7f8edbffedc417718a8ad4e89ce")
				if x.Bool() {
					s[x.Choose(66)] = "gz \x00\xff:-G"[x.Choose(8)]
				} else {
					s = s[:2*x.Choose(33)+1]
				}
				var err error
				try(x, "NewFromPublicKeyString", func() { _, err = address.NewFromPublicKeyString(string(s), true) })
				if err == nil {
					x.Failf("NewFromPublicKeyString accepts", "NewFromPublicKeyString(%q) gives no error", s)
				}
				x.State(s)
			}},
			{Name: "base58check", Bound: "Base58EncodeMissingChecksum of every payload of length 0..2 (thorough: also every length-3 payload), of lengths 0..120 with 0..4 leading zero bytes, and of lengths 0..150 x 12 contents", Run: func(x *X) {
				enc := func(p []byte) {
					g := mkGuard(p, 8)
					var s string
					try(x, "Base58EncodeMissingChecksum", func() { s = address.Base58EncodeMissingChecksum(g.b()) })
					g.check(x, "Base58EncodeMissingChecksum")
					if w := ref.B58Check(p); s != w {
						x.Failf("Base58EncodeMissingChecksum", "Base58EncodeMissingChecksum(%x) = %q, want %q", p, s, w)
					}
					x.State(p)
					x.Validated(1)
				}
				switch x.Choose(3) {
				case 2:
					enc(fill(x.Choose(151), x.Choose(nFills)))
					return
				case 1:
					n, z := x.Choose(121), x.Choose(5)
					if z > n {
						x.Prune()
					}
					enc(append(rep(z, 0), pat(n-z, n)...))
					return
				}
				a := byte(x.Choose(256))
				if a == 0 {
					enc(nil)
				}
				enc([]byte{a})
				for b := 0; b < 256; b++ {
					enc([]byte{a, byte(b)})
					if x.Thorough {
						for c := 0; c < 256; c++ {
							enc([]byte{a, byte(b), byte(c)})
						}
					}
				}
			}},
		}})

	register(engine.Property{ID: "C15", Level: "model_checking",
		Rule:        "every text of the bound is given to every function which takes an address and judged by an independent strict Base58Check P2PKH parser; a state is a distinct text",
		Assumptions: []string{baseAssumption, "whether ValidateAddress supports script-hash addresses (versions 05 and c4) is not judged; texts starting bitcoin-script: belong to C16"},
		Scenarios: []engine.Scenario{
			{Name: "substitutions", Bound: "11 addresses: every position replaced by every base58 character and by 15 characters outside the alphabet", Run: func(x *X) {
				s := []byte(engine.Pick(x, addrBases()))
				p := x.Choose(36)
				if p >= len(s) {
					x.Prune()
				}
				s[p] = (b58chars + "0OIl \n\t+/=\x00\x80\xff_:")[x.Choose(73)]
				accept(x, string(s), true)
			}},
			{Name: "edits", Bound: "11 addresses: every deletion, every insertion of each of 58+9 characters, every transposition of two positions, every prefix and suffix, doubled, with 1..3 ones or spaces added or ones removed", Run: func(x *X) {
				s := engine.Pick(x, addrBases())
				p := x.Choose(37)
				if p > len(s) {
					x.Prune()
				}
				switch x.Choose(6) {
				case 0:
					if p < len(s) {
						accept(x, s[:p]+s[p+1:], true)
					}
				case 1:
					c := (b58chars + "0OIl \n\x00\xff:")[x.Choose(67)]
					accept(x, s[:p]+string([]byte{c})+s[p:], true)
				case 2:
					q := x.Choose(36)
					if p < len(s) && q < len(s) {
						b := []byte(s)
						b[p], b[q] = b[q], b[p]
						accept(x, string(b), true)
					}
				case 3:
					accept(x, s[:p], true)
					accept(x, s[p:], true)
				case 4:
					accept(x, strings.Repeat("1", p)+s, true)
					accept(x, strings.TrimLeft(s, "1"), true)
					accept(x, strings.Repeat("1", p)+strings.TrimLeft(s, "1"), true)
				default:
					accept(x, strings.Repeat(" ", p)+s, true)
					accept(x, s+strings.Repeat(" ", p), true)
					accept(x, s+s[:p], true)
				}
			}},
			{Name: "two-substitutions", Bound: "2 addresses: every pair of adjacent positions replaced by every pair of base58 characters (thorough: every pair of positions)", Run: func(x *X) {
				s := []byte([]string{mainAddr, testAddr}[x.Choose(2)])
				p := x.Choose(33)
				q := p + 1
				if x.Thorough {
					q = x.Choose(34)
				}
				if q == p {
					x.Prune()
				}
				s[p] = b58chars[x.Choose(58)]
				for i := 0; i < 58; i++ {
					s[q] = b58chars[i]
					accept(x, string(s), false)
					x.Validated(1)
				}
			}},
			{Name: "payloads", Bound: "every version byte x payload lengths 0..40 x 3 patterns with a correct checksum; leading zeros 0..21", Run: func(x *X) {
				v := x.Choose(256)
				n := x.Choose(41)
				k := x.Choose(3)
				p := append([]byte{byte(v)}, [][]byte{pat(n, 1), rep(n, 0), append(rep(n/2, 0), pat(n-n/2, 2)...)}[k]...)
				accept(x, ref.B58Check(p), true)
				accept(x, ref.B58Check(p[1:]), true)
			}},
			{Name: "checksums", Bound: "7 hashes x 2 versions x every checksum differing in one or two bits, every rotation and reversal, checksums of one SHA-256, of the hash without version, zero", Run: func(x *X) {
				h := hashes()[x.Choose(7)]
				p := append([]byte{[]byte{0, 0x6f}[x.Choose(2)]}, h...)
				c := cp(ref.Sha256d(p)[:4])
				switch x.Choose(3) {
				case 0:
					a, b := x.Choose(32), x.Choose(32)
					c[a/8] ^= 1 << uint(a%8)
					if b != a {
						c[b/8] ^= 1 << uint(b%8)
					}
				case 1:
					k := x.Choose(4)
					c = append(cp(c[k:]), c[:k]...)
					if x.Bool() {
						c = ref.Rev(c)
					}
				default:
					c = [][]byte{ref.Sha256(p)[:4], ref.Sha256d(h)[:4], rep(4, 0), rep(4, 0xff), ref.Sha256d(p)[28:], ref.Hash160(p)[:4], {}, ref.Sha256d(p)[:3], ref.Sha256d(p)[:5]}[x.Choose(9)]
				}
				accept(x, ref.B58Encode(append(p, c...)), true)
			}},
			{Name: "wrapped", Bound: "texts of 30..40 characters whose value exceeds 25 bytes but agrees with an address modulo 2^200, and one-byte shifted values", Run: func(x *X) {
				h := hashes()[x.Choose(7)]
				p := append([]byte{[]byte{0, 0x6f}[x.Choose(2)]}, h...)
				p = append(p, ref.Sha256d(p)[:4]...)
				k := 1 + x.Choose(255)
				accept(x, ref.B58Encode(append([]byte{byte(k)}, p...)), true)
				accept(x, ref.B58Encode(append(p, byte(k))), true)
				accept(x, ref.B58Encode(append([]byte{byte(k), 0}, p...)), true)
			}},
			{Name: "short-texts", Bound: "every text of up to 3 characters over 12 characters (thorough 4)", Run: func(x *X) {
				n := 4
				if x.Thorough {
					n = 5
				}
				s := ""
				for i := 0; i < n; i++ {
					k := x.Choose(13)
					if k == 12 {
						break
					}
					s += string([]byte{"1mAz20O: \x00\xffn"[k]})
				}
				accept(x, s, true)
			}},
		}})

	register(engine.Property{ID: "C16", Level: "model_checking",
		Rule:        "every (prefix, network, version, data) of the bound is encoded, compared with the format and decoded back; every altered text is judged by an independent parser; a state is a distinct text",
		Assumptions: []string{baseAssumption, "not judged: texts whose hex digits are not in lower case, texts naming network or version 0 with a correct checksum, prefixes which are empty or contain ':' or a line break"},
		Scenarios: []engine.Scenario{
			{Name: "network-version", Bound: "all 255 x 255 networks and versions x prefixes {bitcoin-script, bitcoin-template} (data length 0 or 25)", Run: func(x *X) {
				n := 1 + x.Choose(255)
				k := x.Choose(4)
				for v := 1; v < 256; v++ {
					bipRound(x, []string{address.PrefixScript, address.PrefixTemplate}[k&1], n, v, pat(25*(k>>1), v))
					x.Validated(1)
				}
			}},
			{Name: "data", Bound: "data of every length 0..600 x 12 contents; every length 0..600 x 6 prefixes x networks {1,2,255} x versions {1,16,99}; every 1-byte and 2-byte data", Run: func(x *X) {
				switch x.Choose(3) {
				case 1:
					bipRound(x, address.PrefixScript, 2, 1, fill(x.Choose(601), x.Choose(nFills)))
				case 0:
					n := x.Choose(601)
					bipRound(x, []string{"bitcoin-script", "bitcoin-template", "x", "0101", "bitcoin script", "ä"}[x.Choose(6)], []int{1, 2, 255}[x.Choose(3)], []int{1, 16, 99}[x.Choose(3)], pat(n, n))
				default:
					a := byte(x.Choose(256))
					bipRound(x, "bitcoin-script", 1, 2, []byte{a})
					for b := 0; b < 256; b++ {
						bipRound(x, "bitcoin-script", 2, 1, []byte{a, byte(b)})
						x.Validated(1)
					}
				}
			}},
			{Name: "encode-range", Bound: "networks and versions over {-2^31,-256,-255,-1,0,1,255,256,257,511,65537,2^31}: out of range gives no decodable text", Run: func(x *X) {
				vals := []int{-1 << 31, -256, -255, -1, 0, 1, 255, 256, 257, 511, 65537, 1 << 31}
				n, v := engine.Pick(x, vals), engine.Pick(x, vals)
				var s string
				try(x, "EncodeBIP276", func() { s = address.EncodeBIP276("bitcoin-script", n, v, []byte{1, 2}) })
				good := n > 0 && n < 256 && v > 0 && v < 256
				if good {
					bipRound(x, "bitcoin-script", n, v, []byte{1, 2})
				} else if s != "ERROR" {
					x.Failf("EncodeBIP276 accepts", "EncodeBIP276(network %d, version %d) = %q", n, v, s)
				}
				x.Statef("%d %d", n, v)
			}},
			{Name: "substitutions", Bound: "5 texts: every position replaced by every byte value", Run: func(x *X) {
				s := []byte(engine.Pick(x, bipBases()))
				p := x.Choose(60)
				if p >= len(s) {
					x.Prune()
				}
				for c := 0; c < 256; c++ {
					t := cp(s)
					t[p] = byte(c)
					bipText(x, string(t))
					x.Validated(1)
				}
			}},
			{Name: "edits", Bound: "5 texts: every deletion of 1..4 characters, every insertion of each of 12 characters, every prefix and suffix, every transposition", Run: func(x *X) {
				s := engine.Pick(x, bipBases())
				p := x.Choose(61)
				if p > len(s) {
					x.Prune()
				}
				switch x.Choose(4) {
				case 0:
					n := 1 + x.Choose(4)
					if p+n <= len(s) {
						bipText(x, s[:p]+s[p+n:])
					}
				case 1:
					bipText(x, s[:p]+string([]byte{"0123af:A \n\x00g"[x.Choose(12)]})+s[p:])
				case 2:
					bipText(x, s[:p])
					bipText(x, s[p:])
				default:
					q := x.Choose(60)
					if p < len(s) && q < len(s) {
						b := []byte(s)
						b[p], b[q] = b[q], b[p]
						bipText(x, string(b))
					}
				}
			}},
			{Name: "short-texts", Bound: "every text of up to 5 (thorough 7) symbols out of {bitcoin-script, :, 0, 01, 0a, g, F, checksum of the text so far}", Run: func(x *X) {
				n := 5
				if x.Thorough {
					n = 7
				}
				s := ""
				for i := 0; i < n; i++ {
					k := x.Choose(9)
					if k == 8 {
						break
					}
					if k == 7 {
						s += hx(ref.Sha256d([]byte(s))[:4])
						continue
					}
					s += []string{"bitcoin-script", ":", "0", "01", "0a", "g", "F"}[k]
				}
				bipText(x, s)
			}},
		}})
}

func bipBases() []string {
	return []string{
		ref.BIP276("bitcoin-script", 1, 1, []byte("fake script")),
		ref.BIP276("bitcoin-script", 2, 1, pat(3, 1)),
		ref.BIP276("bitcoin-template", 1, 255, pat(5, 2)),
		ref.BIP276("bitcoin-script", 10, 31, nil),
		ref.BIP276("p", 200, 12, []byte{0}),
	}
}
