package checks

import (
	"bytes"
	"crypto/aes"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/output"

	"verif/mc/engine"
	"verif/mc/ref"
)

// Words are texts which mean something somewhere: to this library, to another
// interface of it, or to other software. As data they mean only themselves.

var protocolWords = []string{"litecoin-script", "litecoin", "bitcoincash", "bsv-script", "script", "bitcoin", "Bitcoin-script", "BITCOIN-SCRIPT", "bitcoin-scripts", "bitcoin-script", "bitcoin-template", "bitcoin-script:", "bitcoin:", "ERROR", "Salted__", "BIE1", "Bitcoin Signed Message:\n", "Bitcoin Signed Message:", "Bitcoin seed", "SLP\x00", "SLP", "meta", "ord", "run", "MAP", "AIP", "SET", "ADD", "DELETE", "bsv", "text/plain", "text/html", "application/json", "utf-8", "UTF-8", "19HxigV4QyBv3tHpQVcUEQyq1pzZVdoAut", "1PuQa7K62MiKCtssSLKy1kh56WWU7MtUR5", "15PciHG22SNLQJXMoSUaWVi7WSqc7hCfva", "\xef\xbb\xbf", "\xef\xbb\xbftext", "\xff\xfe", "\xfe\xff", "\x1f\x8b\x08", "%PDF-1.4", "\x89PNG\r\n\x1a\n", "GIF89a", "PK\x03\x04", "<html>", "<?xml?>", "{\"a\":1}", "[1,2]", "data:,x", "data:text/plain;base64,aGVsbG8=", "base64:aGVsbG8=", "aGVsbG8=", "hex:00ff", "0x00ff", "\\x00\\xff", "\\n", "\\u0041", "%41", "%00", "&amp;", "%%", "%d", "%v", "%!s(MISSING)", "$HOME", "${x}", "@file", "file:///x", "http://x/y?z=1&w=2#f", "a=b&c=d", "a+b", "a b", "a\tb", "a\nb", "a\r\nb", "a\x00b", " a", "a ", "\ta", "a\n", "'a'", "\"a\"", "`a`", "(a)", "[a]", "<a>", "#a", "//a", "/*a*/", "--a", "a,b", "a;b", "a|b", "a:b", "a/b", "a\\b", "../a", "~", "é", "e\u0301", "Ⅷ", "ﬁ", "\u200b", "\u202e", "日本", "😀", "\xc3", "\xc3\x28", "\xed\xa0\x80", "ı", "İ", "ß", "K"}

func wordList() []string {
	l := append([]string{""}, specialTexts...)
	l = append(append(l, protocolWords...), otherNames...)
	var names []string
	for _, n := range opName {
		if n != "" {
			names = append(names, n)
		}
	}
	for n := range opAlias {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		l = append(l, n, strings.TrimPrefix(n, "OP_"), strings.ToLower(n), n+" ", " "+n, hx([]byte(n)))
	}
	l = append(l, "OP_DUP OP_HASH160", "OP_RETURN 0a", "OP_FALSE OP_RETURN", mainAddr, testAddr, xtext[0], xtext[25], hx(keys[0].pub), hx(keys[0].hash),
		string(ref.P2PKH(keys[0].hash)), string(keys[0].pub), string(keys[0].hash), string(simpleTx(1, 1).Bytes()), hx(simpleTx(1, 1).Bytes()),
		ref.BIP276("bitcoin-script", 1, 1, ref.P2PKH(keys[0].hash)), ref.BIP276("bitcoin-script", 1, 1, nil), "5Kb8kLf9zgWQnogidDA76MzPL6TsZZY36hWXMssSzNydYXYB9KF", strings.Repeat("0", 64), strings.Repeat("f", 64),
		hx([]byte("coinbase")), "4a6f", "00", "0a", "ff", "6a", "006a", "76a914", "0100", "1e240", "123456", "0123456789abcdef", "deadbeef", "DEADBEEF")
	seen := map[string]bool{}
	u := l[:0]
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			u = append(u, s)
		}
	}
	return u
}

const wordsText = "every text of a list of 1000 which mean something somewhere (names of opcodes in five spellings, hex, numbers, escapes, URIs, markers of file formats and protocols, addresses, keys, transactions, words of other software)"

func wordScenario(id string) []engine.Scenario {
	var f func(x *X, s string)
	bound := wordsText
	switch id {
	case "C09":
		bound += " as the text or data of a push: alone, and first, second or last of three"
		f = func(x *X, s string) {
			checkPush(x, []byte(s), false)
			textPushes(x, []string{s})
			textPushes(x, []string{s, s})
			for i := 0; i < 3; i++ {
				ss := []string{"one", "OP_2", "33"}
				ss[i] = s
				textPushes(x, ss)
				var want []byte
				ps := make([][]byte, 3)
				for k, t := range ss {
					want = append(want, ref.Push([]byte(t))...)
					ps[k] = []byte(t)
				}
				a := &script.Script{0x6a}
				err := a.AppendPushDataArray(ps)
				e, err2 := script.EncodeParts(ps)
				if err != nil || err2 != nil || !bytes.Equal(*a, cat([]byte{0x6a}, want)) || !bytes.Equal(e, want) {
					x.Failf("pushing parts", "parts %q: AppendPushDataArray %s, %v, EncodeParts %s, %v, want %s", ss, short(*a), err, short(e), err2, short(want))
				}
			}
		}
	case "C10":
		bound += ", pushed or as the script itself"
		f = func(x *X, s string) {
			decodeOne(x, []byte(s))
			decodeOne(x, ref.Push([]byte(s)))
			decodeOne(x, cat([]byte{0, 0x6a}, ref.Push([]byte(s)), ref.Push([]byte(s))))
		}
	case "C11":
		bound += " as pushed data: shown as hex and read back"
		f = func(x *X, s string) {
			if s == "" {
				return
			}
			asmBoth(x, ref.Push([]byte(s)), hx([]byte(s)))
			asmBoth(x, cat([]byte{0, 0x6a}, ref.Push([]byte(s)), []byte{0x76}), "OP_FALSE OP_RETURN "+hx([]byte(s))+" OP_DUP")
		}
	case "C12":
		bound += " as a script, pushed, and behind OP_RETURN"
		f = func(x *X, s string) {
			classify(x, []byte(s), true)
			classify(x, ref.Push([]byte(s)), true)
			classify(x, cat(ref.Push([]byte(s)), []byte{0xac}), true)
			classify(x, cat([]byte{0x6a}, []byte(s)), true)
			classify(x, cat([]byte{0, 0x6a}, ref.Push([]byte(s))), true)
		}
	case "C13":
		bound += " as secret, as OP_RETURN data and as first or last of two parts"
		f = func(x *X, s string) {
			puzzle(x, s)
			b := []byte(s)
			o, err := output.NewOpReturn(b)
			builtOut(x, "NewOpReturn", o, err, cat([]byte{0, 0x6a}, ref.Push(b)), 0)
			o, err = output.NewOpReturnParts([][]byte{b, {7}})
			builtOut(x, "NewOpReturnParts", o, err, cat([]byte{0, 0x6a}, ref.Push(b), []byte{1, 7}), 0)
			o, err = output.NewOpReturnParts([][]byte{{7}, b})
			builtOut(x, "NewOpReturnParts", o, err, cat([]byte{0, 0x6a}, []byte{1, 7}, ref.Push(b)), 0)
		}
	case "C15":
		bound += ", itself and as prefix of BIP276 text (bitcoin-script aside), where an address is asked for"
		f = func(x *X, s string) {
			accept(x, s, true)
			if strings.HasPrefix(s, "bitcoin-script:") || s == "bitcoin-script" {
				return
			}
			for _, p := range []string{s, s + "-script", "bitcoin-" + s} {
				if !strings.HasPrefix(p+":", "bitcoin-script:") {
					accept(x, ref.BIP276(p, 1, 1, ref.P2PKH(keys[0].hash)), true)
				}
			}
		}
	case "C16":
		bound += " as data and (without ':' and line breaks) as prefix"
		f = func(x *X, s string) {
			bipRound(x, address.PrefixScript, 1, 2, []byte(s))
			bipRound(x, address.PrefixTemplate, 2, 1, []byte(s))
			if s != "" && !strings.ContainsAny(s, ":\n\r") {
				bipRound(x, s, 1, 1, []byte{1, 2})
				bipRound(x, s, 255, 254, nil)
			}
		}
	case "C21":
		bound += " as the coinbase text"
		f = func(x *X, s string) {
			coinbase(x, cbArgs{height: 812345, value: 625000000, text: s, wallet: mainAddr, e1: 6})
			coinbase(x, cbArgs{height: 17, value: 1, text: s, wallet: testAddr, e1: 4})
		}
	case "C25":
		bound += " as plaintext"
		c, _ := aes.NewCipher(pat(16, 3))
		f = func(x *X, s string) {
			var e, p []byte
			var err error
			try(x, "Encrypt and Decrypt", func() {
				if e, err = crypto.Encrypt(c, []byte(s)); err == nil {
					p, err = crypto.Decrypt(c, e)
				}
			})
			if err != nil || !bytes.Equal(p, []byte(s)) {
				x.Failf("round trip", "text %q came back as %q, %v", s, p, err)
			}
		}
	case "C28":
		bound += " as message"
		f = func(x *X, s string) {
			b := []byte(s)
			h := ref.Sha256(b)
			for i, w := range [][]byte{h, ref.Sha256(h), ref.Ripemd160(b), ref.Ripemd160(h)} {
				if g := []func([]byte) []byte{crypto.Sha256, crypto.Sha256d, crypto.Ripemd160, crypto.Hash160}[i](b); !bytes.Equal(g, w) {
					x.Failf("hash", "hash function %d of %q is %x, want %x", i, s, g, w)
				}
			}
		}
	case "C35":
		bound += " as the only part, or first or last of two, stored in 7 ways"
		f = func(x *X, s string) {
			if s == "" {
				return
			}
			b := []byte(s)
			for _, way := range []int{0, 2, 3, 4, 5, 6, 7} {
				carry(x, [][]byte{b}, way, way%4, way%2)
				if way == 0 {
					carry(x, [][]byte{b}, 1, len(b)%4, len(b)%2)
				}
				carry(x, [][]byte{b, {5}}, way, (way+1)%4, way%2)
				carry(x, [][]byte{{5}, b}, way, (way+2)%4, way%2)
			}
		}
	case "C01", "C02", "C04", "C08", "C30":
		j := txJudge(id)
		if j == nil {
			return nil
		}
		bound += " as one of the scripts of a transaction"
		f = func(x *X, s string) {
			for k := 0; k < 4; k++ {
				t := simpleTx(2, 2)
				switch k {
				case 0:
					t.Ins[0].Script = []byte(s)
				case 1:
					t.Ins[1].Prev = []byte(s)
				case 2:
					t.Outs[0].Script = []byte(s)
				default:
					t.Outs[1].Script = cat([]byte{0, 0x6a}, ref.Push([]byte(s)))
				}
				j(x, txCase{T: t, Idx: k & 1, Flag: 0x41, Desc: fmt.Sprintf("script %d is %q", k, s)})
			}
		}
	default:
		return nil
	}
	each := func(name, bound string, list func() []string) engine.Scenario {
		return engine.Scenario{Name: name, Bound: bound, Run: func(x *X) {
			xkeys()
			l := list()
			i := x.Choose(64)
			n := 0
			for k := i; k < len(l); k += 64 {
				f(x, l[k])
				n++
			}
			x.Step(n)
			x.Validated(n)
			x.Statef("%d", i)
		}}
	}
	l := []engine.Scenario{each("words", bound, wordList)}
	switch id {
	case "C09", "C13", "C35":
		l = append(l, each("nested-scripts", "data which is itself a script ("+contentsText+"), alone and behind OP_FALSE OP_RETURN, used as the words are", func() []string {
			var r []string
			for _, c := range scriptContents() {
				r = append(r, string(c), "\x00\x6a"+string(c))
			}
			return r
		}))
	}
	return l
}

// ---- the same opcode again and again ------------------------------------------------

func opcodeRuns(id string) []engine.Scenario {
	var f func(x *X, o byte, n int)
	switch id {
	case "C10":
		f = func(x *X, o byte, n int) {
			r := bytes.Repeat([]byte{o}, n)
			decodeOne(x, r)
			decodeOne(x, cat([]byte{2, 7, 8}, r, []byte{1, 9}))
		}
	case "C11":
		f = func(x *X, o byte, n int) {
			if o > 0 && o < 0x4f || opName[o] == "" {
				return
			}
			r, t := bytes.Repeat([]byte{o}, n), strings.TrimSpace(strings.Repeat(opName[o]+" ", n))
			asmBoth(x, r, t)
			asmBoth(x, cat([]byte{2, 7, 8}, r, []byte{0x75}), "0708 "+t+" OP_DROP")
		}
	case "C12":
		f = func(x *X, o byte, n int) {
			r := bytes.Repeat([]byte{o}, n)
			classify2(x, r)
			classify2(x, cat(r, []byte{0x51, 0xae}))
			classify2(x, cat(ref.P2PKH(keys[0].hash), r))
		}
	default:
		return nil
	}
	return []engine.Scenario{{Name: "opcode-runs", Bound: "every byte repeated 1..64 times and +-1 around the marks to 1100 (thorough 10000): " + marksText + "; alone and between others", Run: func(x *X) {
		o := byte(x.Choose(256))
		l := marks(65, tier(x, 1100, 10000), 1)
		for n := 1; n < 65; n++ {
			f(x, o, n)
		}
		for _, n := range l {
			f(x, o, n)
		}
		x.Step(len(l) + 64)
		x.Validated(len(l) + 64)
		x.Statef("%02x", o)
	}}}
}

// ---- keys which are related to one another ------------------------------------------

// relatives of d: its negation (the same x), the two other keys whose point has
// the same y, its double and half, and its neighbours.
func relatives(d *big.Int) []*big.Int {
	n := bsvec.S256().N
	lam, _ := new(big.Int).SetString("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72", 16)
	mul := func(a, b *big.Int) *big.Int { a = new(big.Int).Mul(a, b); return a.Mod(a, n) }
	half := new(big.Int).Rsh(new(big.Int).Add(n, big.NewInt(1)), 1)
	r := []*big.Int{new(big.Int).Mod(d, n), mul(d, big.NewInt(-1)), mul(d, lam), mul(d, mul(lam, lam)), mul(d, big.NewInt(2)), mul(d, half), mul(new(big.Int).Add(d, big.NewInt(1)), big.NewInt(1))}
	return append(r, mul(r[2], big.NewInt(-1)))
}

func relatedKeys(id string) []engine.Scenario {
	switch id {
	case "C34", "C13":
	case "C05", "C06":
		return []engine.Scenario{{Name: "related-keys", Serial: true, Bound: "keys 1, -1 (which shares x) and 2: every sequence of 3 signings (thorough 4) by them, each of a new transaction or the same one, whose inputs pay to them in every pattern", Run: func(x *X) {
			ks := []int{3, 5, 4}
			t := simpleTx(2, 1)
			a, b := x.Choose(3), x.Choose(3)
			t.Ins[0].Prev, t.Ins[1].Prev = ref.P2PKH(keys[ks[a]].hash), ref.P2PKH(keys[ks[b]].hash)
			same := x.Bool()
			tx := libTx(t)
			n := tier(x, 3, 4)
			d := ""
			for i := 0; i < n; i++ {
				if !same {
					t = t.Clone()
					t.Version++
					tx = libTx(t)
				}
				k := ks[x.Choose(3)]
				d += fmt.Sprint(k)
				if id == "C06" {
					autoLib(x, tx, t, []int{k}, []uint8{0x41})
				} else {
					signCheck(x, tx, t, i%2, k, 0x41, true)
				}
			}
			x.Step(n)
			x.Validated(n)
			x.Statef("%d %d %v %s", a, b, same, d)
		}}}
	default:
		return nil
	}
	return []engine.Scenario{{Name: "related-keys", Serial: true, Bound: "keys 1..30 (thorough 300) and 3 large ones, each with 7 keys related to it (the negation, which shares x; the two which share y, and a negation of these; double, half, next): every ordered pair A, B, A", Run: func(x *X) {
		n := tier(x, 30, 300)
		k := x.Choose(n + 3)
		d := big.NewInt(int64(k + 1))
		if k >= n {
			d = new(big.Int).SetBytes(pat(32, 700+k-n))
		}
		rel := relatives(d)
		i, j := x.Choose(len(rel)), x.Choose(len(rel))
		for _, m := range []int{i, j, i} {
			b := rel[m].FillBytes(make([]byte, 32))
			_, pub := bsvec.PrivKeyFromBytes(bsvec.S256(), b)
			c := pub.SerializeCompressed()
			agree(x, c, ref.Hash160(c), true)
			for _, u := range [][]byte{pub.SerializeUncompressed(), pub.SerializeHybrid()} {
				agree(x, u, ref.Hash160(u), false)
			}
		}
		x.Step(3)
		x.Validated(9)
		x.Statef("%d %d", k, rel[i])
	}}}
}

// ---- bytes with a meaning elsewhere, inside data ---------------------------------------

var innerMarkers = [][]byte{{0x76, 0xa9, 0x14}, {0x88, 0xac}, {0xa9, 0x14}, {0x87}, {0xac}, {0xae}, {0xab}, {0x6a}, {0, 0x6a}, {0x6a, 0x4c}, {0x4c}, {0x4d, 0, 0}, {0x4e, 0, 0, 0, 0}, {0x4e, 0xff, 0xff, 0xff, 0xff}, {0x52, 0xae}, {0x21, 2}, {0x41, 4}, {0x30, 0x44, 2, 0x20}, {0x41, 0x21}, {0xfd}, {0xff, 0xff, 0xff, 0xff}, {0, 0, 0, 0}, {0, 1}, {'O', 'P', '_'}, {' '}, {':'}, {'\n'}, {'%'}, {'0', 'x'}}

func innerScenario(id string) []engine.Scenario {
	var f func(x *X, d []byte)
	lens := []int{20, 33, 65, 72, 80, 255, 300}
	bound := fmt.Sprintf("data of 7 lengths with each of %d byte strings which mean something elsewhere (opcodes, templates' pieces, push prefixes, DER, length markers) over each position", len(innerMarkers))
	switch id {
	case "C09":
		f = func(x *X, d []byte) { checkPush(x, d, false); textPushes(x, []string{"a", string(d)}) }
	case "C10":
		bound += ", pushed, alone and between others, whole and cut"
		f = func(x *X, d []byte) {
			p := ref.Push(d)
			decodeOne(x, p)
			decodeOne(x, cat([]byte{0, 0x6a}, p, p, []byte{0xac}))
			decodeOne(x, p[:len(p)-1])
		}
	case "C11":
		f = func(x *X, d []byte) {
			asmBoth(x, cat([]byte{0x76}, ref.Push(d), []byte{0x88}), "OP_DUP "+hx(d)+" OP_EQUALVERIFY")
		}
	case "C12":
		bound += ", as key, hash or data of 7 templates"
		f = func(x *X, d []byte) {
			p := ref.Push(d)
			for _, b := range [][]byte{cat([]byte{0x76, 0xa9}, p, []byte{0x88, 0xac}), cat(p, []byte{0xac}), cat([]byte{0xa9}, p, []byte{0x87}), cat([]byte{0x51}, p, []byte{0x51, 0xae}), cat([]byte{0x51}, p, p, []byte{0x52, 0xae}), cat([]byte{0, 0x6a}, p), p} {
				classify(x, b, true)
			}
		}
	case "C13":
		f = func(x *X, d []byte) {
			puzzle(x, string(d))
			o, err := output.NewOpReturn(d)
			builtOut(x, "NewOpReturn", o, err, cat([]byte{0, 0x6a}, ref.Push(d)), 0)
			if len(d) == 20 {
				s, err := script.NewP2PKHFromPubKeyHashStr(hx(d))
				if err != nil || !bytes.Equal(*s, ref.P2PKH(d)) {
					x.Failf("P2PKH", "NewP2PKHFromPubKeyHashStr(%x) = %s, %v", d, short(sb(s)), err)
				}
			}
		}
	case "C14":
		lens = []int{20}
		f = func(x *X, d []byte) { codec(x, d) }
	case "C16":
		f = func(x *X, d []byte) { bipRound(x, address.PrefixScript, 1, 1, d) }
	case "C21":
		lens = []int{20, 72, 80}
		f = func(x *X, d []byte) {
			coinbase(x, cbArgs{height: 812345, value: 625000000, text: string(d), wallet: mainAddr, e1: 6})
		}
	case "C35":
		f = func(x *X, d []byte) {
			for _, way := range []int{0, 4, 6} {
				carry(x, [][]byte{d}, way, way%4, way%2)
				carry(x, [][]byte{d, {5}, d}, way, (way+1)%4, way%2)
			}
		}
	case "C01", "C02", "C04", "C08", "C30":
		j := txJudge(id)
		if j == nil {
			return nil
		}
		lens = []int{20, 72, 255}
		bound = strings.Replace(bound, "7 lengths", "3 lengths", 1) + ", as one of the scripts of a transaction, or within a txid"
		f = func(x *X, d []byte) {
			for k := 0; k < 4; k++ {
				t := simpleTx(2, 2)
				switch k {
				case 0:
					t.Ins[0].Script = cp(d)
				case 1:
					t.Ins[1].Prev = cp(d)
				case 2:
					t.Outs[0].Script = cp(d)
				default:
					t.Ins[1].TxID = cat(d, pat(32, 9))[:32]
				}
				j(x, txCase{T: t, Idx: k & 1, Flag: 0x41, Desc: fmt.Sprintf("part %d is %x", k, d)})
			}
		}
	default:
		return nil
	}
	return []engine.Scenario{{Name: "inner-markers", Bound: bound, Run: func(x *X) {
		n := engine.Pick(x, lens)
		m := engine.Pick(x, innerMarkers)
		for p := 0; p+len(m) <= n; p++ {
			d := pat(n, n)
			copy(d[p:], m)
			f(x, d)
		}
		x.Step(n)
		x.Validated(n)
		x.Statef("%d %x", n, m)
	}}}
}

// ---- C07: the same object added again -----------------------------------------------------

func sameObjects() engine.Scenario {
	return engine.Scenario{Name: "same-objects", Bound: "every sequence of 5 (thorough 7) additions out of: two input objects, two output objects, an output equal to the first, one payment to an address, one coin, each given again and again; and runs of 2..40 of one of them behind 0..3 others; observed after each", Run: func(x *X) {
		ia, ib := simpleIn(1), simpleIn(2)
		oa, ob := simpleOut(1), simpleOut(2)
		la, lb, pa, pb := libIn(&ia), libIn(&ib), libOut(&oa), libOut(&ob)
		tx, t := transaction.New(), &ref.Tx{Version: 1}
		hist := ""
		do := func(k int) {
			hist += fmt.Sprintf(" %d", k)
			try(x, "adding", func() {
				switch k {
				case 0, 1:
					l, r := la, ia
					if k == 1 {
						l, r = lb, ib
					}
					tx.AddInput(l)
					t.Ins = append(t.Ins, r)
				case 2, 3, 4:
					l, r := pa, oa
					if k == 3 {
						l, r = pb, ob
					} else if k == 4 {
						l = libOut(&oa)
					}
					tx.AddOutput(l)
					t.Outs = append(t.Outs, r)
				case 5:
					if err := tx.PayTo(mainAddr, 777); err != nil {
						x.Failf("PayTo", "%v", err)
					}
					h, _, _ := ref.ParseAddress(mainAddr)
					t.Outs = append(t.Outs, ref.Out{Sats: 777, Script: ref.P2PKH(h)})
				default:
					if err := tx.From(hx(ia.TxID), 5, "51", 9); err != nil {
						x.Failf("From", "%v", err)
					}
					t.Ins = append(t.Ins, ref.In{TxID: ia.TxID, Vout: 5, Sats: 9, Prev: []byte{0x51}, Seq: 0xffffffff})
				}
			})
			watch(x, tx, t, hist)
		}
		if x.Bool() {
			k := x.Choose(7)
			for n := x.Choose(4); n > 0; n-- {
				do((k + n) % 7)
			}
			for n := 2 + x.Choose(39); n > 0; n-- {
				do(k)
			}
		} else {
			for n := tier(x, 5, 7); n > 0; n-- {
				do(x.Choose(7))
			}
		}
		x.Step(5)
		x.Validated(1)
	}}
}
