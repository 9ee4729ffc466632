package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"unicode"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/utils"

	"verif/mc/engine"
	"verif/mc/ref"
)

// ---- texts with characters from elsewhere ----------------------------------------

// foreignSubs are what character c is replaced by: characters which share its
// low bits or its appearance, or fold to it.
func foreignSubs(c byte) []string {
	r := []string{string([]byte{c | 0x80}), string(rune(c) + 0x100), string(rune(c) + 0x200), string(rune(c) + 0x1000), string(rune(c) + 0x10000), string(rune(c) + 0x100000)}
	if c > 0x20 && c < 0x7f {
		r = append(r, string(rune(c)+0xfee0)) // full width
	}
	if c >= '0' && c <= '9' {
		r = append(r, string(rune(c-'0')+0x660), string(rune(c-'0')+0x1d7ce), string(rune(c-'0')+0x2080))
	}
	switch c {
	case 's', 'S':
		r = append(r, "\u017f")
	case 'k', 'K':
		r = append(r, "\u212a")
	case 'i', 'I':
		r = append(r, "\u0130", "\u0131")
	}
	return r
}

// foreignIns are inserted; none is part of any of the formats.
var foreignIns = []string{"\u200b", "\ufeff", "\u00a0", "\u00ad", "\u2028", "\u0301", "\u3000", "\x00", "\x01", "\t", "\n", "\v", "\f", "\r", "\r\n", "\x1b", "\x7f", " ", "_", "+", "-", "%", "\"", "'", ",", ";", "#", "\\", "/", "=", "0x", "0X", "\\x", "%00", "\xff", "\xc0", "\xed\xa0\x80"}

const foreignText = "every position with its character replaced by up to 11 others which agree with it in their low bits, look like it or fold to it (several bytes long, or the high bit set), and every one of 37 insertions (white space of every kind, invisible and control characters, signs, quotes, 0x, broken UTF-8) at every position"

// foreign runs f over every edit of good.
func foreign(x *X, good string, f func(s string)) {
	p := x.Choose(tier(x, 240, 600))
	if p > len(good) {
		x.Prune()
	}
	if p < len(good) {
		for _, c := range foreignSubs(good[p]) {
			f(good[:p] + c + good[p+1:])
			x.Step(1)
		}
	}
	for _, c := range foreignIns {
		f(good[:p] + c + good[p:])
		x.Step(1)
	}
	x.Statef("%s %d", good, p)
	x.Validated(1)
}

// refuses: the call must return an error for the text and not panic.
type refuser struct {
	name string
	good string
	call func(s string) error
}

func refusers(id string) []refuser {
	pkh := hx(pat(20, 3))
	pub := hx(keys[0].pub)
	txh := hx(bases()[1].Bytes())
	leaf, br := hx(pat(32, 1)), hx(pat(32, 2))
	sh := hx(cat(ref.P2PKH(keys[0].hash), ref.Push(pat(5, 1))))
	addr := ref.Address(pat(20, 3), true)
	switch id {
	case "C02":
		return []refuser{{"NewFromString", txh, func(s string) error { _, e := transaction.NewFromString(s); return e }}}
	case "C09":
		return []refuser{
			{"script.NewFromHexString", sh, func(s string) error { _, e := script.NewFromHexString(s); return e }},
			{"AppendPushDataHexString", sh, func(s string) error {
				sc := script.Script{0x51}
				e := sc.AppendPushDataHexString(s)
				if e != nil && (len(sc) != 1 || sc[0] != 0x51) {
					return nil // refused, but changed
				}
				return e
			}}}
	case "C10":
		return []refuser{{"DecodeStringParts", sh, func(s string) error { _, e := script.DecodeStringParts(s); return e }}}
	case "C11":
		// which white space separates is not judged
		ws := func(s string) int {
			return len([]rune(s)) - len([]rune(strings.Join(strings.FieldsFunc(s, unicode.IsSpace), "")))
		}
		var l []refuser
		for _, good := range []string{"0a0b0c0d", "OP_DUP 0a0b OP_16", "OP_CHECKMULTISIG", "OP_0 OP_RETURN 6869"} {
			good := good
			l = append(l, refuser{"NewFromASM", good, func(s string) error {
				if s != good && ws(s) != ws(good) {
					return errors.New("not judged")
				}
				_, e := script.NewFromASM(s)
				return e
			}})
		}
		return l
	case "C13":
		return []refuser{
			{"script.NewP2PKHFromPubKeyHashStr", pkh, func(s string) error { _, e := script.NewP2PKHFromPubKeyHashStr(s); return e }},
			{"output.NewP2PkhFromPubKeyHash", pkh, func(s string) error { _, e := output.NewP2PkhFromPubKeyHash(s, 5); return e }},
			{"output.NewHashPuzzle", pkh, func(s string) error { _, e := output.NewHashPuzzle("secret", s, 5); return e }},
			{"script.NewP2PKHFromPubKeyStr", pub, func(s string) error { _, e := script.NewP2PKHFromPubKeyStr(s); return e }}}
	case "C14":
		return []refuser{
			{"address.NewFromPublicKeyString", pub, func(s string) error { _, e := address.NewFromPublicKeyString(s, true); return e }},
			{"address.NewFromPublicKeyString (testnet)", pub, func(s string) error { _, e := address.NewFromPublicKeyString(s, false); return e }}}
	case "C17":
		xkeys()
		return []refuser{{"AddPublicKey", xtext[2], func(s string) error {
			rs, _ := script.NewRedeemScript(2)
			e := rs.AddPublicKey(s, []uint32{0, 1})
			if e != nil && len(rs.PublicKeys) != 0 {
				return nil
			}
			return e
		}}}
	case "C18":
		xkeys()
		return []refuser{{"NewRedeemScriptFromElectrum", hx(electrumScript(2, 2, 0, 2)), func(s string) error { _, e := script.NewRedeemScriptFromElectrum(s); return e }}}
	case "C20":
		return []refuser{
			{"MerkleRootFromBranches (leaf)", leaf, func(s string) error {
				_, e := block.MerkleRootFromBranches(s, 1, []string{br, leaf})
				return e
			}},
			{"MerkleRootFromBranches (first branch)", br, func(s string) error {
				_, e := block.MerkleRootFromBranches(leaf, 1, []string{s, leaf})
				return e
			}},
			{"MerkleRootFromBranches (last branch)", br, func(s string) error {
				_, e := block.MerkleRootFromBranches(leaf, 1, []string{leaf, s})
				return e
			}},
			{"MerkleRootFromBranches (leaf, no branch)", leaf, func(s string) error { _, e := block.MerkleRootFromBranches(s, 0, nil); return e }}}
	case "C21":
		return []refuser{
			{"GetCoinbaseParts (witness commitment)", "6a24aa21a9ed" + leaf, func(s string) error {
				_, _, e := block.GetCoinbaseParts(700000, 5, s, "/text/", addr, pat(40, 1))
				return e
			}},
			{"GetCoinbaseParts (wallet)", addr, func(s string) error {
				_, _, e := block.GetCoinbaseParts(700000, 5, "6a24aa21a9ed"+leaf, "/text/", s, nil)
				return e
			}}}
	case "C23":
		return []refuser{
			{"ExpandTargetFrom", "1d00ffff", func(s string) error { _, e := block.ExpandTargetFrom(s); return e }},
			{"ExpandTargetFromAsInt", "1b0404cb", func(s string) error { _, e := block.ExpandTargetFromAsInt(s); return e }},
			{"DifficultyFromBits", "1b0404cb", func(s string) error { _, e := block.DifficultyFromBits(s); return e }}}
	case "C29":
		return []refuser{{"Decode32Byte", leaf, func(s string) error { _, e := utils.Decode32Byte(s); return e }}}
	case "C07":
		from := func(id, sc string) error {
			tx := transaction.New()
			e := tx.From(id, 7, sc, 99)
			if e != nil && len(tx.Inputs) != 0 {
				return nil
			}
			return e
		}
		utxo := func(id, sc string) error { _, e := input.NewFromUTXO(id, 7, 99, sc, 1); return e }
		return []refuser{
			{"From (txid)", leaf, func(s string) error { return from(s, "5151") }},
			{"From (script)", sh, func(s string) error { return from(leaf, s) }},
			{"NewFromUTXO (txid)", leaf, func(s string) error { return utxo(s, "5151") }},
			{"NewFromUTXO (script)", sh, func(s string) error { return utxo(leaf, s) }},
			{"PayTo", addr, func(s string) error {
				tx := transaction.New()
				e := tx.PayTo(s, 5)
				if e != nil && len(tx.Outputs) != 0 {
					return nil
				}
				return e
			}}}
	}
	return nil
}

func foreignScenario(id string) []engine.Scenario {
	sc := func(bound string, f func(x *X)) []engine.Scenario {
		return []engine.Scenario{{Name: "foreign-characters", Bound: bound + ": " + foreignText, Run: f}}
	}
	switch id {
	case "C15":
		return sc("5 addresses", func(x *X) {
			foreign(x, addrBases()[x.Choose(5)], func(s string) { accept(x, s, true) })
		})
	case "C16":
		return sc("5 texts", func(x *X) {
			foreign(x, engine.Pick(x, bipBases()), func(s string) { bipText(x, s) })
		})
	case "C21":
	}
	l := refusers(id)
	if len(l) == 0 {
		return nil
	}
	var names []string
	for _, r := range l {
		names = append(names, r.name)
	}
	return sc("a good text of "+strings.Join(names, ", "), func(x *X) {
		r := l[x.Choose(len(l))]
		var err error
		try(x, r.name, func() { err = r.call(r.good) })
		if err != nil {
			x.Failf(r.name+" refuses", "%s(%q): %v", r.name, r.good, err)
		}
		foreign(x, r.good, func(s string) {
			var err error
			if p := caught(func() { err = r.call(s) }); p != "" {
				x.Failf(r.name+" panics", "%s(%q) panics: %s", r.name, s, p)
			}
			if err == nil {
				x.Failf(r.name+" accepts", "%s(%q) gives no error, or changed its receiver", r.name, s)
			}
		})
		x.Outcome(r.name)
	})
}

// ---- arguments which coincide ------------------------------------------------------

// otherOut adds an output which is not the payment under consideration.
const otherKinds = 9

func otherOut(x *X, tx *transaction.Transaction, kind int, k *key) ref.Out {
	var o *output.Output
	var err error
	var w ref.Out
	try(x, "another output", func() {
		switch kind {
		case 0:
			o, err = output.NewOpReturn([]byte("some data"))
			w.Script = cat([]byte{0, 0x6a}, ref.Push([]byte("some data")))
		case 1:
			o, err = output.NewOpReturnParts([][]byte{pat(76, 1), pat(2, 2)})
			w.Script = cat([]byte{0, 0x6a}, ref.Push(pat(76, 1)), ref.Push(pat(2, 2)))
		case 2:
			o, err = output.NewHashPuzzle("open", hx(k.hash), 0)
			w.Script = cat([]byte{0xa9}, ref.Push(ref.Hash160([]byte("open"))), []byte{0x88}, ref.P2PKH(k.hash))
		case 3:
			o = &output.Output{LockingScript: &script.Script{}}
		case 4:
			o, w.Sats = &output.Output{Satoshis: 5, LockingScript: scr([]byte{0x6a})}, 5
			w.Script = []byte{0x6a}
		case 5:
			w = ref.Out{Sats: 9, Script: ref.P2SH(k.hash)}
			o = libOut(&w)
		case 6: // the same payee and amount
			w = ref.Out{Sats: 4321, Script: ref.P2PKH(k.hash)}
			o = libOut(&w)
		case 7: // the payee's bare key
			w = ref.Out{Sats: 4321, Script: cat(ref.Push(k.pub), []byte{0xac})}
			o = libOut(&w)
		default:
			w = ref.Out{Sats: 1<<64 - 1, Script: ref.P2PKH(keys[2].hash)}
			err = tx.PayTo(ref.Address(keys[2].hash, false), w.Sats)
		}
		if err == nil && o != nil {
			tx.AddOutput(o)
		}
	})
	if err != nil {
		x.Failf("another output fails", "kind %d: %v", kind, err)
	}
	return w
}

// amongOutputs: the payment among outputs of other kinds.
func amongOutputs(x *X) {
	n := x.Choose(3)
	at := x.Choose(n + 1)
	k := &keys[0]
	way := x.Choose(len(payWays))
	sats := []uint64{4321, 0, 1<<64 - 1}[x.Choose(3)]
	tx := transaction.New()
	in := simpleIn(3)
	tx.AddInput(libIn(&in))
	var want []ref.Out
	var kinds []int
	for i := 0; i <= n; i++ {
		if i == at {
			payOut(x, tx, way, k, i%2 == 0, sats)
			want = append(want, ref.Out{Sats: sats, Script: ref.P2PKH(k.hash)})
			continue
		}
		kinds = append(kinds, x.Choose(otherKinds))
		want = append(want, otherOut(x, tx, kinds[len(kinds)-1], k))
	}
	what := fmt.Sprintf("%s of %d satoshis as output %d beside outputs of kinds %v", payWays[way], sats, at, kinds)
	pb := tx.ToBytes()
	p, _, ok := ref.ParseTx(pb)
	if !ok || len(p.Outs) != n+1 {
		x.Failf("paying transaction", "%s: serialises as %s", what, short(pb))
	}
	for i := range want {
		if p.Outs[i].Sats != want[i].Sats || !bytes.Equal(p.Outs[i].Script, want[i].Script) {
			x.Failf("outputs", "%s: output %d is %d to %x, want %d to %x", what, i, p.Outs[i].Sats, p.Outs[i].Script, want[i].Sats, want[i].Script)
		}
	}
	h := way + len(kinds) + at
	for _, k := range kinds {
		h += 3 * k
	}
	spendOne(x, tx, pb, at, k, k, h%4, h/2%4, h/3%4, payFlags[h%7], what)
	x.Step(n)
}

// spendShapes: the spending transaction has other fields than usual.
func spendShapes(x *X) {
	k := &keys[0]
	prev := funded(x, 2, 1, 3, k, true, 77777)
	tx := transaction.New()
	var desc []string
	nin := x.Choose(3) // another's input before or after
	extra := simpleIn(9)
	extra.Prev = ref.P2PKH(keys[1].hash)
	at := 0
	if nin == 1 {
		tx.AddInput(libIn(&extra))
		at = 1
	}
	spendOut(x, tx, prev, 1, x.Choose(2))
	if nin == 2 {
		tx.AddInput(libIn(&extra))
	}
	seq := []uint32{0xffffffff, 0, 1, 0xfffffffe, 0x80000000}[x.Choose(5)]
	tx.Inputs[at].SequenceNumber = seq
	ver := []uint32{1, 2, 0, 0xffffffff}[x.Choose(4)]
	lock := []uint32{0, 1, 500000000, 0xffffffff}[x.Choose(4)]
	tx.Version, tx.Locktime = ver, lock
	nout := x.Choose(4)
	for i := 0; i < nout; i++ {
		if i == 0 && nout == 3 {
			payOut(x, tx, int(ver+lock)%3, k, true, 1)
			continue
		}
		otherOut(x, tx, (i+nout)%otherKinds, k)
	}
	way, f := x.Choose(4), payFlags[x.Choose(7)]
	if !x.Thorough && (way+int(f)+nin+nout+int(seq%7)+int(ver%5)+int(lock%3))%3 != 0 {
		x.Prune()
	}
	desc = append(desc, fmt.Sprintf("input %d of %d, sequence %#x, version %#x, locktime %d, %d outputs, %s, flag %#x", at, len(tx.Inputs), seq, ver, lock, nout, signWays[way], f))
	tx = signWith(x, tx, way, at, k, f)
	b := tx.ToBytes()
	t, _, ok := ref.ParseTx(b)
	if !ok || len(t.Outs) != nout || t.Version != ver || t.Locktime != lock || t.Ins[at].Seq != seq {
		x.Failf("spending transaction", "%v: the spending transaction serialises as %s", desc, short(b))
	}
	coins(x, t, prev.ToBytes())
	if why := spendError(t, at); why != "" {
		x.Failf("not spendable", "%v: the owner's spend is invalid: %s", desc, why)
	}
	if nin > 0 && !bytes.Equal(t.Ins[1-at].Script, extra.Script) {
		x.Failf("other input", "%v: the other input's unlocking script changed", desc)
	}
	x.State(b)
	x.Outcome(fmt.Sprintf("%d inputs, %d outputs", len(t.Ins), nout))
}

// cbTexts are coinbase texts in which something might be special.
func cbTexts(w string) []string {
	return []string{"", " ", " x", "x ", "\tx\n", "\x00", "x\x00", "\x00x\x00y", "%s%d%n", "%", "\\x41", "\u00e9", "\ufeffx", "\u200bx\u200b", "\xff\xfe", "\xc3", "x\r\n", "\r\n", "0x41", "41", "/libsv/", "LIBSV", "ff00", "\"q\"", "'", "null", "<b>", "../..",
		strings.Repeat(" ", 84), strings.Repeat(" ", 88), strings.Repeat("\x00", 90), strings.Repeat("\u00e9", 42), strings.Repeat("\u00e9", 43), strings.Repeat("\u00e9", 44), "x" + strings.Repeat("\u00e9", 43), strings.Repeat("\U0001f600", 21), "xyz" + strings.Repeat("\U0001f600", 22), w, w + w + w, hx([]byte(w)), string(ref.P2PKH(pat(20, 3))), "ffffffff", string(rep(4, 0xff)), string(rep(4, 0)), string(pat(12, 77)), hx(pat(12, 77))}
}

func coincidences(id string) []engine.Scenario {
	sc := func(name, bound string, f func(x *X)) []engine.Scenario {
		return []engine.Scenario{{Name: name, Bound: bound, Run: func(x *X) {
			f(x)
			x.Validated(1)
		}}}
	}
	// the scripts a template can repeat, for a wallet with hash h
	parts := func(h []byte) [][]byte {
		return [][]byte{nil, cat([]byte{0x6a, 0x24, 0xaa, 0x21, 0xa9, 0xed}, pat(32, 2)), ref.P2PKH(h), {0x6a}, {0}, pat(300, 3), rep(4, 0), rep(4, 0xff), []byte("/pool/"), cat([]byte{25}, ref.P2PKH(h))}
	}
	var l []engine.Scenario
	switch id {
	case "C17", "C18":
		steps := [][2]uint32{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {256, 0}, {0, 256}, {65535, 1}}
		l = sc("repeated-keys", "every list of 1..3 keys, each out of 2 extended public keys (one the other's sibling) x 7 paths which share their first or their second step", func(x *X) {
			xkeys()
			n := 1 + x.Choose(3)
			var b []byte
			var ks [][]byte
			rs, _ := script.NewRedeemScript(2)
			b = []byte{0x52}
			for i := 0; i < n; i++ {
				j := x.Choose(2)
				p := steps[x.Choose(len(steps))]
				if id == "C18" {
					b = append(b, cat([]byte{0x4c, 83, 0xff}, xpubs[j].Raw(), ref.LE(uint64(p[0]), 2), ref.LE(uint64(p[1]), 2))...)
					continue
				}
				k, _ := derive(xpubs[j], p[0], p[1])
				var err error
				try(x, "AddPublicKey", func() { err = rs.AddPublicKey(xtext[j], []uint32{p[0], p[1]}) })
				if err != nil {
					x.Failf("AddPublicKey", "AddPublicKey(%d, %v): %v", j, p, err)
				}
				ks = append(ks, k)
				checkRedeem(x, rs, 2, ks, fmt.Sprintf("after %d additions", i+1))
			}
			if id == "C18" {
				electrum(x, append(b, byte(0x50+n), 0xae))
			}
			x.Outcome(fmt.Sprintf("%d keys", n))
		})
	case "C21":
		l = sc("coincidences", "47 texts (white space at either end, NUL, format verbs, hex, several bytes per character cut at the limit, the wallet, the nonces, the markers) x witness commitment and miner id each out of 10 (equal to each other, to the wallet's script, to the text) x 3 heights x split of the nonces (quick: split follows)", func(x *X) {
			h := pat(20, 3)
			w := ref.Address(h, true)
			ts, ps := cbTexts(w), parts(h)
			ti, wi, mi := x.Choose(len(ts)), x.Choose(len(ps)), x.Choose(len(ps))
			a := cbArgs{height: []uint32{16, 700000, 0xffffffff}[x.Choose(3)], value: 5, text: ts[ti], wallet: w, witness: ps[wi], miner: ps[mi], e1: (ti + wi + mi) % 13}
			if x.Thorough {
				a.e1 = x.Choose(13)
			}
			coinbase(x, a)
		})
	case "C33":
		l = sc("coincidences", "47 texts (white space at either end, NUL, format verbs, hex, several bytes per character, the wallet, the nonces, the markers) x witness commitment and miner id each out of 10 (equal to each other, to the wallet's script, to the text), 0..3 transactions", func(x *X) {
			k := &keys[x.Choose(2)]
			ts, ps := cbTexts(ref.Address(k.hash, true)), parts(k.hash)
			ti, wi, mi := x.Choose(len(ts)), x.Choose(len(ps)), x.Choose(len(ps))
			if !x.Thorough && (ti+wi+mi)%3 != 0 && (ti > 0 || wi != mi) {
				x.Prune()
			}
			c := blockCase{txs: (ti + mi) % 4, height: 700000 + uint32(ti), value: 625000000, text: ts[ti], main: true, witness: ps[wi], miner: ps[mi], e1: (ti + wi) % 13, bits: 0x1d00ffff, version: 1}
			if k == &keys[1] {
				c.wallet = 1
			}
			mine(x, c)
		})
	case "C22":
		l = sc("coincidences", "previous hash, root, time, bits and nonce each out of 4 values, equal to each other (and to their reversals), x 4 versions; time, bits and nonce slices of one buffer", func(x *X) {
			hs := [][]byte{pat(32, 1), ref.Rev(pat(32, 1)), rep(32, 0), cat(pat(16, 1), ref.Rev(pat(16, 1)))}
			fs := [][]byte{pat(4, 1), ref.Rev(pat(4, 1)), rep(4, 0), ref.LE(1, 4)}
			v := engine.Pick(x, []uint32{1, 0, 0x01000000, uint32(ref.GetLE(pat(4, 1)))})
			header(x, v, engine.Pick(x, hs), engine.Pick(x, hs), [3][]byte{engine.Pick(x, fs), engine.Pick(x, fs), engine.Pick(x, fs)}, x.Bool(), 8)
		})
	case "C31":
		l = append(sc("other-outputs", "0..2 other outputs, each of 9 kinds (data, hash puzzle, empty, bare OP_RETURN, script hash, the same payment, the payee's bare key, another payment), around the payment at every position x 12 ways of paying x 3 amounts", amongOutputs),
			sc("spend-shapes", "another party's input before, after or none x sequence(5) x version(4) x locktime(4) x 0..3 outputs of changing kinds x 4 ways of signing x 7 flags x 2 ways of adding the input (quick: a third)", spendShapes)...)
		l = append(l, spaceScenarios(2, spendAll)...)
	}
	return append(l, foreignScenario(id)...)
}
