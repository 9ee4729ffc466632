package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"sync"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	"verif/mc/engine"
	"verif/mc/ref"
)

// ---- one judge per property over any transaction ------------------------------------

// txJudge returns what the property asks of every transaction.
func txJudge(id string) func(x *X, c txCase) {
	switch id {
	case "C01":
		return func(x *X, c txCase) { checkWire(x, c.T) }
	case "C02":
		return func(x *X, c txCase) {
			b := c.T.Bytes()
			for _, n := range []int{0, 1, 4, 5, 9} {
				if n < len(b) {
					checkParseTx(x, exact(b[:len(b)-n]), "exact")
				}
			}
			checkParseTx(x, cat(b, []byte{0}), "one byte more")
			off := 4 + len(ref.VarInt(uint64(len(c.T.Ins))))
			for i := range c.T.Ins {
				n := len(c.T.Ins[i].Bytes())
				checkParseIn(x, exact(b[off:off+n]))
				checkParseIn(x, exact(b[off:off+n-1]))
				off += n
			}
			off += len(ref.VarInt(uint64(len(c.T.Outs))))
			for i := range c.T.Outs {
				n := len(c.T.Outs[i].Bytes())
				checkParseOut(x, exact(b[off:off+n]))
				checkParseOut(x, exact(b[off:off+n-1]))
				off += n
			}
			x.State(b)
		}
	case "C04":
		return func(x *X, c txCase) {
			tx := libTx(c.T)
			for i := range c.T.Ins {
				for _, f := range spaceFlags {
					digest(x, tx, c.T, i, f, c.Desc)
				}
			}
			x.Step(len(c.T.Ins)*len(spaceFlags) - 1)
		}
	case "C05":
		return func(x *X, c txCase) {
			n := len(c.Desc) % len(c.T.Ins)
			f := []uint8{0x41, 0xc3, 0x43, 0x42, 0}[(len(c.Desc)+n)%5]
			signCheck(x, libTx(c.T), c.T, n, n%2, f, true)
		}
	case "C06":
		return func(x *X, c txCase) {
			for i := range c.T.Ins {
				if hx(c.T.Ins[i].Prev) == hx(simpleIn(i).Prev) {
					c.T.Ins[i].Prev = ref.P2PKH(keys[0].hash)
				}
			}
			autoTx(x, c.T, []int{0}, []uint8{[]uint8{0x41, 0xc3, 0x43, 0x42, 0}[len(c.Desc)%5]})
		}
	case "C07":
		return func(x *X, c txCase) {
			watch(x, libTx(c.T), c.T, "building "+c.Desc)
			p := c.T.Clone()
			for i := range p.Ins {
				p.Ins[i].Prev, p.Ins[i].Sats = nil, 0
			}
			tx, err := transaction.NewFromBytes(p.Bytes())
			if err != nil {
				x.Failf("NewFromBytes fails", "NewFromBytes: %v (%s)", err, c.Desc)
			}
			watch(x, tx, p, "parsing "+c.Desc)
		}
	case "C30":
		return func(x *X, c txCase) {
			for i := range c.T.Ins {
				for _, s := range [][]byte{ref.P2PKH(keys[0].hash), {}, pat(253, 3)} {
					cleared(x, c.T, i, s)
				}
			}
			x.Step(len(c.T.Ins)*3 - 1)
		}
	case "C31":
		return spendAll
	case "C32":
		return func(x *X, c txCase) {
			n := 0
			for _, ch := range c.Desc {
				n += int(ch)
			}
			a := n % 3
			external(x, libTx(c.T), c.T, a == 2, uint32(a%2), n/3%signerKinds, c.Desc)
			x.State(append(stateTx(c.T), byte(n%3), byte(n/3%signerKinds)))
		}
	}
	return nil
}

// spendAll: the owner of all inputs signs them; every spend must be valid.
func spendAll(x *X, c txCase) {
	for i := range c.T.Ins {
		c.T.Ins[i].Prev = ref.P2PKH(keys[0].hash)
	}
	tx := libTx(c.T)
	h := len(c.Desc) + int(c.T.Version) + len(c.T.Outs)
	f := payFlags[h%7]
	tx = signWith(x, tx, h%2*2, 0, &keys[0], f)
	t, _, ok := ref.ParseTx(tx.ToBytes())
	if !ok || len(t.Ins) != len(c.T.Ins) {
		x.Failf("spending transaction", "%s: malformed", c.Desc)
	}
	for i := range t.Ins {
		t.Ins[i].Prev, t.Ins[i].Sats = c.T.Ins[i].Prev, c.T.Ins[i].Sats
		if why := spendError(t, i); why != "" {
			x.Failf("not spendable", "%s: input %d: %s (flag %#x)", c.Desc, i, why, f)
		}
		t.Ins[i].Script = c.T.Ins[i].Script
	}
	if !bytes.Equal(t.Bytes(), c.T.Bytes()) {
		x.Failf("signing changed more", "%s: something besides the unlocking scripts changed", c.Desc)
	}
	x.State(tx.ToBytes())
	x.Validated(1)
	x.Outcome(fmt.Sprintf("flag %#x", f))
}

// ---- script contents --------------------------------------------------------------

var (
	contentsOnce sync.Once
	contents     [][]byte
)

// pushIn is the push of d in one of 4 encodings, shortest or not.
func pushIn(enc int, d []byte) []byte {
	switch enc {
	case 0:
		if len(d) > 75 {
			return nil
		}
		return cat([]byte{byte(len(d))}, d)
	case 1:
		if len(d) > 255 {
			return nil
		}
		return cat([]byte{0x4c, byte(len(d))}, d)
	case 2:
		return cat([]byte{0x4d}, ref.LE(uint64(len(d)), 2), d)
	}
	return cat([]byte{0x4e}, ref.LE(uint64(len(d)), 4), d)
}

// scriptContents are scripts in which something might look special.
func scriptContents() [][]byte {
	contentsOnce.Do(func() {
		seen := map[string]bool{}
		add := func(b []byte) {
			if !seen[string(b)] {
				seen[string(b)] = true
				contents = append(contents, b)
			}
		}
		for a := 0; a < 256; a++ {
			add([]byte{byte(a)})
		}
		two := []byte{0, 1, 2, 0x14, 0x20, 0x21, 0x41, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x51, 0x60, 0x6a, 0x75, 0x76, 0x87, 0x88, 0xa9, 0xab, 0xac, 0xae, 0xb1, 0xba, 0xf9, 0xfd, 0xfe, 0xff}
		for _, a := range two {
			for _, b := range two {
				add([]byte{a, b})
				add([]byte{a, b, 0xac})
			}
		}
		for n := 0; n <= 80; n++ {
			for e := 0; e < 4; e++ {
				p := pushIn(e, pat(n, 7))
				if p == nil {
					continue
				}
				add(p)
				add(cat(p, []byte{0xac}))
				add(cat([]byte{0x6a}, p))
				add(p[:len(p)-1])
				add(cat(p, p))
			}
		}
		ts := templates()
		ts = append(ts, ref.P2PKH(keys[0].hash), cat(ref.Push(pat(71, 8)), ref.Push(keys[0].pub)), cat(ref.Push(pat(72, 8)), ref.Push(keys[0].unc)), cat([]byte{0}, ref.Push(pat(71, 8)), ref.Push(pat(71, 9))),
			cat([]byte{0xa9, 20}, ref.Hash160([]byte("open")), []byte{0x88}, ref.P2PKH(keys[0].hash)), cat([]byte{0, 20}, pat(20, 2)), cat([]byte{0, 32}, pat(32, 2)), cat([]byte{0x51, 32}, pat(32, 2)),
			ref.MultisigScript(1, [][]byte{keys[0].pub, keys[1].pub}), cat([]byte{0x63}, ref.P2PKH(keys[0].hash), []byte{0x67}, ref.P2PKH(keys[1].hash), []byte{0x68}))
		edge := []byte{0, 1, 2, 0x4c, 0x51, 0x61, 0x6a, 0x75, 0x76, 0x87, 0x88, 0xa9, 0xab, 0xac, 0xad, 0xae, 0xff}
		for _, t := range ts {
			add(t)
			add(t[1:])
			add(t[:len(t)-1])
			add(cat(t, t))
			for _, e := range edge {
				add(cat([]byte{e}, t))
				add(cat(t, []byte{e}))
				for _, p := range []int{0, 1, 2, len(t) / 2, len(t) - 3, len(t) - 2, len(t) - 1} {
					if p < 0 || p >= len(t) {
						continue
					}
					m := cp(t)
					m[p] = e
					add(m)
					add(cat(t[:p], []byte{e}, t[p:]))
				}
			}
		}
	})
	return contents
}

const contentsText = "every byte, 29^2 pairs of bytes with and without OP_CHECKSIG, pushes of 0..80 bytes in all four encodings (shortest or not) alone, doubled, cut, before OP_CHECKSIG and after OP_RETURN, 26 templates whole, cut at either end, doubled, extended, and with 17 bytes put over or between 7 positions"

func contentsScenarios(id string) []engine.Scenario {
	j := txJudge(id)
	if j == nil {
		return nil
	}
	places := []string{"in0.unlock", "in1.unlock", "out0.script", "out1.script", "in0.prev", "in1.prev"}
	l := []engine.Scenario{{Name: "script-contents", Bound: "a script at each of 6 places (unlocking, previous and output script, first or second) of a transaction of 2 inputs and 2 outputs: " + contentsText, Run: func(x *X) {
		w := x.Choose(6)
		if w > 3 && (id == "C01" || id == "C02" || id == "C31") {
			x.Prune()
		}
		s := engine.Pick(x, scriptContents())
		t := simpleTx(2, 2)
		switch w {
		case 0, 1:
			t.Ins[w].Script = cp(s)
		case 2, 3:
			t.Outs[w-2].Script = cp(s)
		default:
			t.Ins[w-4].Prev = cp(s)
		}
		j(x, txCase{T: t, Desc: places[w] + "=" + hx(s)})
		x.Validated(1)
	}}}
	// numeric fields and ids, byte by byte
	type field struct {
		name string
		n    int
		set  func(t *ref.Tx, b []byte)
	}
	fs := []field{{"version", 4, func(t *ref.Tx, b []byte) { t.Version = uint32(ref.GetLE(b)) }}, {"locktime", 4, func(t *ref.Tx, b []byte) { t.Locktime = uint32(ref.GetLE(b)) }}}
	for k := 0; k < 2; k++ {
		k := k
		fs = append(fs,
			field{fmt.Sprintf("in%d.txid", k), 32, func(t *ref.Tx, b []byte) { t.Ins[k].TxID = b }},
			field{fmt.Sprintf("in%d.vout", k), 4, func(t *ref.Tx, b []byte) { t.Ins[k].Vout = uint32(ref.GetLE(b)) }},
			field{fmt.Sprintf("in%d.seq", k), 4, func(t *ref.Tx, b []byte) { t.Ins[k].Seq = uint32(ref.GetLE(b)) }},
			field{fmt.Sprintf("in%d.sats", k), 8, func(t *ref.Tx, b []byte) { t.Ins[k].Sats = ref.GetLE(b) }},
			field{fmt.Sprintf("out%d.sats", k), 8, func(t *ref.Tx, b []byte) { t.Outs[k].Sats = ref.GetLE(b) }})
	}
	return append(l, engine.Scenario{Name: "field-bytes", Bound: "every field out of version, locktime, two txids, output numbers, sequence numbers, amounts of two inputs and two outputs x every byte position x 256 values (txids: 16, thorough 256) over 3 backgrounds (00, ff, different bytes)", Run: func(x *X) {
		f := engine.Pick(x, fs)
		p := x.Choose(32)
		if p >= f.n {
			x.Prune()
		}
		bg := x.Choose(3)
		v := x.Choose(256)
		if f.n == 32 && !x.Thorough && v%17 != 0 {
			x.Prune()
		}
		b := [][]byte{rep(f.n, 0), rep(f.n, 0xff), pat(f.n, 5)}[bg]
		b[p] = byte(v)
		t := simpleTx(2, 2)
		f.set(t, b)
		j(x, txCase{T: t, Desc: f.name + "=" + hx(b)})
		x.Validated(1)
	}})
}

// ---- short and special texts ------------------------------------------------------------

var specialTexts = []string{"*", "null", "nil", "none", "None", "NULL", "0x", "0X", "-", "--", "?", "default", "coinbase", "undefined", "NaN", "Inf", "inf", "true", "false", "-1", "+1", "0", "1", "00x", "0b", "zz", "g0", "0g", "\x00", "\x00\x00", "{}", "[]", "\"\"", "''", "()", "//", "test", "genesis", "zero", "random", "self", "same", "last", "empty", "left", "right", "any", "all", "%s", "$1", "\\", "...", "burn", "anyone", "op_return", "OP", "OP_", "bitcoin:", "1", "m", "n", "2", "3", "xpub", "ff.", ".ff", "0.5", "1e8", "\xff", "\xff\xff", "\u00e9"}

func shortTexts(id string) []engine.Scenario {
	run := func(f func(x *X, s string)) []engine.Scenario {
		return []engine.Scenario{{Name: "short-texts", Bound: fmt.Sprintf("every text of 0, 1 and 2 bytes and %d words which might have a meaning, where a text is asked for (texts which are hex, which may be valid, and white space left out where not specified)", len(specialTexts)), Run: func(x *X) {
			a := x.Choose(257)
			if a == 256 {
				f(x, "")
				for _, s := range specialTexts {
					f(x, s)
					f(x, strings.Repeat(s, 2))
				}
				x.Step(len(specialTexts) * 2)
				return
			}
			f(x, string([]byte{byte(a)}))
			for b := 0; b < 256; b++ {
				f(x, string([]byte{byte(a), byte(b)}))
			}
			x.Step(256)
			x.Validated(257)
			x.Statef("%d", a)
		}}}
	}
	switch id {
	case "C15":
		return run(func(x *X, s string) { accept(x, s, true) })
	case "C16":
		return run(func(x *X, s string) { bipText(x, s) })
	}
	l := refusers(id)
	if len(l) == 0 {
		return nil
	}
	return run(func(x *X, s string) {
		for _, r := range l {
			var err error
			if p := caught(func() { err = r.call(s) }); p != "" {
				x.Failf(r.name+" panics", "%s(%q) panics: %s", r.name, s, p)
			}
			if _, e := hex.DecodeString(s); err != nil || e == nil {
				continue
			}
			if id == "C11" && (len(strings.Fields(s)) != 1 || strings.Join(strings.Fields(s), "") != s) {
				continue
			}
			x.Failf(r.name+" accepts", "%s(%q) gives no error, or changed its receiver", r.name, s)
		}
	})
}

// ---- coins of one transaction ---------------------------------------------------------

// sameCoins adds several coins which agree in some of their fields.
func sameCoins(x *X, n int, f func(x *X, tx *transaction.Transaction, t *ref.Tx, what string)) {
	tx, t := transaction.New(), &ref.Tx{Version: 1}
	var what []string
	for i := 0; i < n; i++ {
		c := x.Choose(16)
		way := x.Choose(3)
		in := ref.In{TxID: pat(32, 100+c&1), Vout: uint32(c >> 1 & 1), Sats: []uint64{1000, 777777}[c>>2&1], Prev: ref.P2PKH(keys[c>>3&1].hash), Seq: 0xffffffff}
		what = append(what, fmt.Sprintf("%s transaction %d output %d amount %d key %d", []string{"From", "NewFromUTXO", "AddInput"}[way], c&1, in.Vout, in.Sats, c>>3&1))
		var err error
		try(x, "adding a coin", func() {
			switch way {
			case 0:
				err = tx.From(hx(in.TxID), in.Vout, hx(in.Prev), in.Sats)
			case 1:
				var li *input.Input
				if li, err = input.NewFromUTXO(hx(in.TxID), in.Vout, in.Sats, hx(in.Prev), in.Seq); err == nil {
					tx.AddInput(li)
				}
			default:
				li := libIn(&in)
				li.UnlockingScript = nil
				tx.AddInput(li)
			}
		})
		if err != nil {
			x.Failf("adding a coin", "%s: %v", what[i], err)
		}
		t.Ins = append(t.Ins, in)
	}
	o := simpleOut(1)
	tx.AddOutput(libOut(&o))
	t.Outs = append(t.Outs, o)
	f(x, tx, t, strings.Join(what, ", "))
	x.State([]byte(strings.Join(what, ",")))
}

func sameCoinsScenario(id string) []engine.Scenario {
	var f func(x *X, tx *transaction.Transaction, t *ref.Tx, what string)
	q, th := 2, 3
	switch id {
	case "C07":
		q = 3
		f = func(x *X, tx *transaction.Transaction, t *ref.Tx, what string) { watch(x, tx, t, what) }
	case "C04":
		f = func(x *X, tx *transaction.Transaction, t *ref.Tx, what string) {
			for i := range t.Ins {
				for _, fl := range spaceFlags {
					digest(x, tx, t, i, fl, what)
				}
			}
		}
	case "C06":
		f = func(x *X, tx *transaction.Transaction, t *ref.Tx, what string) {
			autoLib(x, tx, t, []int{0, 1}, []uint8{0x41, 0xc3})
		}
	case "C31":
		f = func(x *X, tx *transaction.Transaction, t *ref.Tx, what string) {
			h := len(what)
			tx = signWith(x, tx, h%2*2, 0, &keys[0], 0x41)
			tx = signWith(x, tx, 0, 0, &keys[1], 0xc3)
			g, _, ok := ref.ParseTx(tx.ToBytes())
			if !ok || len(g.Ins) != len(t.Ins) {
				x.Failf("spending transaction", "%s: malformed", what)
			}
			for i := range g.Ins {
				if !bytes.Equal(g.Ins[i].TxID, t.Ins[i].TxID) || g.Ins[i].Vout != t.Ins[i].Vout {
					x.Failf("outpoint", "%s: input %d spends %x:%d", what, i, g.Ins[i].TxID, g.Ins[i].Vout)
				}
				g.Ins[i].Prev, g.Ins[i].Sats = t.Ins[i].Prev, t.Ins[i].Sats
				if why := spendError(g, i); why != "" {
					x.Failf("not spendable", "%s: input %d: %s", what, i, why)
				}
			}
		}
	default:
		return nil
	}
	return []engine.Scenario{{Name: "same-coins", Bound: fmt.Sprintf("every list of %d (thorough %d) coins, each out of 2 transactions x 2 outputs x 2 amounts x 2 owners, added in each of 3 ways, one after the other", q, th), Run: func(x *X) {
		sameCoins(x, tier(x, q, th), f)
		x.Validated(1)
	}}}
}

// ---- lists of parts ---------------------------------------------------------------------

func partLists(x *X, f func(ps [][]byte)) {
	n := 2 + x.Choose(3)
	lens := [][]int{{1, 2, 20, 75, 76, 80, 255, 256, 257, 300, 520, 65535, 65536}, {1, 2, 75, 76, 255, 256, 300, 600}, {1, 76, 256, 300}}[n-2]
	same := x.Choose(3)
	var ps [][]byte
	for i := 0; i < n; i++ {
		l := engine.Pick(x, lens)
		switch same {
		case 0: // all different
			ps = append(ps, pat(l, 30+i))
		case 1: // prefixes of each other
			ps = append(ps, pat(l, 30))
		default: // differ in the last byte only
			p := rep(l, 7)
			p[l-1] = byte(0x20 + i)
			ps = append(ps, p)
		}
	}
	f(ps)
}

const partListsText = "every list of 2 parts of 13 lengths, 3 parts of 8 lengths and 4 parts of 4 lengths, with different contents, contents which are prefixes of each other, or which differ in the last byte only"

// ---- C08: the same bytes parsed again -----------------------------------------------

var againWays = []string{"NewFromBytes", "NewFromBytes of a copy", "NewFromString", "NewFromString of upper-case hex", "elements"}

func parseAgain(x *X, way int, t *ref.Tx, buf []byte) *transaction.Transaction {
	var tx *transaction.Transaction
	var err error
	try(x, againWays[way], func() {
		switch way {
		case 0:
			tx, err = transaction.NewFromBytes(buf)
		case 1:
			tx, err = transaction.NewFromBytes(cp(buf))
		case 2:
			tx, err = transaction.NewFromString(hx(buf))
		case 3:
			tx, err = transaction.NewFromString(strings.ToUpper(hx(buf)))
		default:
			tx = transaction.New()
			tx.Version, tx.Locktime = t.Version, t.Locktime
			off := 4 + len(ref.VarInt(uint64(len(t.Ins))))
			for range t.Ins {
				i, n, e := input.NewFromBytes(buf[off:])
				if e != nil {
					err = e
					return
				}
				tx.AddInput(i)
				off += n
			}
			off += len(ref.VarInt(uint64(len(t.Outs))))
			for range t.Outs {
				o, n, e := output.NewFromBytes(buf[off:])
				if e != nil {
					err = e
					return
				}
				tx.AddOutput(o)
				off += n
			}
		}
	})
	if err != nil {
		x.Failf("rejects", "%s: %v", againWays[way], err)
	}
	return tx
}

const againEdits = 19

// editOne changes something of a transaction which has at least an input and an output.
func editOne(x *X, tx *transaction.Transaction, t *ref.Tx, op int) {
	li, lo := len(t.Ins)-1, len(t.Outs)-1
	try(x, "editing", func() {
		switch op {
		case 0:
			tx.Version, t.Version = 99, 99
		case 1:
			tx.Locktime, t.Locktime = 98, 98
		case 2:
			n := simpleIn(7)
			tx.AddInput(libIn(&n))
			t.Ins = append(t.Ins, n)
		case 3:
			n := simpleOut(7)
			tx.AddOutput(libOut(&n))
			t.Outs = append(t.Outs, n)
		case 4:
			tx.Inputs[li].SequenceNumber, t.Ins[li].Seq = 5, 5
		case 5:
			tx.Inputs[0].PreviousTxOutIndex, t.Ins[0].Vout = 6, 6
		case 6:
			t.Ins[li].TxID = pat(32, 222)
			tx.Inputs[li].PreviousTxID = hx(t.Ins[li].TxID)
		case 7:
			tx.Inputs[li].PreviousTxSatoshis, t.Ins[li].Sats = 123, 123
		case 8:
			t.Ins[li].Prev = pat(9, 9)
			tx.Inputs[li].PreviousTxScript = scr(t.Ins[li].Prev)
		case 9:
			tx.Outputs[lo].Satoshis, t.Outs[lo].Sats = 31337, 31337
		case 10:
			t.Ins[li].Script = pat(5, 77)
			tx.Inputs[li].UnlockingScript = scr(t.Ins[li].Script)
		case 11:
			t.Outs[lo].Script = pat(5, 78)
			tx.Outputs[lo].LockingScript = scr(t.Outs[lo].Script)
		case 12:
			tx.Inputs[li].UnlockingScript.AppendOpCode(0x51)
			t.Ins[li].Script = cat(t.Ins[li].Script, []byte{0x51})
		case 13:
			tx.Outputs[lo].LockingScript.AppendOpCode(0x51)
			t.Outs[lo].Script = cat(t.Outs[lo].Script, []byte{0x51})
		case 14:
			s := *tx.Inputs[0].UnlockingScript
			for i := range s {
				s[i] ^= 0xff
				t.Ins[0].Script[i] ^= 0xff
			}
		case 15:
			s := *tx.Outputs[0].LockingScript
			for i := range s {
				s[i] ^= 0xff
				t.Outs[0].Script[i] ^= 0xff
			}
		case 16:
			t.Ins[0] = simpleIn(8)
			tx.Inputs[0] = libIn(&t.Ins[0])
			t.Ins[0] = simpleIn(8)
		case 17:
			tx.Inputs, t.Ins = tx.Inputs[:0], t.Ins[:0]
		case 18:
			s := scr([]byte{0x52})
			if err := tx.ApplyUnlockingScript(uint32(li), s); err != nil {
				x.Failf("ApplyUnlockingScript", "%v", err)
			}
			t.Ins[li].Script = []byte{0x52}
		}
	})
}

func parsedAgain(x *X) {
	base := isoBases()[x.Choose(12)]
	buf := base.Bytes()
	n := 2
	var txs []*transaction.Transaction
	var ts []*ref.Tx
	var what []string
	check := func(when string) {
		for i := range txs {
			if d := diffTx(txs[i], ts[i], true); d != "" {
				x.Failf("parsed twice", "%s, %s: transaction %d: %s", strings.Join(what, "; "), when, i, d)
			}
			if !bytes.Equal(txs[i].ToBytes(), ts[i].Bytes()) {
				x.Failf("parsed twice: serialisation", "%s, %s: transaction %d", strings.Join(what, "; "), when, i)
			}
		}
	}
	parse := func(way int) {
		what = append(what, againWays[way])
		t := base.Clone()
		for i := range t.Ins {
			t.Ins[i].Prev, t.Ins[i].Sats = nil, 0
		}
		txs, ts = append(txs, parseAgain(x, way, t, buf)), append(ts, t)
	}
	parse(x.Choose(5))
	parse(x.Choose(5))
	check("parsed")
	for s := 0; s < n; s++ {
		w, op := x.Choose(len(txs)), x.Choose(againEdits)
		if !x.Thorough && s > 0 && (op+w)%3 != 0 {
			x.Prune()
		}
		if len(ts[w].Ins) == 0 && op != 0 && op != 1 && op != 2 && op != 3 && op != 9 && op != 11 && op != 13 && op != 15 {
			x.Prune()
		}
		if op == 14 || op == 15 { // the model's scripts must not share memory
			ts[w] = ts[w].Clone()
		}
		what = append(what, fmt.Sprintf("edit %d of transaction %d", op, w))
		editOne(x, txs[w], ts[w], op)
		check("edited")
		if s == 0 {
			parse(len(what) * 7 % 5)
			check("parsed again")
		}
	}
	parse(2)
	check("parsed once more")
	x.State([]byte(strings.Join(what, ";") + hx(buf)))
	x.Step(4)
}

// generic lists the scenarios of this file for one property.
func generic(id string) []engine.Scenario {
	l := append(contentsScenarios(id), shortTexts(id)...)
	l = append(l, sameCoinsScenario(id)...)
	add := func(name, bound string, f func(x *X)) {
		l = append(l, engine.Scenario{Name: name, Bound: bound, Run: func(x *X) {
			f(x)
			x.Validated(1)
		}})
	}
	switch id {
	case "C08":
		add("parsed-twice", "12 transactions parsed twice, in each pair of 5 ways (bytes, a copy of the bytes, hex, upper-case hex, element by element); an edit out of 19 of either, parsed again, a second edit (quick: a third) of any of the three, parsed again: every transaction equals its own model", parsedAgain)
	case "C09":
		add("part-lists", partListsText, func(x *X) {
			partLists(x, func(ps [][]byte) {
				var want []byte
				var ss []string
				for _, p := range ps {
					want = append(want, ref.Push(p)...)
					ss = append(ss, string(p))
				}
				try(x, "encoding parts", func() {
					e, err := script.EncodeParts(ps)
					if err != nil || !bytes.Equal(e, want) {
						x.Failf("EncodeParts", "%d parts: %s, %v, want %s", len(ps), short(e), err, short(want))
					}
					for k := 0; k < 4; k++ {
						s := &script.Script{0x6a}
						switch k {
						case 0:
							err = s.AppendPushDataArray(ps)
						case 1:
							err = s.AppendPushDataStrings(ss)
						case 2:
							for _, p := range ps {
								if e := s.AppendPushData(p); e != nil {
									err = e
								}
							}
						default:
							for _, p := range ps {
								if e := s.AppendPushDataHexString(hx(p)); e != nil {
									err = e
								}
							}
						}
						if err != nil || !bytes.Equal(*s, cat([]byte{0x6a}, want)) {
							x.Failf("appending parts", "way %d, %d parts: %s, %v, want %s", k, len(ps), short(*s), err, short(want))
						}
					}
				})
				x.State(want)
			})
		})
	case "C13":
		add("part-lists", "OP_RETURN outputs of "+partListsText, func(x *X) {
			partLists(x, func(ps [][]byte) {
				want := []byte{0, 0x6a}
				for _, p := range ps {
					want = append(want, ref.Push(p)...)
				}
				o, err := output.NewOpReturnParts(ps)
				builtOut(x, "NewOpReturnParts", o, err, want, 0)
				x.State(want)
			})
		})
	case "C35":
		add("part-lists", partListsText+" x 8 ways of storing (quick: the wire form follows)", func(x *X) {
			way := x.Choose(len(dataWays))
			if way == 1 {
				x.Prune()
			}
			partLists(x, func(ps [][]byte) {
				n := len(ps) + len(ps[0]) + len(ps[1])
				if x.Thorough {
					n = x.Choose(8)
				}
				carry(x, ps, way, n%4, n%2)
			})
		})
	case "C10":
		add("last-instruction", "n instructions of 4 kinds, n to 70000 (thorough 300000): MARKS, then one of 16 last instructions (opcodes, pushes in every encoding, whole and cut)", func(x *X) {
			n := engine.Pick(x, marks(1, tier(x, 70001, 300001), 1))
			b := bytes.Repeat([][]byte{{0x51}, {1, 7}, {0}, {0x4c, 1, 2}}[x.Choose(4)], n)
			for _, e := range [][]byte{{0}, {0x4f}, {0x60}, {0x6a}, {0xac}, {0xff}, {1, 7}, {0x4c, 0}, {0x4c, 1, 7}, {0x4d, 1, 0, 7}, {0x4e, 1, 0, 0, 0, 7}, {0x4c}, {0x4c, 2, 1}, {0x4d, 2, 0, 1}, {0x4e, 1, 0, 0, 0}, {75}} {
				decodeOne(x, cat(b, e))
			}
			x.Step(16)
			x.Statef("%d %x", n, b[0])
		})
		l[len(l)-1].Bound = strings.Replace(l[len(l)-1].Bound, "MARKS", marksText, 1)
	case "C14":
		add("key-texts", "public key texts of every length 0..130 bytes x every first byte x 2 networks, lower and upper case: the address of the hash of exactly these bytes (or, unless it has the form of a key, a refusal)", func(x *X) {
			n := x.Choose(131)
			k := pat(n, 9)
			lim := 256
			if n == 0 {
				lim = 1
			}
			for f := 0; f < lim; f++ {
				if n > 0 {
					k[0] = byte(f)
				}
				for _, s := range []string{hx(k), strings.ToUpper(hx(k))} {
					main := f%2 == 0
					var a *address.Address
					var err error
					try(x, "NewFromPublicKeyString", func() { a, err = address.NewFromPublicKeyString(s, main) })
					form := n == 33 && (f == 2 || f == 3) || n == 65 && f == 4
					if err != nil && !form {
						continue
					}
					sameAddr(x, "NewFromPublicKeyString", a, err, ref.Address(ref.Hash160(k), main), ref.Hash160(k))
				}
				x.State(k)
			}
			x.Step(lim)
		})
	case "C21":
		add("text-edges", "texts of every length 1..110 x every first byte and every last byte, heights following", func(x *X) {
			n, v := 1+x.Choose(110), x.Choose(256)
			b := pat(n, 5)
			b[[]int{0, n - 1}[x.Choose(2)]] = byte(v)
			coinbase(x, cbArgs{height: []uint32{0, 200, 700000, 0xffffffff}[(n+v)%4], value: 5, text: string(b), wallet: mainAddr, e1: (n + v) % 13})
		})
	case "C33":
		add("text-edges", "texts of every length 1..110 x every first byte and every last byte (quick: of 29 values), heights and templates following", func(x *X) {
			n, v := 1+x.Choose(110), x.Choose(256)
			if !x.Thorough && (v+n)%9 != 0 && v != '/' && v != 0 && v != 255 {
				x.Prune()
			}
			b := pat(n, 5)
			b[[]int{0, n - 1}[x.Choose(2)]] = byte(v)
			mine(x, blockCase{txs: v % 3, height: []uint32{0, 200, 700000, 0xffffffff}[(n+v)%4], value: 5, text: string(b), main: true, wallet: n % 3, e1: (n + v) % 13, bits: 0x1d00ffff, version: 1})
		})
	case "C20":
		add("short-paths", "every list of 0..3 branches, each out of 5 hashes or 9 texts which are none (empty, one or two characters, 31 or 33 bytes not judged), at every position x every index 0..8: an error unless all are hashes and the index fits", func(x *X) {
			n := x.Choose(4)
			words := []string{"*", "", "0", "zz", "-", "null", "nil", "\x00", " "}
			hs := [][]byte{pat(32, 1), pat(32, 2), rep(32, 0), rep(32, 0xff), pat(32, 3)}
			bad := false
			var path []string
			var raw [][]byte
			for i := 0; i < n; i++ {
				c := x.Choose(14)
				if c < 5 {
					path, raw = append(path, hx(ref.Rev(hs[c]))), append(raw, hs[c])
				} else {
					path, bad = append(path, words[c-5]), true
					if words[c-5] == "" { // hex of nothing: length is not judged
						x.Prune()
					}
				}
			}
			leaf := pat(32, 1)
			idx := x.Choose(9)
			var want []byte
			if !bad && idx < 1<<uint(n) {
				want = ref.MerkleFold(leaf, idx, raw)
			}
			proof(x, hx(ref.Rev(leaf)), idx, path, want)
			x.Statef("%v %d", path, idx)
		})
	}
	return l
}
