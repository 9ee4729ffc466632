package checks

import (
	"bytes"
	"context"
	"crypto/aes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	"verif/mc/engine"
	"verif/mc/ref"
)

// ---- texts with something in front of or behind them ----------------------------------

// affixes are pieces which other software puts around texts of the kinds the library reads.
var affixes = []string{"", "bitcoin:", "BITCOIN:", "bitcoin://", "bitcoincash:", "bchtest:", "bsv:", "bsvtest:", "bitcoin-script:", "bitcoin-template:", "pay:", "payto:", "urn:", "urn:bitcoin:", "http://", "https://", "//", "/", "mailto:", "address:", "address=", "addr(", "pkh(", "raw(", "hex:", "hex(", "base58:", "data:,", "0x", "0X", "\\x", "x'", "$", "#", "@", "&", "*", "^", "~", "%", "%20", "!", "?", "??", "?amount=1", "?label=x", "&amp;", "|", "\\", "<", ">", "[", "]", "(", ")", "{", "}", "\"", "'", "`", "\u201c", "\u2019", "\ufeff", "\u200b", "\u200e", "\u00a0", "\r\n", "\n", "\t", " ", "\x00", "\x00\x00", "\x1a", "\xff", "\xef\xbb\xbf", ",", ";", ".", ":", "::", "-", "--", "+", "=", "==", "h", "H", "L", "u", "n", "OP_", "op_", "OP_DATA_", "OP_PUSH ", "PUSH ", "txid:", "key:", "pubkey:", "xpub", "tpub", "...", "\u2026", "//comment", "#comment", " #", "_", "1.", "q", "z"}

// surround runs f over every text made of good with an affix in front and one behind.
func surround(good string, f func(s string)) int {
	n := 0
	for _, p := range affixes {
		for _, s := range affixes {
			if p+s != "" {
				f(p + good + s)
				n++
			}
		}
	}
	return n
}

func surrounded(id string) []engine.Scenario {
	bound := fmt.Sprintf("with every pair of %d pieces (URI schemes, prefixes, brackets, quotes, white space, marks, comments, separators) in front and behind", len(affixes)) + "; every piece in front or behind and, for addresses and BIP276, every one or two bytes in front or behind"
	sc := func(n int, what string, f func(x *X, i int)) []engine.Scenario {
		return []engine.Scenario{{Name: "surrounded", Bound: what + " " + bound, Run: func(x *X) {
			i := x.Choose(n)
			f(x, i)
			x.Validated(1)
			x.Statef("%d", i)
		}}}
	}
	two := func(x *X, good string, f func(s string)) {
		a := x.Choose(256)
		front := x.Bool()
		join := func(e string) string {
			if front {
				return e + good
			}
			return good + e
		}
		f(join(string([]byte{byte(a)})))
		for b := 0; b < 256; b++ {
			f(join(string([]byte{byte(a), byte(b)})))
		}
		x.Step(256)
	}
	switch id {
	case "C15":
		return sc(6, "3 addresses", func(x *X, i int) {
			g := addrBases()[i%3]
			if i < 3 {
				x.Step(surround(g, func(s string) { accept(x, s, true) }))
				return
			}
			if i == 5 && !x.Thorough {
				x.Prune()
			}
			two(x, g, func(s string) { accept(x, s, false) })
		})
	case "C16":
		return sc(4, "2 texts", func(x *X, i int) {
			g := bipBases()[i%2]
			if i < 2 {
				x.Step(surround(g, func(s string) { bipText(x, s) }))
				return
			}
			two(x, g, func(s string) { bipText(x, s) })
		})
	}
	l := refusers(id)
	if len(l) == 0 {
		return nil
	}
	var names []string
	for _, r := range l {
		names = append(names, r.name)
	}
	return sc(len(l), "a good text of "+strings.Join(names, ", "), func(x *X, i int) {
		r := l[i]
		x.Step(surround(r.good, func(s string) {
			if id == "C11" { // white space and pieces which are names or hex are not judged
				if _, ok := asmRef(s); ok {
					return
				}
			} else if _, ok := hexRef(s); ok {
				return
			}
			var err error
			if p := caught(func() { err = r.call(s) }); p != "" {
				x.Failf(r.name+" panics", "%s(%q) panics: %s", r.name, s, p)
			}
			if err == nil {
				x.Failf(r.name+" accepts", "%s(%q) gives no error, or changed its receiver", r.name, s)
			}
		}))
	})
}

func hexRef(s string) ([]byte, bool) {
	if len(s)%2 != 0 {
		return nil, false
	}
	for i := 0; i < len(s); i++ {
		if strings.IndexByte("0123456789abcdefABCDEF", s[i]) < 0 {
			return nil, false
		}
	}
	return unhex(strings.ToLower(s)), true
}

var (
	asmNames     map[string]byte
	asmNamesOnce sync.Once
)

// asmRef parses an ASM text; ok is true when every token is a name or hex.
func asmRef(s string) ([]byte, bool) {
	asmNamesOnce.Do(func() {
		asmNames = map[string]byte{}
		for i, n := range opName {
			asmNames[n] = byte(i)
		}
		for n, v := range opAlias {
			asmNames[n] = v
		}
	})
	var b []byte
	for _, t := range strings.Split(s, " ") {
		if v, ok := asmNames[t]; ok {
			b = append(b, v)
		} else if d, ok := hexRef(t); ok {
			b = append(b, ref.Push(d)...)
		} else {
			return nil, false
		}
	}
	return b, true
}

// asmToken judges one token (no white space, not empty).
func asmToken(x *X, t string) {
	want, ok := asmRef(t)
	for _, form := range []string{"%s", "OP_DUP %s 0a"} {
		txt := strings.Replace(form, "%s", t, 1)
		w := want
		if form != "%s" && ok {
			w = cat([]byte{0x76}, want, []byte{1, 0x0a})
		}
		var s *script.Script
		var err error
		try(x, "NewFromASM", func() { s, err = script.NewFromASM(txt) })
		if ok && (err != nil || !bytes.Equal(sb(s), w)) {
			x.Failf("NewFromASM", "NewFromASM(%q) = %s, %v, want %s", txt, short(sb(s)), err, short(w))
		}
		if !ok && err == nil {
			x.Failf("NewFromASM accepts", "NewFromASM(%q) = %s without error", txt, short(sb(s)))
		}
	}
}

var otherNames = []string{"OP_CHECKLOCKTIMEVERIFY", "OP_CHECKSEQUENCEVERIFY", "OP_CLTV", "OP_CSV", "OP_SUBSTR", "OP_LEFT", "OP_RIGHT", "OP_DATA", "OP_N", "OP_PUSH", "OP_PUSHDATA", "OP_PUSHDATA3", "OP_CHECKSIGADD", "OP_CHECKDATASIG", "OP_CHECKDATASIGVERIFY", "OP_REVERSEBYTES", "OP_UNKNOWN", "OP_INVALID", "OP_EVAL", "OP_NUMNEGATE", "OP_1NEG", "OP_NEG1", "OP_MINUS1", "OP_-1", "OP_PUBKEYHASHES", "OP_SIG", "OP_TEMPLATE", "OP_ANY", "OP_XXX", "OP_", "OP", "_", "-1", "1", "+1", "PUSHDATA(20)", "[error]", "[ALL]", "[ALL|FORKID]", "<sig>", "<pubKey>", "<0a>", "[0a]", "(0a)", "{0a}", "'text'", "\"text\"", "'", "0x51", "0x", "x0a", "\\x0a", "0a[ALL]", "0a,", "0a;", "0a.", ",", "OP_DUP,", "OP_DUP;", "OP_DUP.", "OP_DUP:", "OP_DUP/", "OP_DUP|OP_DUP", "OP_DUP,OP_DUP", "OP_DUPOP_DUP", "OP_DUP0a", "0aOP_DUP", "OP_DUP_", "OP__DUP", "op_dup", "Op_Dup", "OP_Dup", "OP_dup", "oP_DUP", "dup", "Dup", "DUP", "P2PKH", "OP_FALSEOP_RETURN", "#", "//", "//0a", "#0a", "--", "-", "...", "null", "nil", "true", "false", "TRUE", "FALSE", "OP_ONE1", "OP_TWO", "OP_SIXTEEN", "TWO", "SIXTEEN", "\u00d8P_DUP", "OP_\u0394UP"}

// ---- bytes at the edges of data of every length --------------------------------------

const edgeText = "of every length 0..300 x every value of its first byte, every value of its last byte, and every value of both"

// edgeBytes runs f over data of one chosen length: 3 x 256 contents.
func edgeBytes(x *X, lim int, f func(d []byte)) {
	n := x.Choose(lim + 1)
	if n == 0 {
		f([]byte{})
		return
	}
	for v := 0; v < 256; v++ {
		for e := 1; e <= 3; e++ {
			d := pat(n, 5)
			if e&1 != 0 {
				d[0] = byte(v)
			}
			if e&2 != 0 {
				d[n-1] = byte(v)
			}
			f(d)
		}
	}
	x.Step(768)
	x.Validated(768)
	x.Statef("%d", n)
}

// pairText runs f over every text a m b, a and b being every byte.
func pairText(x *X, mids []string, f func(s string)) {
	a := byte(x.Choose(256))
	for _, m := range mids {
		for b := 0; b < 256; b++ {
			f(string([]byte{a}) + m + string([]byte{byte(b)}))
		}
	}
	x.Step(256 * len(mids))
	x.Validated(256)
	x.Statef("%d", a)
}

func puzzle(x *X, secret string) {
	h := keys[len(secret)%3].hash
	want := cat([]byte{0xa9}, ref.Push(ref.Hash160([]byte(secret))), []byte{0x88}, ref.P2PKH(h))
	o, err := output.NewHashPuzzle(secret, hx(h), 7)
	builtOut(x, "NewHashPuzzle", o, err, want, 7)
}

// textPushes pushes texts in the two ways the library offers.
func textPushes(x *X, ss []string) {
	want := []byte{0x6a}
	for _, s := range ss {
		want = append(want, ref.Push([]byte(s))...)
	}
	a, b := &script.Script{0x6a}, &script.Script{0x6a}
	err := a.AppendPushDataStrings(ss)
	for _, s := range ss {
		if e := b.AppendPushDataString(s); e != nil {
			err = e
		}
	}
	if err != nil || !bytes.Equal(*a, want) || !bytes.Equal(*b, want) {
		x.Failf("pushing texts", "texts %q: AppendPushDataStrings %s, AppendPushDataString %s, %v, want %s", ss, short(*a), short(*b), err, short(want))
	}
}

// ---- equalities among the parts of a transaction ---------------------------------------

// partition picks a set partition of n elements as a restricted growth string.
func partition(x *X, n int) []int {
	r := make([]int, n)
	top := 0
	for i := 1; i < n; i++ {
		r[i] = x.Choose(top + 2)
		if r[i] > top {
			top = r[i]
		}
	}
	return r
}

var eqAttrs = []string{"unlocking scripts", "previous scripts", "previous txids", "output indexes", "sequence numbers", "previous amounts", "locking scripts", "amounts", "whole inputs", "whole outputs"}

func setEqual(t *ref.Tx, attr int, p []int, length int) {
	sc := func(c int) []byte { return pat(length, 300+c) }
	for i, c := range p {
		switch attr {
		case 0:
			t.Ins[i].Script = sc(c)
		case 1:
			t.Ins[i].Prev = sc(c)
			if length == 25 {
				t.Ins[i].Prev = ref.P2PKH(keys[c%3].hash)
			}
		case 2:
			t.Ins[i].TxID = pat(32, 320+c)
		case 3:
			t.Ins[i].Vout = uint32(c)
		case 4:
			t.Ins[i].Seq = []uint32{0xffffffff, 0, 0xfffffffe, 5, 6, 7}[c]
		case 5:
			t.Ins[i].Sats = uint64(1000 + c)
		case 6:
			t.Outs[i].Script = sc(c)
		case 7:
			t.Outs[i].Sats = uint64(2000 + c)
		case 8:
			t.Ins[i] = simpleIn(c)
		case 9:
			t.Outs[i] = simpleOut(c)
		}
	}
}

func equalities(x *X) txCase {
	n := 4 + x.Choose(2)
	t := simpleTx(n, n)
	d := ""
	k := 1
	if n == 4 {
		k = 2
	}
	lo := 0
	for j := 0; j < k; j++ {
		a := lo + x.Choose(len(eqAttrs)-lo-(k-1-j))
		lo = a + 1
		p := partition(x, n)
		setEqual(t, a, p, []int{0, 1, 25, 107}[(j+p[n-1]+a)%4])
		d += fmt.Sprintf(" %s %v", eqAttrs[a], p)
	}
	return txCase{T: t, Desc: d}
}

const equalText = "every pattern of equal and different values among 5 inputs or outputs for each of 10 attributes (scripts, previous scripts, txids, indexes, sequence numbers, amounts, whole inputs and outputs), and every pair of patterns of two attributes among 4"

// ownBytes: after parsing, each script is edited in turn; nothing else changes.
func ownBytes(x *X, t *ref.Tx, buf []byte, elements bool, what string) {
	keep := cp(buf)
	n := len(t.Ins) + len(t.Outs)
	for k := 0; k < n; k++ {
		for e := 0; e < 2; e++ {
			m := t.Clone()
			for i := range m.Ins {
				m.Ins[i].Prev, m.Ins[i].Sats = nil, 0
			}
			b := cp(keep)
			var tx *transaction.Transaction
			var err error
			try(x, "parsing", func() { tx, err = parseForm(t, b, elements) })
			if err != nil {
				return // lengths which are not shortest may be refused
			}
			var sp *script.Script
			var mp *[]byte
			if k < len(t.Ins) {
				sp, mp = tx.Inputs[k].UnlockingScript, &m.Ins[k].Script
			} else {
				sp, mp = tx.Outputs[k-len(t.Ins)].LockingScript, &m.Outs[k-len(t.Ins)].Script
			}
			if sp == nil {
				x.Failf("nil script", "%s: parsed script %d is nil", what, k)
			}
			try(x, "editing a parsed script", func() {
				if e == 0 {
					for i := range *sp {
						(*sp)[i] ^= 0x5a
						(*mp)[i] ^= 0x5a
					}
				} else {
					sp.AppendOpCode(0x51)
					if er := sp.AppendPushData(pat(9, 9)); er != nil {
						x.Failf("AppendPushData", "%v", er)
					}
					*mp = cat(*mp, []byte{0x51, 9}, pat(9, 9))
				}
			})
			if d := diffTx(tx, m, true); d != "" {
				x.Failf("edit reaches another part", "%s: after edit %d of script %d: %s", what, e, k, d)
			}
			if !bytes.Equal(b, keep) {
				x.Failf("edit reaches the buffer", "%s: edit %d of script %d changed the buffer", what, e, k)
			}
			for i := range b {
				b[i] ^= 0xff
			}
			if d := diffTx(tx, m, true); d != "" {
				x.Failf("buffer is kept", "%s: overwriting the buffer changes the transaction: %s", what, d)
			}
		}
	}
	x.Step(n * 2)
}

func parseForm(t *ref.Tx, b []byte, elements bool) (*transaction.Transaction, error) {
	if !elements {
		return transaction.NewFromBytes(b)
	}
	tx := transaction.New()
	tx.Version, tx.Locktime = t.Version, t.Locktime
	_, n, _ := ref.ReadVarInt(b[4:])
	off := 4 + n
	for range t.Ins {
		i, k, err := input.NewFromBytes(b[off:])
		if err != nil {
			return nil, err
		}
		tx.AddInput(i)
		off += k
	}
	_, n, _ = ref.ReadVarInt(b[off:])
	off += n
	for range t.Outs {
		o, k, err := output.NewFromBytes(b[off:])
		if err != nil {
			return nil, err
		}
		tx.AddOutput(o)
		off += k
	}
	return tx, nil
}

// longForm serialises with lengths of the given size (1, 3, 5, 9 bytes).
func longForm(t *ref.Tx, size int) []byte {
	vi := func(v int) []byte {
		switch size {
		case 3:
			return cat([]byte{0xfd}, ref.LE(uint64(v), 2))
		case 5:
			return cat([]byte{0xfe}, ref.LE(uint64(v), 4))
		case 9:
			return cat([]byte{0xff}, ref.LE(uint64(v), 8))
		}
		return ref.VarInt(uint64(v))
	}
	b := cat(ref.LE(uint64(t.Version), 4), ref.VarInt(uint64(len(t.Ins))))
	for _, i := range t.Ins {
		b = cat(b, ref.Rev(i.TxID), ref.LE(uint64(i.Vout), 4), vi(len(i.Script)), i.Script, ref.LE(uint64(i.Seq), 4))
	}
	b = cat(b, ref.VarInt(uint64(len(t.Outs))))
	for _, o := range t.Outs {
		b = cat(b, ref.LE(o.Sats, 8), vi(len(o.Script)), o.Script)
	}
	return cat(b, ref.LE(uint64(t.Locktime), 4))
}

// ---- errors of signers -----------------------------------------------------------------

type oddError struct {
	msg                string
	temporary, timeout bool
	is                 bool
	unwrap             error
}

func (e *oddError) Error() string        { return e.msg }
func (e *oddError) Temporary() bool      { return e.temporary }
func (e *oddError) Timeout() bool        { return e.timeout }
func (e *oddError) Is(target error) bool { return e.is }
func (e *oddError) Unwrap() error        { return e.unwrap }

type stringError string

func (e stringError) Error() string { return string(e) }

type signerError struct {
	name string
	err  error
}

func signerErrors() []signerError {
	var typed *oddError
	_ = typed
	return []signerError{
		{"temporary", &oddError{msg: "busy", temporary: true}},
		{"timeout", &oddError{msg: "slow", timeout: true}},
		{"temporary timeout", &oddError{msg: "busy and slow", temporary: true, timeout: true}},
		{"equal to everything", &oddError{msg: "is", is: true}},
		{"wraps EOF", &oddError{msg: "wraps", unwrap: io.EOF}},
		{"EOF", io.EOF}, {"unexpected EOF", io.ErrUnexpectedEOF}, {"short write", io.ErrShortWrite}, {"no progress", io.ErrNoProgress},
		{"canceled", context.Canceled}, {"deadline", context.DeadlineExceeded}, {"os deadline", os.ErrDeadlineExceeded}, {"not exist", os.ErrNotExist}, {"closed", os.ErrClosed}, {"permission", os.ErrPermission},
		{"wrapped canceled", fmt.Errorf("signing: %w", context.Canceled)},
		{"empty message", errors.New("")}, {"zero value", stringError("")}, {"joined", errors.Join(io.EOF, context.Canceled)},
		{"not supported", errors.ErrUnsupported}, {"script empty", errors.New("Script is empty")}, {"out of range", errors.New("input index out of range")}, {"not p2pkh", errors.New("Not a P2PKH")}, {"no prev", errors.New("'PreviousTxScript' not supplied")}, {"unsupported", errors.New("unsupported")}, {"nothing to sign", errors.New("nothing to sign")}, {"retry", errors.New("retry")}, {"locked", errors.New("wallet locked")}, {"already signed", errors.New("already signed")},
	}
}

// ---- all of them ----------------------------------------------------------------------

func edges(id string) []engine.Scenario {
	l := surrounded(id)
	add := func(name, bound string, f func(x *X)) {
		l = append(l, engine.Scenario{Name: name, Bound: bound, Run: f})
	}
	if j := txJudge(id); j != nil {
		add("equalities", equalText, func(x *X) {
			j(x, equalities(x))
			x.Validated(1)
		})
	}
	switch id {
	case "C08":
		add("equalities", equalText+" (scripts only): parsed whole or element by element, every script edited in two ways, the buffer overwritten", func(x *X) {
			c := equalities(x)
			el := x.Bool()
			if !strings.Contains(c.Desc, "unlocking scripts") && !strings.Contains(c.Desc, "locking scripts") && !strings.Contains(c.Desc, "whole") {
				x.Prune()
			}
			ownBytes(x, c.T, c.T.Bytes(), el, c.Desc)
			x.State(c.T.Bytes())
			x.Validated(1)
		})
		add("long-lengths", "scripts of 0..300 bytes whose lengths are written with 1, 3, 5 or 9 bytes, parsed whole or element by element: every script edited in two ways, the buffer overwritten (refusing such lengths is not judged)", func(x *X) {
			n := x.Choose(301)
			size := []int{1, 3, 5, 9}[x.Choose(4)]
			t := simpleTx(2, 2)
			t.Ins[0].Script, t.Ins[1].Script, t.Outs[0].Script, t.Outs[1].Script = pat(n, 1), pat(n, 2), pat(n, 3), pat(n, 4)
			ownBytes(x, t, longForm(t, size), x.Bool(), fmt.Sprintf("scripts of %d bytes, lengths of %d bytes", n, size))
			x.Statef("%d %d", n, size)
			x.Validated(1)
		})
	case "C09":
		add("edge-bytes", "a push "+edgeText, func(x *X) { edgeBytes(x, 300, func(d []byte) { checkPush(x, d, false) }) })
		add("edge-texts", "pushed texts: every first x every last byte around 3 middles, alone and behind another text; every pair of pieces around a text", func(x *X) {
			if x.Bool() {
				pairText(x, []string{"", "text", strings.Repeat("t", 300)}, func(s string) {
					textPushes(x, []string{s})
					textPushes(x, []string{"a", s, "b"})
				})
				return
			}
			x.Step(surround("hello", func(s string) { textPushes(x, []string{s}); textPushes(x, []string{"x", s}) }))
			x.StateS("surrounded")
		})
		add("nil-parts", "every list of 1..5 parts, each nil, empty, one zero byte, or 1 or 80 bytes", func(x *X) {
			ps, want := nilParts(x)
			try(x, "encoding parts", func() {
				b, err := script.EncodeParts(ps)
				if err != nil || !bytes.Equal(b, want) {
					x.Failf("EncodeParts", "%x: %s, %v, want %s", ps, short(b), err, short(want))
				}
				s, u := &script.Script{0x51}, &script.Script{0x51}
				err = s.AppendPushDataArray(ps)
				for _, p := range ps {
					if e := u.AppendPushData(p); e != nil {
						err = e
					}
				}
				if err != nil || !bytes.Equal(*s, cat([]byte{0x51}, want)) || !bytes.Equal(*u, *s) {
					x.Failf("appending parts", "%x: %s and %s, %v, want %s", ps, short(*s), short(*u), err, short(want))
				}
			})
		})
	case "C10":
		add("edge-bytes", "a push "+edgeText+", alone and between others", func(x *X) {
			edgeBytes(x, 300, func(d []byte) {
				decodeOne(x, ref.Push(d))
				decodeOne(x, cat([]byte{0, 0x6a}, ref.Push(d), []byte{1, 9}))
			})
		})
	case "C11":
		add("edge-bytes", "a non-empty push "+edgeText+", alone and between others", func(x *X) {
			edgeBytes(x, 300, func(d []byte) {
				if len(d) == 0 {
					return
				}
				asmBoth(x, ref.Push(d), hx(d))
				asmBoth(x, cat([]byte{0, 0x6a}, ref.Push(d), []byte{0x76}), "OP_FALSE OP_RETURN "+hx(d)+" OP_DUP")
			})
		})
		add("name-edits", "every name with every deletion, every substitution and insertion of a letter, digit, underscore or one of 9 other characters, prefixes, suffixes, doubled, in lower and mixed case, without OP_; every numbered name with the numbers 0..300, also with leading zeros; 100 names and notations of other software: known names and hex mean themselves, all else is refused", func(x *X) {
			asmRef("")
			var names []string
			for n := range asmNames {
				names = append(names, n)
			}
			sort.Strings(names)
			i := x.Choose(len(names) + 1)
			if i == len(names) {
				for _, n := range otherNames {
					asmToken(x, n)
				}
				for _, p := range []string{"OP_PUSHBYTES_", "OP_PUSH_", "OP_PUSHNUM_", "OP_SUCCESS", "OP_DATA_", "OP_DATA", "OP_", "OP_NOP", "OP_UNKNOWN", "OP_UNKNOWN_", "OP_RESERVED", "OP_PUSHDATA", "OP_x", "OP_0x", "OP_NUM_", "PUSH_", "N"} {
					for n := 0; n <= 300; n++ {
						asmToken(x, fmt.Sprintf("%s%d", p, n))
						asmToken(x, fmt.Sprintf("%s%02d", p, n))
						asmToken(x, fmt.Sprintf("%s%x", p, n))
					}
				}
				x.Step(len(otherNames) + 17*900)
				x.StateS("others")
				return
			}
			n := names[i]
			const set = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-+.,:/\x00\xff"
			for p := 0; p <= len(n); p++ {
				if p < len(n) {
					asmToken(x, n[:p]+n[p+1:])
					asmToken(x, n[:p]+strings.ToLower(n[p:]))
				}
				if p > 0 {
					asmToken(x, n[:p])
				}
				for c := 0; c < len(set); c++ {
					asmToken(x, n[:p]+set[c:c+1]+n[p:])
					if p < len(n) {
						asmToken(x, n[:p]+set[c:c+1]+n[p+1:])
					}
				}
			}
			asmToken(x, n+n)
			asmToken(x, "OP_"+n)
			asmToken(x, strings.TrimPrefix(n, "OP_")+"_OP")
			x.Step(len(n) * 2 * len(set))
			x.StateS(n)
		})
	case "C13":
		add("edge-bytes", "OP_RETURN data "+edgeText+", alone and as one of two parts; secrets the same", func(x *X) {
			sec := x.Bool()
			edgeBytes(x, 300, func(d []byte) {
				if sec {
					puzzle(x, string(d))
					return
				}
				o, err := output.NewOpReturn(d)
				builtOut(x, "NewOpReturn", o, err, cat([]byte{0, 0x6a}, ref.Push(d)), 0)
				o, err = output.NewOpReturnParts([][]byte{d, {7}})
				builtOut(x, "NewOpReturnParts", o, err, cat([]byte{0, 0x6a}, ref.Push(d), []byte{1, 7}), 0)
				o, err = output.NewOpReturnParts([][]byte{{7}, d})
				builtOut(x, "NewOpReturnParts", o, err, cat([]byte{0, 0x6a}, []byte{1, 7}, ref.Push(d)), 0)
			})
		})
		add("edge-texts", "secrets: every first x every last byte around 3 middles; every pair of pieces around a secret", func(x *X) {
			if x.Bool() {
				pairText(x, []string{"", "x", "a secret"}, func(s string) { puzzle(x, s) })
				return
			}
			x.Step(surround("secret", func(s string) { puzzle(x, s) }))
			x.StateS("surrounded")
		})
		add("nil-parts", "OP_RETURN outputs of every list of 1..5 parts, each nil, empty, one zero byte, or 1 or 80 bytes", func(x *X) {
			ps, want := nilParts(x)
			o, err := output.NewOpReturnParts(ps)
			builtOut(x, "NewOpReturnParts", o, err, cat([]byte{0, 0x6a}, want), 0)
			if len(ps) == 1 {
				o, err = output.NewOpReturn(ps[0])
				builtOut(x, "NewOpReturn", o, err, cat([]byte{0, 0x6a}, want), 0)
			}
		})
	case "C16":
		add("edge-bytes", "data "+edgeText, func(x *X) {
			edgeBytes(x, tier(x, 100, 300), func(d []byte) { bipRound(x, address.PrefixScript, 1+len(d)%3, 1+len(d)%2, d) })
		})
		add("long-prefixes", "prefixes of each length to 2000 (thorough 70000): "+marksText+", of 3 contents, x data of 0, 1 and 300 bytes; the text with one character of the prefix changed is refused", func(x *X) {
			n := engine.Pick(x, marks(1, tier(x, 2001, 70001), 1))
			p := strings.Repeat("p", n)
			switch x.Choose(3) {
			case 1:
				b := pat(n, 3)
				for i := range b {
					b[i] = 'a' + b[i]%26
				}
				p = string(b)
			case 2:
				p = strings.Repeat("bitcoin-", n/8+1)[:n]
			}
			d := pat([]int{0, 1, 300}[x.Choose(3)], n)
			bipRound(x, p, 1+n%255, 1+n%254, d)
			s := []byte(ref.BIP276(p, 1, 1, d))
			s[n/2] ^= 1
			bipText(x, string(s))
			x.Statef("%d", n)
		})
		add("prefixes", "every prefix of one or two printable characters; bitcoin-script with every position replaced by every printable character; every pair of printable characters at its end; x data of 0 and 5 bytes", func(x *X) {
			c := byte(0x20 + x.Choose(95))
			if c == ':' {
				x.Prune()
			}
			run := func(p string) {
				if strings.Contains(p, ":") {
					return
				}
				bipRound(x, p, 2, 3, nil)
				bipRound(x, p, 1, 1, pat(5, 1))
			}
			run(string([]byte{c}))
			base := "bitcoin-script"
			for d := byte(0x20); d < 0x7f; d++ {
				run(string([]byte{c, d}))
				run(base[:len(base)-2] + string([]byte{c, d}))
				run(string([]byte{c}) + base[1:len(base)-1] + string([]byte{d}))
			}
			for i := range base {
				run(base[:i] + string([]byte{c}) + base[i+1:])
			}
			x.Step(300)
			x.Validated(300)
			x.Statef("%c", c)
		})
	case "C20":
		add("branch-lengths", "leaf of 32 bytes and 1..3 branches of which one has every length 0..80, index at both ends: refused, or exactly the fold of these bytes", func(x *X) {
			n := 1 + x.Choose(3)
			k := x.Choose(n)
			ln := x.Choose(81)
			idx := []int{0, 1<<uint(n) - 1, 1 << uint(k)}[x.Choose(3)]
			leaf := pat(32, 1)
			var raw [][]byte
			var path []string
			for i := 0; i < n; i++ {
				b := pat(32, 2+i)
				if i == k {
					b = pat(ln, 9)
				}
				raw, path = append(raw, b), append(path, hx(ref.Rev(b)))
			}
			var s string
			var err error
			try(x, "MerkleRootFromBranches", func() { s, err = block.MerkleRootFromBranches(hx(ref.Rev(leaf)), idx, path) })
			want := hx(ref.Rev(ref.MerkleFold(leaf, idx, raw)))
			if err == nil && s != want || err != nil && ln == 32 {
				x.Failf("MerkleRootFromBranches", "branch %d of %d has %d bytes, index %d: %s, %v, want %s", k, n, ln, idx, s, err, want)
			}
			x.Statef("%d %d %d %d", n, k, ln, idx)
		})
	case "C24":
		add("coin-names", "every coin name of 1..4 capital letters, every pair of bytes, and R or B followed by every one or two printable characters x 2 difficulties", func(x *X) {
			k := x.Choose(26 + 256)
			want := func(r bool, d uint64) float64 {
				b := uint32(0x1d00ffff)
				if r {
					b = 0x207fffff
				}
				two := new(big.Float).SetInt(new(big.Int).Lsh(big.NewInt(1), 256))
				w := new(big.Float).SetPrec(200).Quo(two, new(big.Float).SetInt(ref.Target(b)))
				w.Mul(w, new(big.Float).SetUint64(d))
				f, _ := w.Quo(w, big.NewFloat(600)).Float64()
				return f
			}
			var w [2][2]float64
			ds := [2]uint64{1, 520481609534}
			for r := 0; r < 2; r++ {
				for i, d := range ds {
					w[r][i] = want(r == 1, d)
				}
			}
			run := func(coin string) {
				for i, d := range ds {
					var g float64
					try(x, "DifficultyToHashrate", func() { g = block.DifficultyToHashrate(coin, d, 600) })
					if f := w[b2i(coin[0] == 'R')][i]; math.Abs(g-f) > 1e-9*f {
						x.Failf("DifficultyToHashrate", "DifficultyToHashrate(%q, %d, 600) = %g, want %g", coin, d, g, f)
					}
				}
			}
			if k < 26 {
				a := string(rune('A' + k))
				run(a)
				for i := 0; i < 26; i++ {
					ab := a + string(rune('A'+i))
					run(ab)
					for j := 0; j < 26; j++ {
						abc := ab + string(rune('A'+j))
						run(abc)
						for m := 0; m < 26; m++ {
							run(abc + string(rune('A'+m)))
						}
					}
				}
				x.Step(26 * 27 * 27)
			} else {
				b := byte(k - 26)
				run(string([]byte{b}))
				for c := 0; c < 256; c++ {
					run(string([]byte{b, byte(c)}))
					run("R" + string([]byte{b, byte(c)}))
					run("B" + string([]byte{b, byte(c)}))
				}
				x.Step(768)
			}
			x.Statef("%d", k)
			x.Validated(1)
		})
	case "C25":
		add("edge-bytes", "texts "+edgeText+": encrypted and decrypted with AES-128, the ciphertext compared with the model", func(x *X) {
			key := pat(16, 3)
			c, _ := aes.NewCipher(key)
			edgeBytes(x, 300, func(d []byte) {
				var e, p []byte
				var err error
				try(x, "Encrypt and Decrypt", func() {
					if e, err = crypto.Encrypt(c, cp(d)); err == nil {
						k := cp(e)
						p, err = crypto.Decrypt(c, e)
						if !bytes.Equal(k, e) {
							x.Failf("ciphertext changed", "decrypting a text of %d bytes changed the ciphertext", len(d))
						}
					}
				})
				if err != nil || !bytes.Equal(p, d) {
					x.Failf("round trip", "text %s came back as %s, %v", short(d), short(p), err)
				}
			})
		})
	case "C28":
		add("edge-bytes", "messages "+edgeText, func(x *X) {
			edgeBytes(x, 300, func(d []byte) {
				g := mkGuard(d, 5)
				h := ref.Sha256(d)
				for i, f := range []func([]byte) []byte{crypto.Sha256, crypto.Sha256d, crypto.Ripemd160, crypto.Hash160} {
					var r, w []byte
					try(x, "hashing", func() { r = f(g.b()) })
					switch i {
					case 0:
						w = h
					case 1:
						w = ref.Sha256(h)
					case 2:
						w = ref.Ripemd160(d)
					default:
						w = ref.Ripemd160(h)
					}
					if !bytes.Equal(r, w) {
						x.Failf("hash", "hash function %d of %s is %x, want %x", i, short(d), r, w)
					}
				}
				g.check(x, "hashing")
			})
		})
	case "C32":
		add("errors", "29 errors (temporary, timeout, wrapping, equal to everything, of the standard library, of the library itself, with an empty message) returned with nothing, with the transaction, with another or with an empty one x Sign for 3 indexes and SignAuto x 4 shapes", func(x *X) {
			es := signerErrors()
			e := es[x.Choose(len(es))]
			kind := 7 + x.Choose(4)
			idx := x.Choose(4)
			sh := [][2]int{{0, 0}, {1, 1}, {2, 2}, {3, 1}}[x.Choose(4)]
			t := simpleTx(sh[0], sh[1])
			tx := libTx(t)
			externalErr(x, tx, t, idx == 3, uint32(idx), kind, e.name, e.err)
			external(x, tx, t, idx == 3, uint32(idx), 2, "after an error which is "+e.name)
			x.Statef("%s %d %d %v", e.name, kind, idx, sh)
			x.Validated(1)
		})
	case "C33":
		add("orders", "templates of 1..5 transactions in every order of their txids as displayed and as hashed", func(x *X) {
			n := 1 + x.Choose(5)
			var pm []int
			left := make([]int, n)
			for i := range left {
				left[i] = i
			}
			for len(left) > 0 {
				i := x.Choose(len(left))
				pm = append(pm, left[i])
				left = append(append([]int{}, left[:i]...), left[i+1:]...)
			}
			c := blockCase{txs: n, height: 700000, value: 5, text: "/x/", main: true, e1: 4, bits: 0x1d00ffff, version: 1, order: pm, hashed: x.Bool()}
			mine(x, c)
			x.Validated(1)
		})
	case "C35":
		add("edge-bytes", "one part "+edgeText+", stored in 3 ways", func(x *X) {
			way := []int{0, 2, 4}[x.Choose(3)]
			edgeBytes(x, tier(x, 100, 300), func(d []byte) {
				if len(d) > 0 {
					carry(x, [][]byte{d}, way, len(d)%4, int(d[0])%2)
				}
			})
		})
	}
	return l
}

// nilParts picks a list of parts with nil and empty ones.
func nilParts(x *X) (ps [][]byte, want []byte) {
	n := 1 + x.Choose(5)
	for i := 0; i < n; i++ {
		p := [][]byte{nil, {}, {0}, {byte(0x51 + i)}, pat(80, i)}[x.Choose(5)]
		ps = append(ps, p)
		want = append(want, ref.Push(p)...)
	}
	x.State(cat(want, []byte(fmt.Sprintf("%v", ps == nil))))
	x.Validated(1)
	return ps, want
}
