// Package ops is an alphabet of closed calls covering the exported API of
// libsv/libsv: each builds its own arguments and reports everything observable.
package ops

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"github.com/libsv/libsv/utils"

	"verif/mc/ref"
)

// Res is what a call returned: the values handed out (kept as the library
// handed them out, so that later changes show) and plain observations.
type Res struct {
	vals  []interface{}
	plain strings.Builder
}

// Op is one closed call.
type Op struct {
	Name string
	Big  bool // long-running: left out of the largest products
	Run  func(r *Res)
}

// Add records values.
func (r *Res) Add(vs ...interface{}) { r.vals = append(r.vals, vs...) }

func scr(s *script.Script) string {
	if s == nil {
		return "nil"
	}
	return hex.EncodeToString(*s)
}

func dump(w *strings.Builder, v interface{}) {
	switch t := v.(type) {
	case nil:
		w.WriteString("<nil>")
	case error:
		w.WriteString("error")
	case []byte:
		fmt.Fprintf(w, "%x", t)
	case [32]byte:
		fmt.Fprintf(w, "%x", t)
	case [][]byte:
		for _, b := range t {
			fmt.Fprintf(w, "[%x]", b)
		}
	case []string:
		for _, b := range t {
			fmt.Fprintf(w, "[%s]", b)
		}
	case *script.Script:
		w.WriteString(scr(t))
	case *input.Input:
		if t == nil {
			w.WriteString("nil")
			return
		}
		fmt.Fprintf(w, "in{%s:%d %d %s %s %x}", t.PreviousTxID, t.PreviousTxOutIndex, t.PreviousTxSatoshis, scr(t.PreviousTxScript), scr(t.UnlockingScript), t.SequenceNumber)
	case *output.Output:
		if t == nil {
			w.WriteString("nil")
			return
		}
		fmt.Fprintf(w, "out{%d %s}", t.Satoshis, scr(t.LockingScript))
	case *transaction.Transaction:
		if t == nil {
			w.WriteString("nil")
			return
		}
		fmt.Fprintf(w, "tx{%d ", t.Version)
		for _, i := range t.Inputs {
			dump(w, i)
		}
		for _, o := range t.Outputs {
			dump(w, o)
		}
		fmt.Fprintf(w, " %d}", t.Locktime)
	case *script.RedeemScript:
		if t == nil {
			w.WriteString("nil")
			return
		}
		fmt.Fprintf(w, "rs{%d %x %x}", t.SignaturesRequired, t.PublicKeys, t.Signatures)
	case *address.Address:
		if t == nil {
			w.WriteString("nil")
			return
		}
		fmt.Fprintf(w, "addr{%s %s}", t.AddressString, t.PublicKeyHash)
	case fmt.Stringer:
		w.WriteString(t.String())
	default:
		fmt.Fprintf(w, "%v", v)
	}
}

// Canon renders what the values hold now.
func (r *Res) Canon() string {
	var w strings.Builder
	w.WriteString(r.plain.String())
	for i, v := range r.vals {
		if i > 0 {
			w.WriteByte('|')
		}
		dump(&w, v)
	}
	return w.String()
}

func flip(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0xA7
	}
}

func flipS(s *script.Script) {
	if s != nil {
		flip(*s)
	}
}

// Scribble overwrites every byte (and the spare capacity) of what was returned.
func (r *Res) Scribble() {
	for _, v := range r.vals {
		switch t := v.(type) {
		case []byte:
			flip(t)
		case [][]byte:
			for _, b := range t {
				flip(b)
			}
			t = t[:cap(t)]
			for i := range t {
				t[i] = []byte("scribbled")
			}
		case []string:
			t = t[:cap(t)]
			for i := range t {
				t[i] = "scribbled"
			}
		case *script.Script:
			flipS(t)
		case *input.Input:
			if t != nil {
				flipS(t.PreviousTxScript)
				flipS(t.UnlockingScript)
				t.SequenceNumber++
				t.PreviousTxOutIndex++
			}
		case *output.Output:
			if t != nil {
				flipS(t.LockingScript)
				t.Satoshis++
			}
		case *transaction.Transaction:
			if t != nil {
				for _, i := range t.Inputs {
					flipS(i.PreviousTxScript)
					flipS(i.UnlockingScript)
					i.SequenceNumber++
					i.PreviousTxOutIndex++
				}
				for _, o := range t.Outputs {
					flipS(o.LockingScript)
					o.Satoshis++
				}
				t.Version++
				t.Locktime++
			}
		case *script.RedeemScript:
			if t != nil {
				for _, k := range t.PublicKeys {
					flip(k)
				}
				t.SignaturesRequired++
			}
		case *address.Address:
			if t != nil {
				t.AddressString, t.PublicKeyHash = "x", "y"
			}
		}
	}
}

// Do runs an op and returns its result; a panic of the library is a result too.
func (o *Op) Do() (r *Res) {
	r = &Res{}
	done := false
	defer func() {
		if !done {
			fmt.Fprintf(&r.plain, "panic: %v ", recover())
		}
	}()
	o.Run(r)
	done = true
	return
}

// ---- material ----------------------------------------------------------------

func pat(n, seed int) []byte {
	b := make([]byte, n)
	v := uint32(seed)*2654435761 + 12345
	for i := range b {
		v = v*1664525 + 1013904223
		b[i] = byte(v >> 24)
	}
	return b
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func key(i int) *bsvec.PrivateKey {
	k, _ := bsvec.PrivKeyFromBytes(bsvec.S256(), ref.Sha256([]byte{byte(i), 7}))
	return k
}

// table holds the public keys of the private keys used below, so that starting
// a process does not begin with curve arithmetic.
var table = map[string]string{
	"2ecd8a6b7d2845546659ad4cf443533cf921b19dc81fa83934e83821b4dfdcb7": "034ca26447a21d8bff5bc444682f22c2bd8871d6fd35f26038011ade2db227cc7f",
	"ca6c6588fa01171b200740344d354e8548b7470061fb32a34f4feee470ec281f": "0270e743317ebc5f24b9513c411b33c8d7b0ef541e692d2fbeb648535716fd77c1",
	"6e340b9cffb37a989ca544e6bb780a2c78901d3fb33738768511a30617afa01d": "0243311589af63c2adda04fcd7792c038a05c12a4fe40351b3eb1612ff6b2e5a0e",
	"597fcb31282d34654c200d3418fca5705c648ebf326ec73d8ddef11841f876d8": "035ca89db60c9e20dea20d5011ac49216f1e519df9e70a5c2077ef03727a5403b8",
	"4bf5122f344554c53bde2ebb8cd2b7e3d1600ad631c385a5d7cce23c7785459a": "02d415b187c6e7ce9da46ac888d20df20737d6f16a41639e68ea055311e1535dd9",
	"33fc6e8ad066231eb5527d1a39214c1eb390985d9977500312c5f10748f14d2d": "02a01c6d13e0136b0ecbe4e17c65c78d0a300e8c8b7ee8a4a5c28b97fc9100867e",
	"dbc1b4c900ffe48d575b5da5c638040125f65db0fe3e24494b76ea986457d986": "02d27cd27dbff481bc6fc4aa39dd19405eb6010237784ecba13bab130a4a62df5d",
	"67f008a37d381d7a4ba30910232b2c5b0937354176a197c4831e04efc9a702f2": "03c519117b90c54ca92f7d826c64eb7f7f7bdfd2279c6705dce848b8285279cf16",
}

var pubKeys = [2][]byte{pubOf(ref.Sha256([]byte{0, 7})), pubOf(ref.Sha256([]byte{1, 7}))}

func pubKey(i int) []byte { return append([]byte{}, pubKeys[i]...) }

// pubOf is the compressed public key of a private key; which valid point it is
// does not matter here, only that it is always the same one.
func pubOf(priv []byte) []byte {
	if b, err := hex.DecodeString(table[hx(priv)]); err == nil && len(b) == 33 {
		return b
	}
	_, p := bsvec.PrivKeyFromBytes(bsvec.S256(), priv)
	return p.SerializeCompressed()
}

var keyOne = pubOf(ref.Sha256([]byte{1}))

// Tx is a model transaction with nIn inputs and nOut outputs; variant changes
// one field at a time.
func Tx(nIn, nOut, variant int) *ref.Tx {
	t := &ref.Tx{Version: 1, Locktime: 0}
	for i := 0; i < nIn; i++ {
		in := ref.In{TxID: pat(32, 100+i), Vout: uint32(i), Script: pat(20+i, 200+i), Seq: 0xffffffff, Sats: uint64(1000 + i), Prev: ref.P2PKH(ref.Hash160(pubKey(i % 2)))}
		t.Ins = append(t.Ins, in)
	}
	for i := 0; i < nOut; i++ {
		t.Outs = append(t.Outs, ref.Out{Sats: uint64(500 + i), Script: ref.P2PKH(pat(20, 300+i))})
	}
	switch variant {
	case 1:
		t.Locktime = 77
	case 2:
		t.Outs[0].Sats++
	case 3:
		t.Ins[0].Seq = 5
	case 4:
		t.Outs[nOut-1].Script = ref.P2PKH(pat(20, 999))
	case 5:
		t.Ins[0].TxID = pat(32, 998)
	case 6:
		t.Ins[0].Sats++
	case 7:
		t.Ins[0].Prev = ref.P2PKH(pat(20, 997))
	}
	return t
}

func ls(b []byte) *script.Script {
	s := script.Script(append(make([]byte, 0, len(b)+5), b...))
	return &s
}

// Lib builds the library's transaction field by field.
func Lib(t *ref.Tx) *transaction.Transaction {
	tx := &transaction.Transaction{Version: t.Version, Locktime: t.Locktime}
	for i := range t.Ins {
		in := &t.Ins[i]
		tx.Inputs = append(tx.Inputs, &input.Input{PreviousTxID: hx(in.TxID), PreviousTxOutIndex: in.Vout, PreviousTxSatoshis: in.Sats, PreviousTxScript: ls(in.Prev), UnlockingScript: ls(in.Script), SequenceNumber: in.Seq})
	}
	for i := range t.Outs {
		tx.Outputs = append(tx.Outputs, &output.Output{Satoshis: t.Outs[i].Sats, LockingScript: ls(t.Outs[i].Script)})
	}
	return tx
}

func hashes(n, seed int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, hx(pat(32, seed+i)))
	}
	return r
}

func aesOf(n int) cipher.Block {
	b, err := aes.NewCipher(pat(n, 5))
	if err != nil {
		panic(err)
	}
	return b
}

func xpub(i int) string {
	priv := ref.Sha256([]byte{byte(i), 99})
	head := append([]byte{0x04, 0x88, 0xb2, 0x1e, 1}, pat(8, i)...)
	k := ref.XKey{Head: head, Chain: ref.Sha256([]byte{byte(i), 98}), Key: pubOf(priv)}
	return ref.B58Check(k.Raw())
}

var xpubs = []string{xpub(0), xpub(1), xpub(2)}

func electrum(m int, order ...int) string {
	s := []byte{byte(0x50 + m)}
	for _, i := range order {
		raw, _ := ref.B58Decode(xpubs[i])
		raw = append(append([]byte{0xff}, raw[:78]...), byte(i), 0, 3, 0)
		s = append(s, ref.Push(raw)...)
	}
	return hx(append(s, byte(0x50+len(order)), 0xae))
}

// All lists the alphabet. It is the same in every process.
func All() []Op {
	var l []Op
	add := func(name string, f func(r *Res)) { l = append(l, Op{Name: name, Run: f}) }
	big := func(name string, f func(r *Res)) { l = append(l, Op{Name: name, Big: true, Run: f}) }

	// utils
	for _, v := range []uint64{0, 5, 0xfc, 0xfd, 0xffff, 0x10000, 0xffffffff, 1 << 32, 1<<64 - 1} {
		v := v
		add(fmt.Sprintf("VarInt(%#x)", v), func(r *Res) {
			b := utils.VarInt(v)
			d, n := utils.DecodeVarInt(b)
			r.Add(b, d, n)
		})
	}
	add("DecodeVarInt(fd00)", func(r *Res) { v, n := utils.DecodeVarInt([]byte{0xfd, 0}); r.Add(v, n) })
	add("DecodeVarInt(empty)", func(r *Res) { v, n := utils.DecodeVarInt(nil); r.Add(v, n) })
	for _, n := range []int{0, 1, 5, 32, 33} {
		n := n
		add(fmt.Sprintf("ReverseBytes(%d)", n), func(r *Res) { a := pat(n, 1); r.Add(utils.ReverseBytes(a), a) })
	}
	add("ReverseBytes(32 other)", func(r *Res) { a := pat(32, 2); r.Add(utils.ReverseBytes(a), a) })
	add("ReverseHexString(64)", func(r *Res) { r.Add(utils.ReverseHexString(hx(pat(32, 3)))) })
	add("ReverseHexString(5)", func(r *Res) { r.Add(utils.ReverseHexString("abcde")) })
	add("SortByteArrays(3)", func(r *Res) { r.Add(utils.SortByteArrays([][]byte{pat(3, 1), pat(2, 2), pat(3, 3)})) })
	add("SortByteArrays(4)", func(r *Res) { r.Add(utils.SortByteArrays([][]byte{pat(33, 4), pat(33, 3), nil, pat(33, 1)})) })
	add("GetLittleEndianBytes", func(r *Res) { r.Add(utils.GetLittleEndianBytes(0x01020304, 4), utils.GetLittleEndianBytes(5, 8)) })
	add("Equals", func(r *Res) { r.Add(utils.Equals(pat(5, 1), pat(5, 1)), utils.Equals(pat(5, 1), pat(5, 2))) })
	add("Decode32Byte", func(r *Res) { b, err := utils.Decode32Byte(hx(pat(32, 9))); r.Add(b, err) })
	add("Decode32Byte(bad)", func(r *Res) { _, err := utils.Decode32Byte("zz"); r.Add(err) })
	add("HumanHash", func(r *Res) { r.Add(utils.HumanHash(999), utils.HumanHash(1e9), utils.HumanHash(2.5e21)) })

	// crypto
	for _, n := range []int{0, 32, 80} {
		n := n
		add(fmt.Sprintf("Sha256(%d)", n), func(r *Res) { a := pat(n, 4); r.Add(crypto.Sha256(a), a) })
		add(fmt.Sprintf("Sha256d(%d)", n), func(r *Res) { a := pat(n, 5); r.Add(crypto.Sha256d(a), a) })
		add(fmt.Sprintf("Ripemd160(%d)", n), func(r *Res) { a := pat(n, 6); r.Add(crypto.Ripemd160(a), a) })
		add(fmt.Sprintf("Hash160(%d)", n), func(r *Res) { a := pat(n, 7); r.Add(crypto.Hash160(a), a) })
	}
	for _, n := range []int{20, 33, 64, 65, 78} {
		n := n
		add(fmt.Sprintf("hashes(%d)", n), func(r *Res) {
			a := pat(n, 7)
			for _, first := range []byte{2, 4, 6, 0xff} {
				a[0] = first
				r.Add(crypto.Hash160(a), crypto.Sha256(a), crypto.Sha256d(a), crypto.Ripemd160(a))
			}
		})
	}
	add("Hash160(33 other)", func(r *Res) { r.Add(crypto.Hash160(pat(33, 8))) })
	for _, n := range []int{16, 32} {
		n := n
		add(fmt.Sprintf("Encrypt/Decrypt(aes%d)", n), func(r *Res) {
			c := aesOf(n)
			ct, err := crypto.Encrypt(c, pat(40, 3))
			d, err2 := crypto.Decrypt(c, ct)
			r.Add(err, err2, d, len(ct))
		})
	}
	add("Decrypt(fixed)", func(r *Res) {
		d, err := crypto.Decrypt(aesOf(16), pat(16, 3))
		r.Add(d, err)
		d, err = crypto.Decrypt(aesOf(24), pat(60, 3))
		r.Add(err)
	})

	// script
	for _, n := range []int{0, 1, 20, 75, 76, 255, 256, 65536} {
		n := n
		add(fmt.Sprintf("push(%d)", n), func(r *Res) {
			s := &script.Script{}
			d := pat(n, 11)
			err := s.AppendPushData(d)
			p, err2 := script.GetPushDataPrefix(d)
			r.Add(s, err, p, err2, d)
		})
	}
	add("EncodeParts", func(r *Res) {
		b, err := script.EncodeParts([][]byte{pat(3, 1), pat(80, 2), pat(300, 3), {}})
		r.Add(b, err)
	})
	add("append mix", func(r *Res) {
		s := &script.Script{}
		s.AppendOpCode(script.OpRETURN)
		e1 := s.AppendPushDataHexString("00ff")
		e2 := s.AppendPushDataString("hello")
		e3 := s.AppendPushDataArray([][]byte{pat(2, 1), pat(90, 2)})
		e4 := s.AppendPushDataStrings([]string{"a", "bc"})
		e5 := s.AppendPushDataHexString("0g")
		r.Add(s, e1, e2, e3, e4, e5, s.ToString())
	})
	for i, b := range [][]byte{{0x51, 2, 1, 2, 0x87}, ref.P2PKH(pat(20, 1)), append([]byte{0x4c, 80}, pat(80, 2)...), append([]byte{0x4d, 0, 1}, pat(256, 2)...), append([]byte{0x4e, 2, 0, 0, 0}, 9, 9), {0x4c, 5, 1}, {5, 1}, {0, 0x61, 0x6a}} {
		b := b
		add(fmt.Sprintf("DecodeParts#%d", i), func(r *Res) {
			a := append([]byte{}, b...)
			p, err := script.DecodeParts(a)
			if err != nil {
				p = nil
			}
			r.Add(p, err, a)
		})
		add(fmt.Sprintf("ToASM#%d", i), func(r *Res) {
			s := ls(b)
			t, err := s.ToASM()
			if err != nil {
				t = ""
			}
			r.Add(t, err, s)
		})
	}
	for i, t := range []string{"OP_DUP OP_HASH160 0102 OP_EQUALVERIFY OP_CHECKSIG", "OP_0 OP_1 OP_16 OP_TRUE ff", "OP_NOTHING", "", hx(pat(80, 1)), "OP_RETURN " + hx(pat(300, 2))} {
		t := t
		add(fmt.Sprintf("NewFromASM#%d", i), func(r *Res) { s, err := script.NewFromASM(t); r.Add(s, err) })
	}
	add("DecodeStringParts", func(r *Res) {
		p, err := script.DecodeStringParts("51020102ae")
		_, err2 := script.DecodeStringParts("0g")
		r.Add(p, err, err2)
	})
	add("NewFromHexString", func(r *Res) {
		s, err := script.NewFromHexString("76a9")
		_, err2 := script.NewFromHexString("7")
		r.Add(s, err, err2)
	})
	k1 := keyOne
	for i, b := range [][]byte{nil, {0x6a}, {0, 0x6a, 1, 1}, ref.P2PKH(pat(20, 1)), ref.P2SH(pat(20, 1)), append(ref.Push(k1), 0xac), ref.MultisigScript(1, [][]byte{k1, k1}), {0x76, 0xa9, 0x14}, ref.P2PKH(pat(20, 2)), {1, 0x6a}} {
		b := b
		add(fmt.Sprintf("classify#%d", i), func(r *Res) {
			s := ls(b)
			r.Add(s.IsP2PKH(), s.IsP2PK(), s.IsP2SH(), s.IsData(), s.IsMultisigOut())
			h, err := s.GetPublicKeyHash()
			if err != nil {
				h = nil
			}
			r.Add(append([]byte{}, h...), err, s)
		})
	}
	for i := 0; i < 2; i++ {
		i := i
		h, pk := pat(20, 40+i), pubOf(ref.Sha256([]byte{byte(i)}))
		add(fmt.Sprintf("P2PKH builders#%d", i), func(r *Res) {
			a, e1 := script.NewP2PKHFromPubKeyHashStr(hx(h))
			b, e2 := script.NewP2PKHFromPubKeyBytes(append([]byte{}, pk...))
			c, e3 := script.NewP2PKHFromPubKeyStr(hx(pk))
			d, e4 := script.NewP2PKHFromAddress(ref.Address(h, i == 0))
			r.Add(a, e1, b, e2, c, e3, d, e4)
		})
		add(fmt.Sprintf("outputs#%d", i), func(r *Res) {
			a, e1 := output.NewP2PkhFromPubKeyHash(hx(h), uint64(i))
			b, e2 := output.NewP2PKHFromAddress(ref.Address(h, i == 1), 5)
			c, e3 := output.NewHashPuzzle(fmt.Sprint("secret", i), hx(h), 6)
			d, e4 := output.NewOpReturn(pat(10+70*i, 3))
			e, e5 := output.NewOpReturnParts([][]byte{pat(3+i, 4), pat(90, 5)})
			r.Add(a, e1, b, e2, c, e3, d, e4, e, e5)
			r.Add(a.ToBytes(), a.GetBytesForSigHash(), a.GetLockingScriptHexString(), d.ToBytes())
		})
		add(fmt.Sprintf("address#%d", i), func(r *Res) {
			for _, main := range []bool{true, false} {
				a, e := address.NewFromPublicKeyHash(append([]byte{}, h...), main)
				r.Add(a, e)
				a, e = address.NewFromPublicKeyString(hx(pk), main)
				r.Add(a, e)
				a, e = address.NewFromString(ref.Address(h, main))
				r.Add(a, e)
				ok, e := address.ValidateAddress(ref.Address(h, main))
				r.Add(ok, e)
			}
			a, e := address.NewFromPublicKey(key(i).PubKey(), true)
			r.Add(a, e)
		})
		add(fmt.Sprintf("ValidateAddress#%d", i), func(r *Res) {
			ok, e := address.ValidateAddress(ref.Address(pat(20, 50+i), true))
			r.Add(ok, e)
		})
		add(fmt.Sprintf("NewFromString#%d", i), func(r *Res) {
			a, e := address.NewFromString(ref.Address(pat(20, 60+i), false))
			r.Add(a, e)
		})
		add(fmt.Sprintf("base58#%d", i), func(r *Res) {
			r.Add(address.Base58EncodeMissingChecksum(append(make([]byte, 2*i), pat(21-3*i, i)...)))
		})
		add(fmt.Sprintf("BIP276#%d", i), func(r *Res) {
			t := address.EncodeBIP276("bitcoin-script", 1+i, 2-i, pat(20+i, 70))
			p, v, n, d, e := address.DecodeBIP276(t)
			r.Add(t, p, v, n, d, e)
		})
	}
	good := ref.Address(pat(20, 50), true)
	for i, t := range []string{good[:len(good)-1], good + "1", "1" + good, strings.Replace(good, good[5:6], "0", 1), "", ref.B58Check(append([]byte{5}, pat(20, 1)...)), good[:10] + string(good[10]^1) + good[11:]} {
		t := t
		add(fmt.Sprintf("bad address#%d", i), func(r *Res) {
			ok, e := address.ValidateAddress(t)
			if i != 5 {
				r.Add(ok, e != nil)
			}
			_, e = address.NewFromString(t)
			_, e2 := script.NewP2PKHFromAddress(t)
			r.Add(e, e2)
		})
	}
	add("bad BIP276", func(r *Res) {
		_, _, _, _, e := address.DecodeBIP276("bitcoin-script:0101aabbccdd00")
		_, _, _, _, e2 := address.DecodeBIP276("bitcoin")
		r.Add(e, e2)
	})
	add("bad long BIP276", func(r *Res) {
		_, _, _, _, e := address.DecodeBIP276("bitcoin-script:0101" + strings.Repeat("5a", 200) + "00000000")
		_, _, _, _, e2 := address.DecodeBIP276(strings.Repeat("bitcoin", 100))
		r.Add(e != nil, e2 != nil)
	})
	add("bad long texts", func(r *Res) {
		_, e := script.NewFromASM(strings.Repeat("OP_DUP 00ff ", 60) + "OP_WHAT")
		_, e2 := script.NewFromHexString(strings.Repeat("51", 300) + "5")
		_, e3 := address.NewFromString(strings.Repeat("1E7ucTTW", 40))
		_, e4 := address.ValidateAddress(strings.Repeat("1E7ucTTW", 40))
		_, e5 := script.DecodeStringParts(strings.Repeat("0151", 200) + "4c")
		r.Add(e != nil, e2 != nil, e3 != nil, e4 != nil, e5 != nil)
	})
	add("bad long transaction", func(r *Res) {
		b := append(append([]byte{1, 0, 0, 0, 1}, pat(36, 3)...), 0xfd, 0, 2)
		b = append(b, pat(512, 4)...)
		_, e := transaction.NewFromBytes(b)
		_, e2 := transaction.NewFromString(strings.Repeat("01", 700))
		_, e3 := transaction.NewFromBytes(append(b, 0xff, 0xff, 0xff, 0xff, 0xff))
		r.Add(e != nil, e2 != nil, e3 != nil)
	})
	add("bad long redeem script", func(r *Res) {
		_, e := script.NewRedeemScriptFromElectrum("52" + strings.Repeat("4c53ff"+strings.Repeat("00", 82), 3) + "53ae")
		rs, _ := script.NewRedeemScript(2)
		e2 := rs.AddPublicKey(strings.Repeat("xpub", 30), []uint32{0, 0})
		r.Add(e != nil, e2 != nil)
	})
	add("bad proofs", func(r *Res) {
		l := make([]string, 20)
		for i := range l {
			l[i] = strings.Repeat("ab", 32)
		}
		l[19] = "zz"
		_, e := block.MerkleRootFromBranches(l[0], 5, l)
		_, e2 := block.MerkleRootFromBranches(l[0], 1<<30, l[:19])
		r.Add(e != nil, e2 != nil)
	})
	add("bad builders", func(r *Res) {
		_, e1 := script.NewP2PKHFromPubKeyHashStr("00")
		_, e2 := script.NewP2PKHFromPubKeyStr("zz")
		_, e3 := output.NewP2PKHFromAddress("nope", 1)
		_, e4 := output.NewHashPuzzle("s", "zz", 1)
		r.Add(e1, e2, e3, e4)
	})
	for i, ord := range [][]int{{0, 1}, {1, 0}, {2, 0, 1}} {
		i, ord := i, ord
		add(fmt.Sprintf("multisig#%d", i), func(r *Res) {
			rs, e := script.NewRedeemScript(2)
			for _, k := range ord {
				e2 := rs.AddPublicKey(xpubs[k], []uint32{uint32(i % 2), 3})
				r.Add(e2)
			}
			b := rs.GetRedeemScript()
			r.Add(e, b, rs.GetRedeemScriptHash(), rs.GetAddress())
			e = rs.AddPublicKey("xpubnonsense", nil)
			r.Add(rs, e)
		})
		add(fmt.Sprintf("electrum#%d", i), func(r *Res) {
			rs, e := script.NewRedeemScriptFromElectrum(electrum(2, ord...))
			r.Add(rs, e)
			if e == nil {
				r.Add(rs.GetRedeemScript(), rs.GetAddress())
			}
		})
	}
	add("bad multisig", func(r *Res) {
		_, e := script.NewRedeemScript(1)
		_, e2 := script.NewRedeemScript(17)
		_, e3 := script.NewRedeemScriptFromElectrum(electrum(2, 0, 1)[:100])
		r.Add(e, e2, e3)
	})
	add("NewP2PKHUnlockingScript", func(r *Res) {
		s, e := script.NewP2PKHUnlockingScript(pat(33, 1), pat(71, 2), 0x41)
		t, e2 := script.NewP2PKHUnlockingScript(pat(65, 1), pat(72, 2), 0xc3)
		r.Add(s, e, t, e2)
	})

	// transactions
	for v := 0; v < 8; v++ {
		v := v
		t := Tx(2, 2, v)
		add(fmt.Sprintf("parse+serialise v%d", v), func(r *Res) {
			b := t.Bytes()
			tx, err := transaction.NewFromBytes(b)
			r.Add(tx, err, b, tx.ToBytes(), tx.GetTxID(), tx.GetTotalOutputSatoshis(), tx.IsCoinbase())
		})
		add(fmt.Sprintf("sighash v%d", v), func(r *Res) {
			tx := Lib(t)
			for _, f := range []sighash.Flag{0x41, 0x43, 0xc2} {
				for i := 0; i < 2; i++ {
					h, err := tx.GetInputSignatureHash(uint32(i), f)
					r.Add(h, err)
				}
			}
			r.Add(tx)
		})
	}
	for _, f := range []sighash.Flag{0x41, 0x42, 0x43, 0xc1, 0xc3} {
		f := f
		add(fmt.Sprintf("sighash 3x1 flag %#x", int(f)), func(r *Res) {
			tx := Lib(Tx(3, 1, 0))
			h, err := tx.GetInputSignatureHash(2, f)
			h2, err2 := tx.GetInputSignatureHash(0, f)
			r.Add(h, err, h2, err2)
		})
	}
	add("sighash errors", func(r *Res) {
		tx := Lib(Tx(1, 1, 0))
		_, e := tx.GetInputSignatureHash(1, 0x41)
		tx.Inputs[0].PreviousTxScript = nil
		_, e2 := tx.GetInputSignatureHash(0, 0x41)
		tx.Inputs[0].PreviousTxID = ""
		_, e3 := tx.GetInputSignatureHash(0, 0x41)
		r.Add(e, e2, e3)
	})
	add("parse string", func(r *Res) {
		t := Tx(1, 2, 0)
		tx, err := transaction.NewFromString(hx(t.Bytes()))
		_, err2 := transaction.NewFromString(hx(t.Bytes())[2:])
		_, err3 := transaction.NewFromString("0")
		r.Add(tx, err, err2, err3, tx.ToString())
	})
	for c := 0; c < 2; c++ {
		c := c
		add(fmt.Sprintf("parse cut#%d", c), func(r *Res) {
			b := Tx(2, 1, 0).Bytes()
			_, err := transaction.NewFromBytes(b[:len(b)-1-60*c])
			_, n, err2 := input.NewFromBytes(b[5 : 5+30+10*c])
			_, n2, err3 := output.NewFromBytes(b[:3])
			if err2 != nil {
				n = 0
			}
			if err3 != nil {
				n2 = 0
			}
			r.Add(err, n, err2, n2, err3)
		})
		add(fmt.Sprintf("parse elements#%d", c), func(r *Res) {
			t := Tx(1, 1, 0)
			t.Outs[0].Script = pat(250+5*c, 3)
			in, n, e := input.NewFromBytes(t.Ins[0].Bytes())
			o, n2, e2 := output.NewFromBytes(t.Outs[0].Bytes())
			r.Add(in, n, e, o, n2, e2, in.ToBytes(false), in.ToBytes(true), o.ToBytes(), in.String(), o.String())
		})
	}
	add("cleared", func(r *Res) {
		tx := Lib(Tx(3, 2, 0))
		for i := 0; i < 3; i++ {
			r.Add(tx.ToBytesWithClearedInputs(i, pat(25, i)))
		}
		r.Add(tx)
	})
	for v := 0; v < 3; v++ {
		v := v
		add(fmt.Sprintf("build#%d", v), func(r *Res) {
			tx := transaction.New()
			e := tx.From(hx(pat(32, 1)), uint32(v), hx(ref.P2PKH(ref.Hash160(pubKey(0)))), 1000)
			e1 := tx.PayTo(ref.Address(pat(20, 50), v == 0), 300)
			in, e2 := input.NewFromUTXO(hx(pat(32, 2)), 1, 5, hx(ref.P2SH(pat(20, 1))), 9)
			tx.AddInput(in)
			o, e3 := output.NewOpReturn(pat(5, v))
			tx.AddOutput(o)
			if v == 2 {
				tx.AddInput(input.New())
			}
			e4 := tx.From("zz", 0, "zz", 0)
			e5 := tx.PayTo("bad", 1)
			r.Add(tx, e, e1, e2, e3, e4, e5, tx.ToBytes(), tx.GetTxID(), tx.InputCount(), tx.OutputCount(), tx.GetTotalOutputSatoshis())
		})
		big(fmt.Sprintf("sign#%d", v), func(r *Res) {
			tx := Lib(Tx(2, 2, 0))
			s := &signature.InternalSigner{PrivateKey: key(v % 2), SigHashFlag: []sighash.Flag{0x41, 0xc3, 0}[v]}
			e := tx.Sign(uint32(v%2), s)
			r.Add(tx, e, tx.Sign(7, s))
		})
		big(fmt.Sprintf("signauto#%d", v), func(r *Res) {
			tx := Lib(Tx(3, 2, v))
			s := &signature.InternalSigner{PrivateKey: key(v % 2), SigHashFlag: []sighash.Flag{0x41, 0xc2, 0}[v]}
			e := tx.SignAuto(s)
			r.Add(tx, e)
		})
	}
	add("apply unlocking", func(r *Res) {
		tx := Lib(Tx(2, 1, 0))
		r.Add(tx.ApplyUnlockingScript(1, ls(pat(9, 9))), tx.ApplyUnlockingScript(5, ls(nil)), tx)
	})
	add("coinbase tx", func(r *Res) {
		t := Tx(1, 1, 0)
		t.Ins[0].TxID, t.Ins[0].Vout = make([]byte, 32), 0xffffffff
		tx := Lib(t)
		r.Add(tx.IsCoinbase(), tx.GetTxID())
	})

	// block
	for i, n := range []int{1, 2, 3, 5, 8} {
		i, n := i, n
		add(fmt.Sprintf("merkle branches#%d", n), func(r *Res) {
			h := hashes(n, 10)
			b := block.GetMerkleBranches(h)
			r.Add(b, h)
			r.Add(block.BuildMerkleRootFromCoinbase(pat(32, 9), b))
		})
		add(fmt.Sprintf("merkle root#%d", i), func(r *Res) {
			s, e := block.MerkleRootFromBranches(hx(pat(32, 4)), i%4, hashes(2+i%2, 30))
			r.Add(s, e)
		})
	}
	add("merkle errors", func(r *Res) {
		_, e := block.MerkleRootFromBranches("zz", 0, nil)
		_, e2 := block.MerkleRootFromBranches(hx(pat(32, 4)), 9, hashes(1, 30))
		_, e3 := block.MerkleRootFromBranches(hx(pat(32, 4)), 1, []string{"x"})
		r.Add(e, e2, e3)
	})
	for i, h := range []uint32{0, 16, 17, 128, 700000, 0xffffffff} {
		i, h := i, h
		add(fmt.Sprintf("coinbase parts %d", h), func(r *Res) {
			wc := ""
			if i%2 == 1 {
				wc = hx(pat(38, 2))
			}
			c1, c2, e := block.GetCoinbaseParts(h, 50, wc, "/text/", ref.Address(pat(20, 50), true), pat(30*(i%3), 3))
			r.Add(c1, c2, e, block.BuildCoinbase(c1, c2, "0102", "030405060708090a0b0c"))
		})
	}
	add("coinbase bad wallet", func(r *Res) {
		_, _, e := block.GetCoinbaseParts(5, 50, "", "", "nope", nil)
		r.Add(e)
	})
	for i := 0; i < 2; i++ {
		i := i
		add(fmt.Sprintf("header#%d", i), func(r *Res) {
			m, t, b, n := pat(32, 1), pat(4, 2+i), pat(4, 3), pat(4, 4)
			r.Add(block.BuildBlockHeader(uint32(1+i), hx(pat(32, 8)), m, t, b, n), m, t, b, n)
		})
	}
	for _, b := range []string{"1d00ffff", "207fffff", "1804fdbf", "02008000", "zz", "00", "04923456"} {
		b := b
		add("bits "+b, func(r *Res) {
			n, e := block.ExpandTargetFromAsInt(b)
			if e == nil {
				r.Add(n.String())
				n.SetInt64(12345) // the caller's own value
			}
			s, e2 := block.ExpandTargetFrom(b)
			r.Add(e, e2)
			if e2 == nil && b != "04923456" {
				r.Add(s)
			}
			d, e3 := block.DifficultyFromBits(b)
			if b != "04923456" {
				r.Add(d)
			}
			r.Add(e3)
		})
	}
	for _, c := range []string{"BSV", "RSV"} {
		c := c
		add("hashrate "+c, func(r *Res) { r.Add(block.DifficultyToHashrate(c, 22000, 600), block.DifficultyToHashrate(c, 7, 150)) })
	}
	return l
}

// ---- read-only calls on one shared value ---------------------------------------

// Shared holds the values which both threads read.
type Shared struct {
	Tx     *transaction.Transaction
	Script *script.Script
	Multi  *script.Script
	Asm    *script.Script
	In     *input.Input
	Out    *output.Output
	Priv   *bsvec.PrivateKey
	Block  cipher.Block
	Buf    []byte
	Text   []byte
	Hashes []string
	Parts  [][]byte
	Signer *signature.InternalSigner
}

// NewShared builds a fresh set of shared values.
func NewShared() *Shared {
	tx := Lib(Tx(2, 2, 0))
	k1 := keyOne
	c := aesOf(16)
	ct := append(pat(16, 1), pat(24, 2)...)
	return &Shared{Tx: tx, Script: ls(ref.P2PKH(pat(20, 1))), Multi: ls(ref.MultisigScript(1, [][]byte{k1, k1})), Asm: ls([]byte{0x51, 2, 1, 2, 0x87, 1, 9}),
		In: tx.Inputs[0], Out: tx.Outputs[1], Priv: key(0), Block: c, Buf: Tx(2, 2, 0).Bytes(), Text: ct, Hashes: hashes(5, 10),
		Parts: [][]byte{pat(3, 1), pat(80, 2)}, Signer: &signature.InternalSigner{PrivateKey: key(0), SigHashFlag: 0x41}}
}

// SharedOp is a call which only reads the shared values.
type SharedOp struct {
	Name string
	Run  func(s *Shared, r *Res)
}

// Do runs it.
func (o *SharedOp) Do(s *Shared) (r *Res) {
	r = &Res{}
	done := false
	defer func() {
		if !done {
			fmt.Fprintf(&r.plain, "panic: %v ", recover())
		}
	}()
	o.Run(s, r)
	done = true
	return
}

// AllShared lists them.
func AllShared() []SharedOp {
	var l []SharedOp
	add := func(name string, f func(s *Shared, r *Res)) { l = append(l, SharedOp{name, f}) }
	add("Tx.ToBytes", func(s *Shared, r *Res) { r.Add(s.Tx.ToBytes()) })
	add("Tx.ToString", func(s *Shared, r *Res) { r.Add(s.Tx.ToString()) })
	add("Tx.GetTxID", func(s *Shared, r *Res) { r.Add(s.Tx.GetTxID()) })
	add("Tx.cleared", func(s *Shared, r *Res) { r.Add(s.Tx.ToBytesWithClearedInputs(1, *s.Script)) })
	add("Tx.counts", func(s *Shared, r *Res) {
		r.Add(s.Tx.InputCount(), s.Tx.OutputCount(), s.Tx.GetTotalOutputSatoshis(), s.Tx.IsCoinbase(), len(s.Tx.GetInputs()), len(s.Tx.GetOutputs()))
	})
	for _, f := range []sighash.Flag{0x41, 0x43, 0xc2} {
		f := f
		add(fmt.Sprintf("Tx.sighash %#x", int(f)), func(s *Shared, r *Res) {
			h, e := s.Tx.GetInputSignatureHash(0, f)
			r.Add(h, e)
		})
	}
	add("Tx.sighash 1", func(s *Shared, r *Res) {
		h, e := s.Tx.GetInputSignatureHash(1, 0x41)
		r.Add(h, e)
	})
	add("In.ToBytes", func(s *Shared, r *Res) { r.Add(s.In.ToBytes(false), s.In.ToBytes(true)) })
	add("In.String", func(s *Shared, r *Res) { r.Add(s.In.String()) })
	add("Out.ToBytes", func(s *Shared, r *Res) { r.Add(s.Out.ToBytes(), s.Out.GetBytesForSigHash()) })
	add("Out.String", func(s *Shared, r *Res) { r.Add(s.Out.String(), s.Out.GetLockingScriptHexString()) })
	add("Script.classify", func(s *Shared, r *Res) {
		for _, c := range []*script.Script{s.Script, s.Multi, s.Asm} {
			r.Add(c.IsP2PKH(), c.IsP2PK(), c.IsP2SH(), c.IsData(), c.IsMultisigOut())
		}
		h, e := s.Script.GetPublicKeyHash()
		r.Add(append([]byte{}, h...), e)
	})
	add("Script.ToASM", func(s *Shared, r *Res) {
		t, e := s.Asm.ToASM()
		r.Add(t, e, s.Asm.ToString())
	})
	add("DecodeParts", func(s *Shared, r *Res) {
		p, e := script.DecodeParts(*s.Asm)
		var w strings.Builder
		dump(&w, p)
		r.Add(w.String(), e)
	})
	add("push shared data", func(s *Shared, r *Res) {
		t := &script.Script{}
		e := t.AppendPushDataArray(s.Parts)
		r.Add(t, e)
	})
	add("outputs from shared data", func(s *Shared, r *Res) {
		o, e := output.NewOpReturnParts(s.Parts)
		r.Add(o, e)
	})
	add("parse shared bytes", func(s *Shared, r *Res) {
		tx, e := transaction.NewFromBytes(s.Buf)
		r.Add(tx, e)
	})
	add("address from shared key", func(s *Shared, r *Res) {
		a, e := address.NewFromPublicKey(s.Priv.PubKey(), true)
		r.Add(a, e)
	})
	add("sign with shared signer", func(s *Shared, r *Res) {
		tx := Lib(Tx(1, 1, 0))
		e := tx.Sign(0, s.Signer)
		r.Add(tx, e)
	})
	add("signauto with shared signer", func(s *Shared, r *Res) {
		tx := Lib(Tx(2, 1, 1))
		e := tx.SignAuto(s.Signer)
		r.Add(tx, e)
	})
	add("decrypt shared text", func(s *Shared, r *Res) {
		d, e := crypto.Decrypt(s.Block, s.Text)
		if e != nil {
			d = nil
		}
		r.Add(d, e)
	})
	add("encrypt with shared block", func(s *Shared, r *Res) {
		ct, e := crypto.Encrypt(s.Block, s.Buf)
		d, e2 := crypto.Decrypt(s.Block, ct)
		r.Add(bytes.Equal(d, s.Buf), e, e2)
	})
	add("hash shared bytes", func(s *Shared, r *Res) {
		r.Add(crypto.Sha256d(s.Buf), crypto.Hash160(s.Buf), utils.ReverseBytes(s.Buf))
	})
	add("merkle shared hashes", func(s *Shared, r *Res) {
		b := block.GetMerkleBranches(s.Hashes)
		r.Add(b)
		x, e := block.MerkleRootFromBranches(s.Hashes[0], 1, s.Hashes[1:3])
		r.Add(x, e, block.BuildMerkleRootFromCoinbase(s.Buf[:32], s.Hashes))
	})
	add("header of shared bytes", func(s *Shared, r *Res) {
		r.Add(block.BuildBlockHeader(1, s.Hashes[0], s.Buf[:32], s.Buf[:4], s.Buf[4:8], s.Buf[8:12]))
	})
	return l
}
