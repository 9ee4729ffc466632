package ops

import (
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"fmt"
	"math"

	"github.com/bitcoinsv/bsvd/bsvec"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"github.com/libsv/libsv/utils"

	"verif/mc/ref"
)

// Group is one function of the library together with a set of argument tuples
// which differ from each other in one or two places ("twins"): what a memo with
// a lossy key, a table indexed by part of the argument, or a comparison of
// pointers would confuse.
type Group struct {
	Name, Prop string
	Args       [][][]byte // per argument, its values; the first is the base value
	Run        func(a *Arena, r *Res)
}

// Arena holds the arguments of one call. When it is reused, the next call sees
// other contents at the same addresses.
type Arena struct {
	B    [][]byte
	back [][]byte
	strs []string
}

// Set loads a tuple.
func (a *Arena) Set(tuple [][]byte) {
	for len(a.back) < len(tuple) {
		a.back = append(a.back, nil)
		a.B = append(a.B, nil)
	}
	for i, v := range tuple {
		if a.back[i] == nil {
			a.back[i] = make([]byte, 0, 700)
		}
		if cap(a.back[i]) < len(v) {
			panic("twin argument too long")
		}
		a.B[i] = append(a.back[i][:0], v...)
	}
}

// N is a numeric argument.
func (a *Arena) N(i int) uint64 { return binary.BigEndian.Uint64(a.B[i]) }

// Hex is an argument in hex.
func (a *Arena) Hex(i int) string { return hx(a.B[i]) }

// S is an argument as text.
func (a *Arena) S(i int) string { return string(a.B[i]) }

// Split cuts an argument in pieces, in hex, in a slice which is reused.
func (a *Arena) Split(i, n int) []string {
	a.strs = a.strs[:0]
	for b := a.B[i]; len(b) > 0; {
		k := min(n, len(b))
		a.strs = append(a.strs, hx(b[:k]))
		b = b[k:]
	}
	return a.strs
}

// Variants is the number of tuples of the group: the base and every change of
// one argument.
func (g *Group) Variants() int {
	n := 1
	for _, a := range g.Args {
		n += len(a) - 1
	}
	return n
}

// Tuple is one of them.
func (g *Group) Tuple(v int) [][]byte {
	t := make([][]byte, len(g.Args))
	for i, a := range g.Args {
		t[i] = a[0]
	}
	v--
	for i, a := range g.Args {
		if v >= 0 && v < len(a)-1 {
			t[i] = a[v+1]
		}
		v -= len(a) - 1
	}
	return t
}

// Call runs the function on the arena's tuple; a panic is a result too.
func (g *Group) Call(a *Arena) (r *Res) {
	r = &Res{}
	done := false
	defer func() {
		if !done {
			fmt.Fprintf(&r.plain, "panic: %v ", recover())
		}
	}()
	g.Run(a, r)
	done = true
	return
}

// ok records the error, and the values only without one.
func (r *Res) ok(err error, vs ...interface{}) bool {
	r.Add(err != nil)
	if err == nil {
		r.Add(vs...)
	}
	return err == nil
}

// bytesArg varies a byte string.
func bytesArg(b []byte) [][]byte {
	n := len(b)
	r := [][]byte{append([]byte{}, b...)}
	done := map[int]bool{}
	for _, p := range []int{0, 1, 4, 8, n / 4, n / 2, 3 * n / 4, n - 5, n - 2, n - 1} {
		if p >= 0 && p < n && !done[p] {
			done[p] = true
			c := append([]byte{}, b...)
			c[p] ^= 1
			r = append(r, c)
		}
	}
	if n > 1 {
		r = append(r, append(append([]byte{}, b[n/2:]...), b[:n/2]...), append([]byte{}, b[:n-1]...))
	}
	return append(r, append(append([]byte{}, b...), 0), append([]byte{0}, b...))
}

// fixArg varies a byte string without changing its length.
func fixArg(b []byte) [][]byte {
	r := bytesArg(b)
	k := r[:0]
	for _, v := range r {
		if len(v) == len(b) {
			k = append(k, v)
		}
	}
	return k
}

func numArg(vs ...uint64) [][]byte {
	var r [][]byte
	for _, v := range vs {
		r = append(r, binary.BigEndian.AppendUint64(nil, v))
	}
	return r
}

func lit(vs ...string) [][]byte {
	var r [][]byte
	for _, v := range vs {
		r = append(r, []byte(v))
	}
	return r
}

var satsArg = numArg(5000, 5001, 5256, 0, 1<<32+5000, 1<<63+5000)

func aesKey(k []byte) cipher.Block {
	b, err := aes.NewCipher(k)
	if err != nil {
		panic(err)
	}
	return b
}

// Groups lists them; the same in every process.
func Groups() []Group {
	var l []Group
	add := func(prop, name string, run func(a *Arena, r *Res), args ...[][]byte) {
		l = append(l, Group{Name: name, Prop: prop, Args: args, Run: run})
	}
	txb := Tx(2, 2, 0).Bytes()

	add("C01", "NewFromBytes", func(a *Arena, r *Res) {
		tx, err := transaction.NewFromBytes(a.B[0])
		if r.ok(err) {
			r.Add(tx.ToBytes(), tx.GetTxID(), tx.ToString())
		}
	}, fixArg(txb))
	add("C01", "NewFromString", func(a *Arena, r *Res) {
		tx, err := transaction.NewFromString(a.Hex(0))
		if r.ok(err) {
			r.Add(tx, tx.ToBytes(), tx.GetTxID())
		}
	}, bytesArg(txb))
	t0 := Tx(2, 2, 0)
	add("C02", "input.NewFromBytes", func(a *Arena, r *Res) {
		in, n, err := input.NewFromBytes(a.B[0])
		if r.ok(err, n) {
			r.Add(in.ToBytes(false), in.ToBytes(true), in.PreviousTxID, in.String())
		}
	}, bytesArg(t0.Ins[0].Bytes()))
	add("C02", "output.NewFromBytes", func(a *Arena, r *Res) {
		o, n, err := output.NewFromBytes(a.B[0])
		if r.ok(err, n) {
			r.Add(o.ToBytes(), o.Satoshis, o.GetLockingScriptHexString(), o.GetBytesForSigHash(), o.String())
		}
	}, bytesArg(t0.Outs[0].Bytes()))
	add("C03", "VarInt", func(a *Arena, r *Res) { r.Add(utils.VarInt(a.N(0))) },
		numArg(0, 1, 0xfc, 0xfd, 0xfe, 0x1fd, 0xffff, 0x10000, 0x10001, 0x100fd, 0xffffffff, 1<<32, 1<<32+0xfd, 1<<32+1, 1<<63, 1<<64-1, 0x0102030405060708, 0x0802030405060701))
	add("C03", "DecodeVarInt", func(a *Arena, r *Res) {
		v, n := utils.DecodeVarInt(a.B[0])
		r.Add(v, n)
	}, append(bytesArg([]byte{0xff, 1, 2, 3, 4, 5, 6, 7, 8}), append(bytesArg([]byte{0xfd, 3, 4}), bytesArg([]byte{0xfe, 3, 4, 5, 6})...)...))

	add("C04", "digest", func(a *Arena, r *Res) {
		h, err := Lib(Tx(3, 2, 0)).GetInputSignatureHash(uint32(a.N(0)), sighash.Flag(a.N(1)))
		r.ok(err, h)
	}, numArg(0, 1, 2, 3, 256, 1<<31, 1<<32-1), numArg(0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 0x40, 0x44, 0x5f, 0x61, 0xe1))
	add("C04", "digest.inputs", func(a *Arena, r *Res) {
		t := Tx(2, 2, 0)
		copy(t.Ins[0].TxID, a.B[0])
		t.Ins[1].Prev = append([]byte{}, a.B[1]...)
		t.Outs[1].Script = append([]byte{}, a.B[2]...)
		tx := Lib(t)
		for _, f := range []sighash.Flag{0x41, 0x43, 0xc3} {
			h, err := tx.GetInputSignatureHash(1, f)
			r.ok(err, h)
		}
	}, fixArg(pat(32, 100)), bytesArg(ref.P2PKH(pat(20, 5))), bytesArg(ref.P2PKH(pat(20, 6))))
	add("C05", "NewP2PKHUnlockingScript", func(a *Arena, r *Res) {
		s, err := script.NewP2PKHUnlockingScript(a.B[0], a.B[1], sighash.Flag(a.N(2)))
		r.ok(err, s)
	}, bytesArg(pat(33, 1)), bytesArg(pat(71, 2)), numArg(0x41, 0x42, 0xc1, 0xc3, 0x43))
	add("C05", "Sign", func(a *Arena, r *Res) {
		tx := Lib(Tx(3, 1, int(a.N(3))))
		k, _ := bsvec.PrivKeyFromBytes(bsvec.S256(), a.B[0])
		s := &signature.InternalSigner{PrivateKey: k, SigHashFlag: sighash.Flag(a.N(2))}
		err := tx.Sign(uint32(a.N(1)), s)
		r.ok(err, tx)
	}, [][]byte{ref.Sha256([]byte{0, 7}), ref.Sha256([]byte{1, 7}), append(pat(31, 3), 1)}, numArg(0, 1, 2, 3), numArg(0x41, 0, 0xc3, 0x42), numArg(0, 1, 2, 3, 5, 6, 7))
	add("C06", "SignAuto", func(a *Arena, r *Res) {
		tx := Lib(Tx(3, 1, int(a.N(2))))
		k, _ := bsvec.PrivKeyFromBytes(bsvec.S256(), a.B[0])
		s := &signature.InternalSigner{PrivateKey: k, SigHashFlag: sighash.Flag(a.N(1))}
		err := tx.SignAuto(s)
		r.ok(err, tx)
	}, [][]byte{ref.Sha256([]byte{0, 7}), ref.Sha256([]byte{1, 7}), append(pat(31, 3), 1)}, numArg(0x41, 0, 0xc3, 0x42), numArg(0, 1, 2, 3, 5, 6, 7))

	add("C07", "From", func(a *Arena, r *Res) {
		tx := transaction.New()
		if r.ok(tx.From(a.Hex(0), uint32(a.N(1)), a.Hex(2), a.N(3))) {
			r.Add(tx, tx.ToBytes(), tx.InputCount())
		}
	}, fixArg(pat(32, 7)), numArg(0, 1, 256, 1<<31), bytesArg(ref.P2PKH(pat(20, 4))), satsArg)
	add("C07", "PayTo", func(a *Arena, r *Res) {
		tx := transaction.New()
		if r.ok(tx.PayTo(ref.Address(a.B[0], a.N(1) == 0), a.N(2))) {
			r.Add(tx, tx.ToBytes(), tx.GetTotalOutputSatoshis())
		}
	}, fixArg(pat(20, 7)), numArg(0, 1), satsArg)
	add("C07", "NewFromUTXO", func(a *Arena, r *Res) {
		in, err := input.NewFromUTXO(a.Hex(0), uint32(a.N(1)), a.N(3), a.Hex(2), uint32(a.N(4)))
		r.ok(err, in)
	}, fixArg(pat(32, 7)), numArg(0, 1, 256, 1<<31), bytesArg(ref.P2PKH(pat(20, 4))), satsArg, numArg(0, 1, 256, 1<<32-1))

	add("C08", "parse then change the bytes", func(a *Arena, r *Res) {
		tx, err := transaction.NewFromBytes(a.B[0])
		in, _, err2 := input.NewFromBytes(a.B[0][5:])
		for i := range a.B[0] {
			a.B[0][i] ^= 0x55
		}
		if r.ok(err) {
			r.Add(tx, tx.ToBytes())
		}
		r.ok(err2, in)
	}, fixArg(txb))

	add("C09", "GetPushDataPrefix", func(a *Arena, r *Res) { p, err := script.GetPushDataPrefix(a.B[0]); r.ok(err, p) },
		append(append(bytesArg(pat(75, 1)), bytesArg(pat(255, 2))...), nil, pat(1, 1), pat(300, 3), pat(511, 3), pat(512, 3)))
	add("C09", "AppendPushData", func(a *Arena, r *Res) {
		s := script.Script(append([]byte{}, a.B[0]...))
		r.ok(s.AppendPushData(a.B[1]), &s)
	}, bytesArg([]byte{0x51, 0x52}), append(bytesArg(pat(76, 1)), nil, pat(1, 1), pat(255, 1), pat(256, 1)))
	add("C09", "AppendPushDataHexString", func(a *Arena, r *Res) {
		s := script.Script{}
		e := s.AppendPushDataHexString(a.Hex(0))
		r.ok(e, &s)
	}, bytesArg(pat(20, 1)))
	add("C09", "AppendPushDataString", func(a *Arena, r *Res) {
		s := script.Script{}
		e := s.AppendPushDataString(a.S(0))
		r.ok(e, &s)
	}, bytesArg([]byte("hello push data")))
	add("C09", "EncodeParts", func(a *Arena, r *Res) {
		b, e := script.EncodeParts(a.B)
		r.ok(e, b)
		s := script.Script{}
		r.ok(s.AppendPushDataArray(a.B), &s)
		s2 := script.Script{}
		r.ok(s2.AppendPushDataStrings([]string{a.S(0), a.S(1), a.S(2)}), &s2)
	}, bytesArg(pat(3, 1)), bytesArg(pat(20, 2)), bytesArg(pat(80, 3)))
	mix := append(append(append(ref.Push(pat(5, 1)), 0x76), ref.Push(pat(80, 2))...), 0xac)
	add("C10", "DecodeParts", func(a *Arena, r *Res) { p, e := script.DecodeParts(a.B[0]); r.ok(e, p) }, bytesArg(mix))
	add("C10", "DecodeParts.p2pkh", func(a *Arena, r *Res) { p, e := script.DecodeParts(a.B[0]); r.ok(e, p) }, bytesArg(ref.P2PKH(pat(20, 3))))
	add("C10", "DecodeStringParts", func(a *Arena, r *Res) { p, e := script.DecodeStringParts(a.Hex(0)); r.ok(e, p) }, bytesArg(mix))
	add("C10", "NewFromHexString", func(a *Arena, r *Res) {
		s, e := script.NewFromHexString(a.Hex(0))
		if r.ok(e, s) {
			r.Add(s.ToString())
		}
	}, bytesArg(mix))
	add("C11", "ToASM", func(a *Arena, r *Res) {
		s := script.Script(a.B[0])
		t, e := s.ToASM()
		r.ok(e, t)
	}, bytesArg(mix))
	add("C11", "ToASM.opcodes", func(a *Arena, r *Res) {
		s := script.Script(a.B[0])
		t, e := s.ToASM()
		r.ok(e, t)
	}, bytesArg([]byte{0x51, 0x60, 0x61, 0x76, 0x87, 0x88, 0xa9, 0xac, 0xae, 0xba}))
	add("C11", "NewFromASM", func(a *Arena, r *Res) {
		s, e := script.NewFromASM("OP_DUP " + a.Hex(0) + " " + a.S(1) + " " + a.Hex(2))
		r.ok(e, s)
	}, bytesArg(pat(20, 1)), lit("OP_EQUAL", "OP_EQUALVERIFY", "OP_1", "OP_16", "OP_0", "OP_TRUE", "OP_NOP1", "OP_NOP10", "ff"), bytesArg(pat(5, 2)))
	for i, b := range [][]byte{ref.P2PKH(pat(20, 1)), ref.P2SH(pat(20, 1)), append(ref.Push(keyOne), 0xac), ref.MultisigScript(1, [][]byte{keyOne, keyOne}), {0, 0x6a, 3, 1, 2, 3}, {0x6a, 3, 1, 2, 3}} {
		add("C12", fmt.Sprintf("classify#%d", i), func(a *Arena, r *Res) {
			s := script.Script(a.B[0])
			r.Add(s.IsP2PKH(), s.IsP2PK(), s.IsP2SH(), s.IsData(), s.IsMultisigOut())
			h, e := s.GetPublicKeyHash()
			if s.IsP2PKH() || len(s) < 3 || s[0] != 0x76 {
				r.ok(e, append([]byte{}, h...))
			}
		}, bytesArg(b))
	}
	add("C13", "NewP2PKHFromPubKeyHashStr", func(a *Arena, r *Res) { s, e := script.NewP2PKHFromPubKeyHashStr(a.Hex(0)); r.ok(e, s) }, bytesArg(pat(20, 1)))
	add("C13", "NewP2PKHFromPubKeyBytes", func(a *Arena, r *Res) { s, e := script.NewP2PKHFromPubKeyBytes(a.B[0]); r.ok(e, s) }, bytesArg(pubKey(0)))
	add("C13", "NewP2PKHFromPubKeyStr", func(a *Arena, r *Res) { s, e := script.NewP2PKHFromPubKeyStr(a.Hex(0)); r.ok(e, s) }, bytesArg(pubKey(0)))
	add("C13", "NewP2PKHFromAddress", func(a *Arena, r *Res) {
		s, e := script.NewP2PKHFromAddress(ref.Address(a.B[0], a.N(1) == 0))
		r.ok(e, s)
	}, fixArg(pat(20, 1)), numArg(0, 1))
	add("C13", "NewP2PkhFromPubKeyHash", func(a *Arena, r *Res) {
		o, e := output.NewP2PkhFromPubKeyHash(a.Hex(0), a.N(1))
		r.ok(e, o)
	}, bytesArg(pat(20, 1)), satsArg)
	add("C13", "output.NewP2PKHFromAddress", func(a *Arena, r *Res) {
		o, e := output.NewP2PKHFromAddress(ref.Address(a.B[0], a.N(1) == 0), a.N(2))
		r.ok(e, o)
	}, fixArg(pat(20, 1)), numArg(0, 1), satsArg)
	add("C13", "NewHashPuzzle", func(a *Arena, r *Res) {
		o, e := output.NewHashPuzzle(a.S(0), a.Hex(1), a.N(2))
		r.ok(e, o)
	}, bytesArg([]byte("a rather long secret text")), fixArg(pat(20, 1)), satsArg)
	add("C13", "NewOpReturn", func(a *Arena, r *Res) { o, e := output.NewOpReturn(a.B[0]); r.ok(e, o) }, bytesArg(pat(80, 1)))
	add("C13", "NewOpReturnParts", func(a *Arena, r *Res) { o, e := output.NewOpReturnParts(a.B); r.ok(e, o) }, bytesArg(pat(4, 1)), bytesArg(pat(20, 2)), bytesArg(pat(80, 3)))

	add("C14", "NewFromPublicKeyHash", func(a *Arena, r *Res) {
		d, e := address.NewFromPublicKeyHash(a.B[0], a.N(1) == 0)
		r.ok(e, d)
	}, fixArg(pat(20, 1)), numArg(0, 1))
	add("C14", "NewFromPublicKeyString", func(a *Arena, r *Res) {
		d, e := address.NewFromPublicKeyString(a.Hex(0), a.N(1) == 0)
		r.ok(e, d)
	}, bytesArg(pubKey(0)), numArg(0, 1))
	add("C14", "NewFromPublicKey", func(a *Arena, r *Res) {
		p, e := bsvec.ParsePubKey(a.B[0], bsvec.S256())
		if e != nil {
			return
		}
		d, e := address.NewFromPublicKey(p, a.N(1) == 0)
		r.ok(e, d)
	}, [][]byte{pubKey(0), pubKey(1), append([]byte{pubKey(0)[0] ^ 1}, pubKey(0)[1:]...), keyOne}, numArg(0, 1))
	add("C14", "NewFromString", func(a *Arena, r *Res) {
		d, e := address.NewFromString(ref.Address(a.B[0], a.N(1) == 0))
		r.ok(e, d)
	}, fixArg(pat(20, 1)), numArg(0, 1))
	add("C14", "Base58EncodeMissingChecksum", func(a *Arena, r *Res) { r.Add(address.Base58EncodeMissingChecksum(a.B[0])) }, bytesArg(pat(21, 1)))
	good := ref.Address(pat(20, 50), true)
	other := ref.Address(pat(20, 51), true)
	var texts []string
	for _, g := range []string{good, other, ref.Address(pat(20, 50), false)} {
		texts = append(texts, g)
		for _, p := range []int{0, 1, 5, len(g) / 2, len(g) - 2, len(g) - 1} {
			c := byte('2')
			if g[p] == c {
				c = '3'
			}
			texts = append(texts, g[:p]+string(c)+g[p+1:])
		}
		texts = append(texts, g[:len(g)-1], g+"1", g+g[len(g)-1:], "1"+g, g[:len(g)-5]+other[len(other)-5:], good[:8]+other[8:], " "+g, g+" ")
	}
	add("C15", "ValidateAddress", func(a *Arena, r *Res) { ok, e := address.ValidateAddress(a.S(0)); r.Add(ok, e != nil) }, lit(texts...))
	add("C15", "NewFromString.texts", func(a *Arena, r *Res) {
		d, e := address.NewFromString(a.S(0))
		r.ok(e, d)
		s, e := script.NewP2PKHFromAddress(a.S(0))
		r.ok(e, s)
	}, lit(texts...))
	add("C15", "Validate then use", func(a *Arena, r *Res) {
		ok, _ := address.ValidateAddress(a.S(0))
		d, e := address.NewFromString(a.S(1))
		r.Add(ok)
		r.ok(e, d)
		o, e := output.NewP2PKHFromAddress(a.S(1), 7)
		r.ok(e, o)
	}, lit(texts[:10]...), lit(texts[:10]...))

	add("C16", "EncodeBIP276", func(a *Arena, r *Res) {
		r.Add(address.EncodeBIP276(a.S(0), int(a.N(1)), int(a.N(2)), a.B[3]))
	}, lit("bitcoin-script", "bitcoin-template", "bitcoin-scripu", "citcoin-script"), numArg(1, 2, 3, 16, 255), numArg(1, 2, 3, 16, 255), bytesArg(pat(25, 1)))
	add("C16", "DecodeBIP276", func(a *Arena, r *Res) {
		p, v, n, d, e := address.DecodeBIP276(ref.BIP276(a.S(0), int(a.N(1)), int(a.N(2)), a.B[3]))
		r.ok(e, p, v, n, d)
	}, lit("bitcoin-script", "bitcoin-template", "bitcoin-scripu", "citcoin-script"), numArg(1, 2, 3, 16, 255), numArg(1, 2, 3, 16, 255), bytesArg(pat(25, 1)))
	bt := ref.BIP276("bitcoin-script", 1, 1, pat(25, 1))
	var bts []string
	for _, p := range []int{0, 5, 14, 15, 16, 17, 18, 19, 30, len(bt) - 9, len(bt) - 8, len(bt) - 1} {
		bts = append(bts, bt[:p]+string(bt[p]^1)+bt[p+1:])
	}
	add("C16", "DecodeBIP276.texts", func(a *Arena, r *Res) {
		p, v, n, d, e := address.DecodeBIP276(a.S(0))
		r.ok(e, p, v, n, d)
	}, lit(append([]string{bt, bt[:len(bt)-2], bt[:len(bt)-8], bt + "00", ref.BIP276("bitcoin-script", 1, 1, pat(25, 2))}, bts...)...))

	add("C17", "multisig", func(a *Arena, r *Res) {
		rs, e := script.NewRedeemScript(int(a.N(0)))
		if !r.ok(e) {
			return
		}
		for i := 1; i <= 3; i++ {
			r.ok(rs.AddPublicKey(xpubs[a.N(i)], []uint32{uint32(a.N(3 + i)), uint32(a.N(7))}))
		}
		r.Add(rs, rs.GetRedeemScript(), rs.GetRedeemScriptHash(), rs.GetAddress())
	}, numArg(2, 3, 1), numArg(0, 1, 2), numArg(1, 2, 0), numArg(2, 0, 1), numArg(0, 1, 256, 65536), numArg(0, 1, 256, 65536), numArg(0, 1), numArg(5, 6, 261))
	add("C18", "electrum", func(a *Arena, r *Res) {
		s := []byte{byte(0x50 + a.N(0))}
		for i := 1; i <= 3; i++ {
			raw, _ := ref.B58Decode(xpubs[a.N(i)])
			raw = append(append([]byte{0xff}, raw[:78]...), byte(a.N(4)), 0, byte(a.N(5)), 0)
			s = append(s, ref.Push(raw)...)
		}
		rs, e := script.NewRedeemScriptFromElectrum(hx(append(s, 0x53, 0xae)))
		if r.ok(e) {
			r.Add(rs, rs.GetRedeemScript(), rs.GetAddress())
		}
	}, numArg(2, 3), numArg(0, 1, 2), numArg(1, 2, 0), numArg(2, 0, 1), numArg(0, 1, 5), numArg(0, 1, 5))

	add("C19", "GetMerkleBranches", func(a *Arena, r *Res) { r.Add(block.GetMerkleBranches(a.Split(0, 32))) }, append(fixArg(pat(160, 1)), pat(128, 1), pat(192, 1), pat(32, 1), nil, pat(320, 1)))
	add("C19", "BuildMerkleRootFromCoinbase", func(a *Arena, r *Res) {
		r.Add(block.BuildMerkleRootFromCoinbase(a.B[0], a.Split(1, 32)))
	}, fixArg(pat(32, 2)), append(fixArg(pat(96, 1)), pat(64, 1), pat(32, 1), nil))
	add("C20", "MerkleRootFromBranches", func(a *Arena, r *Res) {
		s, e := block.MerkleRootFromBranches(a.Hex(0), int(a.N(1)), a.Split(2, 32))
		r.ok(e, s)
	}, fixArg(pat(32, 2)), numArg(5, 0, 1, 2, 3, 4, 6, 7, 8, 13), append(fixArg(pat(96, 1)), pat(64, 1), pat(128, 1)))
	add("C21", "GetCoinbaseParts", func(a *Arena, r *Res) {
		c1, c2, e := block.GetCoinbaseParts(uint32(a.N(0)), a.N(1), a.Hex(2), a.S(3), ref.Address(a.B[4], a.N(5) == 0), a.B[6])
		r.ok(e, c1, c2)
	}, numArg(300, 301, 556, 16, 17, 65836, 16777516, 255, 256), satsArg, append(fixArg(pat(38, 2)), nil), bytesArg([]byte("/a text/")), fixArg(pat(20, 3)), numArg(0, 1), append(bytesArg(pat(30, 3)), nil))
	add("C21", "BuildCoinbase", func(a *Arena, r *Res) {
		r.Add(block.BuildCoinbase(a.B[0], a.B[1], a.Hex(2), a.Hex(3)))
	}, bytesArg(pat(50, 1)), bytesArg(pat(60, 2)), bytesArg(pat(4, 3)), bytesArg(pat(8, 4)))
	add("C22", "BuildBlockHeader", func(a *Arena, r *Res) {
		r.Add(block.BuildBlockHeader(uint32(a.N(0)), a.Hex(1), a.B[2], a.B[3], a.B[4], a.B[5]))
	}, numArg(1, 2, 257, 0x20000000, 1<<32-1), fixArg(pat(32, 1)), fixArg(pat(32, 2)), fixArg(pat(4, 3)), fixArg(pat(4, 4)), fixArg(pat(4, 5)))
	add("C23", "bits", func(a *Arena, r *Res) {
		b := a.Hex(0)
		n, e := block.ExpandTargetFromAsInt(b)
		if r.ok(e) {
			r.Add(n.String())
			n.SetInt64(12345)
		}
		s, e := block.ExpandTargetFrom(b)
		r.ok(e, s)
		d, e := block.DifficultyFromBits(b)
		r.ok(e, d)
	}, [][]byte{{0x1d, 0, 0xff, 0xff}, {0x1c, 0, 0xff, 0xff}, {0x1d, 1, 0xff, 0xff}, {0x1d, 0, 0xfe, 0xff}, {0x1d, 0, 0xff, 0xfe}, {0x0d, 0, 0xff, 0xff}, {0x1d, 0x7f, 0xff, 0xff}, {0x18, 0x04, 0xfd, 0xbf}, {0x18, 0x04, 0xfd, 0xbe}, {0x20, 0x7f, 0xff, 0xff}, {0x03, 0, 0xff, 0xff}, {0x1d, 0xff, 0xff, 0}, {0, 0xff, 0xff, 0x1d}})
	add("C24", "DifficultyToHashrate", func(a *Arena, r *Res) {
		r.Add(block.DifficultyToHashrate(a.S(0), a.N(1), math.Float64frombits(a.N(2))))
	}, lit("BSV", "RSV", "BCH", "RTC", "B", "RSVB"), numArg(22000, 22001, 1, 22256, 1<<40), numArg(math.Float64bits(600), math.Float64bits(601), math.Float64bits(600.5), math.Float64bits(1), math.Float64bits(60000)))
	add("C24", "HumanHash", func(a *Arena, r *Res) { r.Add(utils.HumanHash(math.Float64frombits(a.N(0)))) },
		numArg(math.Float64bits(1e9), math.Float64bits(1e9+1), math.Float64bits(1.5e9), math.Float64bits(1e12), math.Float64bits(1), math.Float64bits(1e15+1e13), math.Float64bits(999.99), math.Float64bits(1e18), math.Float64bits(1e21)))
	add("C25", "Decrypt", func(a *Arena, r *Res) {
		d, e := crypto.Decrypt(aesKey(a.B[0]), a.B[1])
		r.ok(e, d)
	}, fixArg(pat(16, 1)), bytesArg(pat(60, 2)))
	add("C25", "Encrypt", func(a *Arena, r *Res) {
		c := aesKey(a.B[0])
		ct, e := crypto.Encrypt(c, a.B[1])
		if r.ok(e, len(ct)) {
			d, e := crypto.Decrypt(c, ct)
			r.ok(e, d)
		}
		r.Add(a.S(1))
	}, fixArg(pat(16, 1)), bytesArg(pat(40, 2)))
	for _, n := range []int{32, 33, 80} {
		add("C28", fmt.Sprintf("hashes(%d)", n), func(a *Arena, r *Res) {
			r.Add(crypto.Sha256(a.B[0]), crypto.Sha256d(a.B[0]), crypto.Ripemd160(a.B[0]), crypto.Hash160(a.B[0]))
		}, bytesArg(pat(n, 1)))
		add("C29", fmt.Sprintf("ReverseBytes(%d)", n), func(a *Arena, r *Res) {
			r.Add(utils.ReverseBytes(a.B[0]), a.S(0), utils.ReverseHexString(a.Hex(0)))
		}, bytesArg(pat(n, 1)))
	}
	add("C29", "SortByteArrays", func(a *Arena, r *Res) { r.Add(utils.SortByteArrays(a.B)) }, bytesArg(pat(33, 1)), bytesArg(pat(33, 2)), bytesArg(pat(5, 3)))
	add("C29", "Equals", func(a *Arena, r *Res) { r.Add(utils.Equals(a.B[0], a.B[1])) }, bytesArg(pat(33, 1)), bytesArg(pat(33, 1)))
	add("C29", "Decode32Byte", func(a *Arena, r *Res) {
		b, e := utils.Decode32Byte(a.Hex(0))
		r.ok(e, b)
	}, bytesArg(pat(31, 1)))
	add("C29", "GetLittleEndianBytes", func(a *Arena, r *Res) {
		r.Add(utils.GetLittleEndianBytes(uint32(a.N(0)), uint32(a.N(1))))
	}, numArg(0x01020304, 1, 0, 0x01020305, 0x02020304, 1<<32-1), numArg(4, 5, 8, 32))
	add("C30", "cleared", func(a *Arena, r *Res) {
		tx := Lib(Tx(3, 2, int(a.N(2))))
		r.Add(tx.ToBytesWithClearedInputs(int(a.N(0)), a.B[1]), tx)
	}, numArg(0, 1, 2), bytesArg(ref.P2PKH(pat(20, 1))), numArg(0, 1, 2, 3, 4, 5))
	return l
}
