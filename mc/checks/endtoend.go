package checks

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"

	"verif/mc/engine"
	"verif/mc/ref"
)

// ---- an independent verifier of P2PKH spends ------------------------------------

// spendError says why input idx of t (its previous output given by Prev and
// Sats) is not a valid P2PKH spend ("" when it is). Nothing of the library is used.
func spendError(t *ref.Tx, idx int) string {
	in := &t.Ins[idx]
	if !ref.IsP2PKH(in.Prev) {
		return "the previous output is not P2PKH"
	}
	ops, ok := ref.ParseScript(in.Script)
	if !ok || len(ops) != 2 || !ops[0].Push || !ops[1].Push {
		return "the unlocking script is not two pushes"
	}
	sig, pub := ops[0].Data, ops[1].Data
	if !bytes.Equal(ref.Hash160(pub), in.Prev[3:23]) {
		return "the key does not hash to the one paid"
	}
	if len(sig) == 0 {
		return "empty signature"
	}
	f := sig[len(sig)-1]
	if b := f &^ 0xc0; f&0x40 == 0 || b < 1 || b > 3 {
		return fmt.Sprintf("hash type %#x", f)
	}
	r, s, ok := strictDER(sig[:len(sig)-1])
	if !ok || r.Sign() <= 0 || s.Sign() <= 0 {
		return "the signature is not strict DER"
	}
	if new(big.Int).Lsh(s, 1).Cmp(bsvec.S256().N) > 0 {
		return "high S"
	}
	k, err := bsvec.ParsePubKey(pub, bsvec.S256())
	if err != nil {
		return "bad public key"
	}
	if !(&bsvec.Signature{R: r, S: s}).Verify(t.SigHash(idx, uint32(f)), k) {
		return "the signature does not verify"
	}
	return ""
}

// ---- paying -------------------------------------------------------------------

var payWays = []string{"PayTo(address of key)", "PayTo(address of key string)", "PayTo(address of hash)", "output.NewP2PKHFromAddress", "output.NewP2PkhFromPubKeyHash", "script.NewP2PKHFromPubKeyBytes", "script.NewP2PKHFromPubKeyStr", "script.NewP2PKHFromPubKeyHashStr", "script.NewP2PKHFromAddress", "script.NewFromASM", "BIP276 text", "appended by hand"}

// payOut adds an output paying k to tx in one of the ways above.
func payOut(x *X, tx *transaction.Transaction, way int, k *key, main bool, sats uint64) {
	var err error
	var s *script.Script
	var o *output.Output
	fail := func(e error) {
		if e != nil {
			x.Failf("paying fails", "%s: %v", payWays[way], e)
		}
	}
	try(x, payWays[way], func() {
		switch way {
		case 0, 1, 2:
			var a *address.Address
			switch way {
			case 0:
				a, err = address.NewFromPublicKey(k.priv.PubKey(), main)
			case 1:
				a, err = address.NewFromPublicKeyString(hx(k.pub), main)
			default:
				a, err = address.NewFromPublicKeyHash(cp(k.hash), main)
			}
			fail(err)
			err = tx.PayTo(a.AddressString, sats)
			fail(err)
		case 3:
			o, err = output.NewP2PKHFromAddress(ref.Address(k.hash, main), sats)
		case 4:
			o, err = output.NewP2PkhFromPubKeyHash(hx(k.hash), sats)
		case 5:
			s, err = script.NewP2PKHFromPubKeyBytes(cp(k.pub))
		case 6:
			s, err = script.NewP2PKHFromPubKeyStr(hx(k.pub))
		case 7:
			a, e := address.NewFromString(ref.Address(k.hash, main))
			fail(e)
			s, err = script.NewP2PKHFromPubKeyHashStr(a.PublicKeyHash)
		case 8:
			s, err = script.NewP2PKHFromAddress(ref.Address(k.hash, main))
		case 9:
			s, err = script.NewFromASM("OP_DUP OP_HASH160 " + hx(k.hash) + " OP_EQUALVERIFY OP_CHECKSIG")
		case 10:
			net := 1
			if !main {
				net = 2
			}
			p, v, n, d, e := address.DecodeBIP276(address.EncodeBIP276("bitcoin-script", net, 1, ref.P2PKH(k.hash)))
			fail(e)
			if p != "bitcoin-script" || v != 1 || n != net {
				x.Failf("BIP276 fields", "prefix %q version %d network %d", p, v, n)
			}
			s = script.NewFromBytes(d)
		default:
			s = &script.Script{}
			s.AppendOpCode(script.OpDUP)
			s.AppendOpCode(script.OpHASH160)
			err = s.AppendPushData(crypto.Hash160(k.pub))
			s.AppendOpCode(script.OpEQUALVERIFY)
			s.AppendOpCode(script.OpCHECKSIG)
		}
		fail(err)
		if s != nil {
			o = &output.Output{Satoshis: sats, LockingScript: s}
		}
		if o != nil {
			tx.AddOutput(o)
		}
	})
}

var wireWays = []string{"kept", "bytes", "hex", "upper-case hex"}

// relay is what the other side makes of the transaction.
func relay(x *X, tx *transaction.Transaction, way int) *transaction.Transaction {
	var r *transaction.Transaction
	var err error
	try(x, "relaying as "+wireWays[way], func() {
		switch way {
		case 0:
			r = tx
		case 1:
			r, err = transaction.NewFromBytes(tx.ToBytes())
		case 2:
			r, err = transaction.NewFromString(tx.ToString())
		default:
			r, err = transaction.NewFromString(strings.ToUpper(tx.ToString()))
		}
	})
	if err != nil || r == nil {
		x.Failf("relaying fails", "%s: %v", wireWays[way], err)
	}
	return r
}

var fromWays = []string{"From", "NewFromUTXO", "Input literal", "From with GetLockingScriptHexString"}

// spendOut adds the input spending output n of prev.
func spendOut(x *X, tx, prev *transaction.Transaction, n, way int) {
	var err error
	try(x, "spending with "+fromWays[way], func() {
		o, id := prev.Outputs[n], prev.GetTxID()
		switch way {
		case 0:
			err = tx.From(id, uint32(n), o.LockingScript.ToString(), o.Satoshis)
		case 1:
			var i *input.Input
			i, err = input.NewFromUTXO(id, uint32(n), o.Satoshis, hx(*o.LockingScript), 0xffffffff)
			if err == nil {
				tx.AddInput(i)
			}
		case 2:
			tx.AddInput(&input.Input{PreviousTxID: id, PreviousTxOutIndex: uint32(n), PreviousTxSatoshis: o.Satoshis, PreviousTxScript: o.LockingScript, SequenceNumber: 0xffffffff})
		default:
			err = tx.From(id, uint32(n), o.GetLockingScriptHexString(), o.Satoshis)
		}
	})
	if err != nil {
		x.Failf("spending fails", "%s: %v", fromWays[way], err)
	}
}

var signWays = []string{"tx.SignAuto", "tx.Sign", "signer.SignAuto", "signer.Sign"}

func signWith(x *X, tx *transaction.Transaction, way, idx int, k *key, f uint8) *transaction.Transaction {
	s := &signature.InternalSigner{PrivateKey: k.priv, SigHashFlag: sighash.Flag(f)}
	r := tx
	var err error
	try(x, signWays[way], func() {
		switch way {
		case 0:
			err = tx.SignAuto(s)
		case 1:
			err = tx.Sign(uint32(idx), s)
		case 2:
			r, err = s.SignAuto(tx)
		default:
			r, err = s.Sign(uint32(idx), tx)
		}
	})
	if err != nil || r == nil {
		x.Failf("signing fails", "%s: %v", signWays[way], err)
	}
	return r
}

// funded is a transaction with one input signed by nobody and n outputs, the
// one at pos paying k.
func funded(x *X, n, pos, way int, k *key, main bool, sats uint64) *transaction.Transaction {
	tx := transaction.New()
	in := simpleIn(3)
	tx.AddInput(libIn(&in))
	for i := 0; i < n; i++ {
		if i == pos {
			payOut(x, tx, way, k, main, sats)
		} else {
			payOut(x, tx, (way+i+1)%len(payWays), &keys[(i+2)%len(keys)], !main, sats/2+uint64(i))
		}
	}
	return tx
}

// coins looks up the previous outputs of t's inputs in earlier transactions by
// the bytes those went over the wire with.
func coins(x *X, t *ref.Tx, earlier ...[]byte) {
	m := map[string]*ref.Tx{}
	for _, b := range earlier {
		p, _, ok := ref.ParseTx(b)
		if !ok {
			x.Failf("unparsable", "the serialised transaction %s is malformed", short(b))
		}
		m[p.ID()] = p
	}
	for i := range t.Ins {
		if p := m[hx(t.Ins[i].TxID)]; p != nil && int(t.Ins[i].Vout) < len(p.Outs) {
			o := p.Outs[t.Ins[i].Vout]
			t.Ins[i].Prev, t.Ins[i].Sats = o.Script, o.Sats
		}
	}
}

var payAmounts = []uint64{0, 1, 546, 5000000000, 1 << 40, 2100000000000000, 1<<63 - 1, 1 << 63, math.MaxUint64}

// spendOne checks that output pos of prev, paid to owner, is spent by signer
// exactly when signer is the owner.
func spendOne(x *X, prev *transaction.Transaction, prevBytes []byte, pos int, owner, signer *key, recv, from, sign int, f uint8, what string) *transaction.Transaction {
	got := relay(x, prev, recv)
	tx := transaction.New()
	extra := simpleIn(9)
	before := pos % 2 // the spend is input 0 or 1
	if before == 1 {
		tx.AddInput(libIn(&extra))
	}
	spendOut(x, tx, got, pos, from)
	payOut(x, tx, (pos+from)%len(payWays), signer, true, 1000)
	payOut(x, tx, (pos+sign)%len(payWays), owner, false, 2000)
	tx = signWith(x, tx, sign, before, signer, f)
	b := tx.ToBytes()
	t, _, ok := ref.ParseTx(b)
	if !ok || len(t.Ins) != before+1 || len(t.Outs) != 2 {
		x.Failf("spending transaction", "%s: the spending transaction serialises as %s", what, short(b))
	}
	coins(x, t, prevBytes)
	if t.Ins[before].Prev == nil {
		x.Failf("outpoint", "%s: the input refers to %x:%d, not to output %d of the paying transaction", what, t.Ins[before].TxID, t.Ins[before].Vout, pos)
	}
	why := spendError(t, before)
	switch {
	case owner == signer && why != "":
		x.Failf("not spendable", "%s: the owner's spend is invalid: %s (flag %#x)", what, why, f)
	case owner == signer && t.Ins[before].Script[t.Ins[before].Script[0]] != effective(f):
		x.Failf("flag", "%s: signature with hash type %#x, want %#x", what, t.Ins[before].Script[t.Ins[before].Script[0]], effective(f))
	case owner != signer && why == "":
		x.Failf("spendable by another", "%s: spent by another key", what)
	case owner != signer && sign%2 == 0 && len(t.Ins[before].Script) != 0:
		x.Failf("signed for another", "%s: automatic signing with another key leaves an unlocking script", what)
	}
	if before == 1 && !bytes.Equal(t.Ins[0].Script, extra.Script) {
		x.Failf("other input", "%s: the other input's unlocking script changed", what)
	}
	for i, w := range [][]byte{ref.P2PKH(signer.hash), ref.P2PKH(owner.hash)} {
		if !bytes.Equal(t.Outs[i].Script, w) || t.Outs[i].Sats != uint64(1000*(i+1)) {
			x.Failf("outputs", "%s: output %d is %d to %x", what, i, t.Outs[i].Sats, t.Outs[i].Script)
		}
	}
	x.State(cat(t.Bytes(), []byte{byte(recv), byte(from), byte(sign)}))
	x.Outcome(fmt.Sprintf("owner %v, valid %v", owner == signer, why == ""))
	return tx
}

var payFlags = []uint8{0, 0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3}

func payAndSpend(x *X) {
	way := x.Choose(len(payWays))
	main := x.Bool()
	ko := x.Choose(3)
	pos := x.Choose(3)
	recv, from, sign := x.Choose(4), x.Choose(4), x.Choose(4)
	f := payFlags[x.Choose(7)]
	ks := []int{ko, (ko + 1) % 3}[x.Choose(2)]
	if !x.Thorough && (way+recv+from+sign+pos+ko)%3 != b2i(main) { // a third of the product
		x.Prune()
	}
	sats := payAmounts[(way+recv+3*pos+int(f))%len(payAmounts)]
	tx := funded(x, 3, pos, way, &keys[ko], main, sats)
	spendOne(x, tx, tx.ToBytes(), pos, &keys[ko], &keys[ks], recv, from, sign, f,
		fmt.Sprintf("%s, main %v, key %d, output %d of 3, %d satoshis, received as %s, %s, %s with key %d", payWays[way], main, ko, pos, sats, wireWays[recv], fromWays[from], signWays[sign], ks))
	x.Step(3)
}

// payManyOutputs spends each output of a transaction with many.
func payPositions(x *X) {
	n := []int{1, 2, 3, 7, 252, 253, 254, 300}[x.Choose(8)]
	pos := x.Choose(300)
	if pos >= n || n > 10 && pos%8 != 0 && pos < n-3 && !x.Thorough {
		x.Prune()
	}
	tx := transaction.New()
	in := simpleIn(3)
	tx.AddInput(libIn(&in))
	for i := 0; i < n; i++ {
		payOut(x, tx, 3+i%6, &keys[i%3], i%2 == 0, uint64(i)*7)
	}
	o := &keys[pos%3]
	spendOne(x, tx, tx.ToBytes(), pos, o, o, 1+pos%3, pos%4, x.Choose(4), 0x41, fmt.Sprintf("output %d of %d", pos, n))
}

// payKeys goes through private keys.
func payKeys(x *X) {
	n := int64(400)
	if x.Thorough {
		n = 20000
	}
	i := int64(x.Choose(int(n)))
	d := big.NewInt(i/2 + 1)
	if i%2 == 1 {
		d.Sub(bsvec.S256().N, d)
	}
	priv, pub := bsvec.PrivKeyFromBytes(bsvec.S256(), d.Bytes())
	c := pub.SerializeCompressed()
	if !bytes.Equal(c, ref.PubKey(d.FillBytes(make([]byte, 32)))) {
		x.Prune()
	}
	k := &key{priv, c, pub.SerializeUncompressed(), ref.Hash160(c)}
	way := int(i) % len(payWays)
	tx := funded(x, 2, int(i/3)%2, way, k, i%3 == 0, uint64(i))
	spendOne(x, tx, tx.ToBytes(), int(i/3)%2, k, k, int(i/5)%4, int(i/7)%4, x.Choose(4), payFlags[i%7], fmt.Sprintf("private key %s, %s", d, payWays[way]))
}

// amongOthers: the owner signs with inputs of other kinds around.
func amongOthers(x *X) {
	most := 2
	if x.Thorough {
		most = 3
	}
	n := x.Choose(most + 1)
	k := &keys[0]
	prev := funded(x, 2, 1, 3, k, true, 77777)
	pb := prev.ToBytes()
	at := x.Choose(n + 1)
	tx := transaction.New()
	var kinds []int
	var mineAt []int
	for i := 0; i <= n; i++ {
		if i == at {
			spendOut(x, tx, relay(x, prev, i%4), 1, i%4)
			mineAt = append(mineAt, i)
			continue
		}
		kind := x.Choose(8)
		kinds = append(kinds, kind)
		in := libIn(&ref.In{TxID: pat(32, 60+i), Vout: uint32(i), Seq: 0xffffffff - uint32(i), Sats: 1000 + uint64(i), Script: pat(5, i), Prev: ref.P2PKH(keys[1].hash)})
		switch kind {
		case 0: // somebody else's, signed
		case 1: // nothing known about it
			in.UnlockingScript, in.PreviousTxScript, in.PreviousTxSatoshis = nil, nil, 0
		case 2: // previous output unknown
			in.PreviousTxScript = nil
		case 3: // not yet signed
			in.UnlockingScript = nil
		case 4: // empty scripts
			in.UnlockingScript, in.PreviousTxScript = &script.Script{}, &script.Script{}
		case 5: // script hash with the owner's hash
			in.PreviousTxScript = scr(ref.P2SH(k.hash))
		case 6: // one more coin of the owner's
			in.UnlockingScript, in.PreviousTxScript = nil, scr(ref.P2PKH(k.hash))
			mineAt = append(mineAt, i)
		case 7: // the same coin as another input
			in.PreviousTxID, in.PreviousTxOutIndex = prev.GetTxID(), 1
		}
		tx.AddInput(in)
	}
	payOut(x, tx, 4, &keys[1], true, 70000)
	t := &ref.Tx{}
	for _, i := range tx.Inputs {
		t.Ins = append(t.Ins, ref.In{TxID: unhex(i.PreviousTxID), Vout: i.PreviousTxOutIndex, Seq: i.SequenceNumber, Script: cp(sb(i.UnlockingScript)), Prev: cp(sb(i.PreviousTxScript)), Sats: i.PreviousTxSatoshis})
	}
	way, f := x.Choose(4), []uint8{0, 0xc3, 0x43}[x.Choose(3)]
	what := fmt.Sprintf("input %d of %d beside inputs of kinds %v, %s, flag %#x", at, n+1, kinds, signWays[way], f)
	tx = signWith(x, tx, way, at, k, f)
	b := tx.ToBytes()
	got, _, ok := ref.ParseTx(b)
	if !ok || len(got.Ins) != n+1 || len(got.Outs) != 1 {
		x.Failf("spending transaction", "%s: the spending transaction serialises as %s", what, short(b))
	}
	signed := map[int]bool{at: true}
	if way%2 == 0 {
		for _, i := range mineAt {
			signed[i] = true
		}
	}
	for i := range got.Ins {
		got.Ins[i].Prev, got.Ins[i].Sats = t.Ins[i].Prev, t.Ins[i].Sats
	}
	c := got.Clone()
	coins(x, c, pb)
	if !bytes.Equal(c.Ins[at].Prev, ref.P2PKH(k.hash)) {
		x.Failf("outpoint", "%s: the input does not refer to the coin", what)
	}
	for i := range got.Ins {
		if signed[i] {
			if why := spendError(got, i); why != "" {
				x.Failf("not spendable", "%s: input %d is invalid: %s", what, i, why)
			}
		} else if !bytes.Equal(got.Ins[i].Script, t.Ins[i].Script) {
			x.Failf("other input", "%s: the unlocking script of input %d changed", what, i)
		}
	}
	x.State(cat(b, []byte(what)))
	x.Step(2)
	x.Outcome(fmt.Sprintf("%d of %d signed", len(signed), n+1))
}

// payChain: hop after hop, each spending the output of the hop before.
func payChain(x *X) {
	n := 3
	if x.Thorough {
		n = 4
	}
	owner := &keys[0]
	prev := transaction.New()
	in := simpleIn(3)
	prev.AddInput(libIn(&in))
	payOut(x, prev, 0, owner, true, 1000000)
	sats := uint64(1000000)
	var desc []string
	for h := 0; h < n; h++ {
		way := []int{0, 4, 8, 9}[x.Choose(4)]
		to := &keys[x.Choose(2)]
		recv, sign := x.Choose(2), 2*x.Choose(2)
		desc = append(desc, fmt.Sprintf("%s to %x, %s, %s", payWays[way], to.hash[:2], wireWays[recv], signWays[sign]))
		pb := prev.ToBytes()
		got := relay(x, prev, recv)
		tx := transaction.New()
		spendOut(x, tx, got, 0, h%4)
		sats -= 100
		payOut(x, tx, way, to, h%2 == 0, sats)
		tx = signWith(x, tx, sign, 0, owner, payFlags[h%7])
		t, _, ok := ref.ParseTx(tx.ToBytes())
		if !ok {
			x.Failf("chain", "%v: malformed", desc)
		}
		coins(x, t, pb)
		if why := spendError(t, 0); why != "" {
			x.Failf("chain", "%v: the spend is invalid: %s", desc, why)
		}
		if len(t.Outs) != 1 || t.Outs[0].Sats != sats || !bytes.Equal(t.Outs[0].Script, ref.P2PKH(to.hash)) {
			x.Failf("chain output", "%v: %+v", desc, t.Outs)
		}
		if id := tx.GetTxID(); id != t.ID() {
			x.Failf("chain txid", "%v: GetTxID %s, want %s", desc, id, t.ID())
		}
		prev, owner = tx, to
		x.State(cat(t.Bytes(), []byte(desc[h])))
	}
}

// joint: several parties complete one transaction, in every order, passing it
// on over the wire; each knows only the outputs it spends.
func joint(x *X) {
	depth := 4
	if x.Thorough {
		depth = 5
	}
	type coin struct {
		owner int
		sats  uint64
	}
	cs := []coin{{0, 7000}, {1, 8001}, {0, 9002}, {3, 1}}
	t := &ref.Tx{Version: 1}
	outs := 0
	addIn := func(i int) {
		in := ref.In{TxID: pat(32, 500+i), Vout: uint32(i), Seq: 0xffffffff, Sats: cs[i].sats, Prev: ref.P2PKH(keys[cs[i].owner].hash)}
		if i == 3 {
			in.Prev = ref.P2SH(keys[0].hash)
		}
		t.Ins = append(t.Ins, in)
	}
	addOut := func() {
		t.Outs = append(t.Outs, ref.Out{Sats: uint64(outs+1) * 1000, Script: ref.P2PKH(pat(20, 600+outs))})
		outs++
	}
	addIn(0)
	addIn(1)
	addIn(3)
	addOut()
	tx := libTx(t)
	kept := false // the library's inputs carry the previous outputs
	for _, in := range tx.Inputs {
		in.PreviousTxScript, in.PreviousTxSatoshis = nil, 0
	}
	valid := map[int]bool{}
	flags := map[int]uint8{}
	fl := []uint8{0x41, 0xc1, 0x42, 0x43, 0xc3}
	var desc []string
	for step := 0; step < depth; step++ {
		op := x.Choose(15)
		switch {
		case op < 10: // a party signs automatically
			p, f := op/5, fl[op%5]
			desc = append(desc, fmt.Sprintf("key %d signs with %#x", p, f))
			for i := range t.Ins {
				if bytes.Equal(t.Ins[i].Prev, ref.P2PKH(keys[p].hash)) {
					tx.Inputs[i].PreviousTxScript, tx.Inputs[i].PreviousTxSatoshis = scr(t.Ins[i].Prev), t.Ins[i].Sats
				} else if !kept {
					tx.Inputs[i].PreviousTxScript, tx.Inputs[i].PreviousTxSatoshis = nil, 0
				}
			}
			before := make([][]byte, len(t.Ins))
			for i := range t.Ins {
				before[i] = cp(sb(tx.Inputs[i].UnlockingScript))
			}
			tx = signWith(x, tx, 0, 0, &keys[p], f)
			for i := range t.Ins {
				us := sb(tx.Inputs[i].UnlockingScript)
				if bytes.Equal(t.Ins[i].Prev, ref.P2PKH(keys[p].hash)) {
					valid[i], flags[i] = true, f
					t.Ins[i].Script = cp(us)
				} else if !bytes.Equal(us, before[i]) {
					x.Failf("joint: other input", "%v: input %d changed", desc, i)
				}
			}
		case op < 12: // passed on over the wire
			desc = append(desc, "passed on as "+wireWays[op-9])
			tx = relay(x, tx, op-9)
			kept = false
		case op == 12:
			desc = append(desc, "output added")
			addOut()
			tx.AddOutput(libOut(&t.Outs[len(t.Outs)-1]))
			for i, f := range flags {
				if f&0x1f == 1 || f&0x1f == 3 && i == len(t.Outs)-1 {
					valid[i] = false
				}
			}
		case op == 13:
			if len(t.Ins) > 3 {
				x.Prune()
			}
			desc = append(desc, "input added")
			addIn(2)
			tx.AddInput(libIn(&t.Ins[3]))
			for i, f := range flags {
				if f&0x80 == 0 {
					valid[i] = false
				}
			}
		case op == 14:
			desc = append(desc, "locktime set")
			t.Locktime++
			tx.Locktime++
			for i := range flags {
				valid[i] = false
			}
		}
		got, _, ok := ref.ParseTx(tx.ToBytes())
		if !ok || !bytes.Equal(got.Bytes(), t.Bytes()) {
			x.Failf("joint: transaction", "%v: the transaction is %s, want %s", desc, short(tx.ToBytes()), short(t.Bytes()))
		}
		for i := range t.Ins {
			if _, signed := flags[i]; !signed {
				continue
			}
			if why := spendError(t, i); (why == "") != valid[i] {
				x.Failf("joint: validity", "%v: input %d (flag %#x) should be valid: %v, but %q", desc, i, flags[i], valid[i], why)
			}
		}
	}
	x.State(cat(t.Bytes(), []byte(strings.Join(desc, ";"))))
	n := 0
	for _, v := range valid {
		n += b2i(v)
	}
	x.Outcome(fmt.Sprintf("%d inputs, %d valid", len(t.Ins), n))
}

// ---- C32: external signers -------------------------------------------------------

type extSigner struct {
	x     *X
	t     *ref.Tx // what the signer must be shown
	auto  bool
	idx   uint32
	kind  int
	calls int
	out   *ref.Tx
	desc  string
	err   error // returned instead of errSigner
}

var errSigner = errors.New("the signer refuses")

func (e *extSigner) act(auto bool, idx uint32, tx *transaction.Transaction) (*transaction.Transaction, error) {
	e.calls++
	errSigner := errSigner
	if e.err != nil {
		errSigner = e.err
	}
	if auto != e.auto {
		e.x.Failf("wrong method", "%s: SignAuto called: %v", e.desc, auto)
	}
	if !auto && idx != e.idx {
		e.x.Failf("index", "%s: the signer is given index %d, want %d", e.desc, idx, e.idx)
	}
	if d := diffTx(tx, e.t, true); d != "" {
		e.x.Failf("transaction shown", "%s: the signer is shown another transaction: %s", e.desc, d)
	}
	n := e.t.Clone()
	e.out = n
	switch e.kind {
	case 0: // nothing to sign
		return tx, nil
	case 1: // signs the first input in place
		if len(n.Ins) > 0 {
			n.Ins[0].Script = pat(70+e.calls, 800+len(n.Outs))
			tx.Inputs[0].UnlockingScript = scr(n.Ins[0].Script)
		}
		return tx, nil
	case 2: // a fresh transaction with every input signed
		for i := range n.Ins {
			n.Ins[i].Script = pat(60+i, 810+i)
		}
		return libTx(n), nil
	case 3: // an entirely different transaction
		*n = *simpleTx(3, 1)
		n.Version, n.Locktime = 77, 88
		return libTx(n), nil
	case 4: // an empty one
		*n = ref.Tx{}
		return libTx(n), nil
	case 5: // version, locktime, an output and an input added in place
		n.Version, n.Locktime = n.Version+1, n.Locktime^0x80000000
		n.Ins = append(n.Ins, simpleIn(6))
		n.Outs = append(n.Outs, simpleOut(6))
		tx.Version, tx.Locktime = n.Version, n.Locktime
		tx.AddInput(libIn(&n.Ins[len(n.Ins)-1]))
		tx.AddOutput(libOut(&n.Outs[len(n.Outs)-1]))
		return tx, nil
	case 6: // drops the last input and output
		if len(n.Ins) > 0 {
			n.Ins = n.Ins[:len(n.Ins)-1]
		}
		if len(n.Outs) > 0 {
			n.Outs = n.Outs[:len(n.Outs)-1]
		}
		return libTx(n), nil
	case 7: // error, nothing
		e.out = e.t
		return nil, errSigner
	case 8: // error and another transaction, which must not be adopted
		e.out = e.t
		return libTx(simpleTx(1, 2)), errSigner
	case 9: // error and the transaction itself
		e.out = e.t
		return tx, errSigner
	case 10: // error and an empty transaction
		e.out = e.t
		return &transaction.Transaction{}, errSigner
	}
	switch e.kind {
	case 11: // an equal copy
		return libTx(n), nil
	case 12: // a copy which differs in the previous amounts only
		for i := range n.Ins {
			n.Ins[i].Sats += 1000
		}
		return libTx(n), nil
	case 13: // a copy which differs in the previous scripts only
		for i := range n.Ins {
			n.Ins[i].Prev = pat(25, 820+i)
		}
		return libTx(n), nil
	case 14: // a copy which has lost what is known of the previous outputs
		for i := range n.Ins {
			n.Ins[i].Prev, n.Ins[i].Sats = nil, 0
		}
		return libTx(n), nil
	case 15: // the same inputs and outputs in a copy with a script removed
		for i := range n.Ins {
			n.Ins[i].Script = nil
		}
		return libTx(n), nil
	case 16: // the very inputs and outputs in another transaction
		r := &transaction.Transaction{Version: tx.Version, Locktime: tx.Locktime ^ 1, Inputs: append([]*input.Input{}, tx.Inputs...), Outputs: append([]*output.Output{}, tx.Outputs...)}
		n.Locktime ^= 1
		return r, nil
	}
	panic("kind")
}

const signerKinds = 17

func (e *extSigner) Sign(idx uint32, tx *transaction.Transaction) (*transaction.Transaction, error) {
	return e.act(false, idx, tx)
}

func (e *extSigner) SignAuto(tx *transaction.Transaction) (*transaction.Transaction, error) {
	return e.act(true, 0, tx)
}

// external runs one call; it returns the transaction the caller must now have.
func external(x *X, tx *transaction.Transaction, t *ref.Tx, auto bool, idx uint32, kind int, desc string) *ref.Tx {
	return externalErr(x, tx, t, auto, idx, kind, desc, nil)
}

func externalErr(x *X, tx *transaction.Transaction, t *ref.Tx, auto bool, idx uint32, kind int, desc string, ee error) *ref.Tx {
	e := &extSigner{x: x, t: t.Clone(), auto: auto, idx: idx, kind: kind, desc: desc, err: ee}
	var err error
	try(x, "signing with an external signer", func() {
		if auto {
			err = tx.SignAuto(e)
		} else {
			err = tx.Sign(idx, e)
		}
	})
	if e.calls != 1 {
		x.Failf("calls", "%s: the signer was called %d times", desc, e.calls)
	}
	if (err != nil) != (kind >= 7 && kind <= 10) {
		x.Failf("error", "%s: error %v", desc, err)
	}
	if d := diffTx(tx, e.out, true); d != "" {
		x.Failf("adopted", "%s: %s", desc, d)
	}
	if !bytes.Equal(tx.ToBytes(), e.out.Bytes()) {
		x.Failf("adopted serialisation", "%s: %s, want %s", desc, short(tx.ToBytes()), short(e.out.Bytes()))
	}
	x.Outcome(fmt.Sprintf("auto %v, behaviour %d", auto, kind))
	return e.out
}

var signerIdx = []uint32{0, 1, 2, 3, 7, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, math.MaxUint32 - 1, math.MaxUint32}

// ---- C33: from a template to a block header -----------------------------------------

type blockCase struct {
	txs            int
	height         uint32
	value          uint64
	text           string
	wallet         int
	main           bool
	witness, miner []byte
	e1             int
	bits           uint32
	version        uint32
	order          []int // the transactions in this order of their txids
	hashed         bool  // as hashed, not as displayed
}

func mine(x *X, c blockCase) {
	what := fmt.Sprintf("%+v", c)
	if len(what) > 300 {
		what = what[:300]
	}
	// the transactions of the template, built by the library
	ids := make([]string, c.txs)
	raw := make([][]byte, c.txs)
	leaves := [][]byte{nil}
	for i := range ids {
		tx := transaction.New()
		in := simpleIn(i % 50)
		tx.AddInput(libIn(&in))
		payOut(x, tx, i%len(payWays), &keys[i%len(keys)], i%2 == 0, uint64(i)*13)
		ids[i], raw[i] = tx.GetTxID(), tx.ToBytes()
		leaves = append(leaves, ref.Sha256d(raw[i]))
		if ids[i] != hx(ref.Rev(leaves[i+1])) {
			x.Failf("txid", "%s: txid %s, want %x", what, ids[i], ref.Rev(leaves[i+1]))
		}
	}
	if c.order != nil {
		by := make([]int, c.txs)
		for i := range by {
			by[i] = i
		}
		sort.Slice(by, func(a, b int) bool {
			if c.hashed {
				return bytes.Compare(leaves[by[a]+1], leaves[by[b]+1]) < 0
			}
			return ids[by[a]] < ids[by[b]]
		})
		i2, r2, l2 := make([]string, c.txs), make([][]byte, c.txs), [][]byte{nil}
		for i, o := range c.order {
			i2[i], r2[i], l2 = ids[by[o]], raw[by[o]], append(l2, leaves[by[o]+1])
		}
		ids, raw, leaves = i2, r2, l2
	}
	k := &keys[c.wallet]
	e := pat(12, 78+c.txs%5)
	var all []byte
	var root []byte
	var hdr []byte
	var branches []string
	var cb *transaction.Transaction
	prev := hx(pat(32, 6))
	bb := []byte{byte(c.bits >> 24), byte(c.bits >> 16), byte(c.bits >> 8), byte(c.bits)}
	time, nonce := pat(4, 7), pat(4, 8)
	try(x, "mining", func() {
		a, err := address.NewFromPublicKey(k.priv.PubKey(), c.main)
		if err != nil {
			x.Failf("wallet", "%v", err)
		}
		c1, c2, err := block.GetCoinbaseParts(c.height, c.value, hx(c.witness), c.text, a.AddressString, c.miner)
		if err != nil {
			x.Failf("GetCoinbaseParts fails", "%s: %v", what, err)
		}
		all = block.BuildCoinbase(c1, c2, hx(e[:c.e1]), hx(e[c.e1:]))
		cb, err = transaction.NewFromBytes(all)
		if err != nil {
			x.Failf("coinbase", "%s: the coinbase does not parse: %v", what, err)
		}
		id := cb.GetTxID()
		raw, _ := hex.DecodeString(id)
		leaf := make([]byte, len(raw))
		for i := range raw {
			leaf[i] = raw[len(raw)-1-i]
		}
		branches = block.GetMerkleBranches(append([]string{id}, ids...))
		root = block.BuildMerkleRootFromCoinbase(leaf, branches)
		hdr = block.BuildBlockHeader(c.version, prev, root, time, ref.Rev(bb), nonce)
	})
	t, _, ok := ref.ParseTx(all)
	if !ok || len(t.Ins) != 1 || !bytes.Equal(t.Ins[0].TxID, rep(32, 0)) || t.Ins[0].Vout != 0xffffffff {
		x.Failf("coinbase", "%s: %s is no coinbase", what, short(all))
	}
	sc := t.Ins[0].Script
	arb := cat(ref.HeightPush(c.height), []byte(c.text))
	if len(arb) > 88 {
		arb = arb[:88]
	}
	if !bytes.Equal(sc, cat(arb, e)) {
		x.Failf("coinbase script", "%s: coinbase script %x", what, sc)
	}
	if !cb.IsCoinbase() {
		x.Failf("IsCoinbase", "%s: IsCoinbase is false", what)
	}
	var sum uint64
	for _, o := range t.Outs {
		sum += o.Sats
	}
	if sum != c.value || cb.GetTotalOutputSatoshis() != c.value {
		x.Failf("coinbase value", "%s: the outputs sum to %d (%d)", what, sum, cb.GetTotalOutputSatoshis())
	}
	outs := []ref.Out{{Sats: c.value, Script: ref.P2PKH(k.hash)}}
	for _, s := range [][]byte{c.witness, c.miner} {
		if len(s) > 0 {
			outs = append(outs, ref.Out{Script: s})
		}
	}
	for i := range outs {
		if len(t.Outs) != len(outs) || t.Outs[i].Sats != outs[i].Sats || !bytes.Equal(t.Outs[i].Script, outs[i].Script) {
			x.Failf("coinbase outputs", "%s: outputs %s, want %d: wallet, witness commitment, miner id", what, short(all), len(outs))
		}
	}
	// the whole tree over the transactions as they are
	leaves[0] = ref.Sha256d(all)
	want := ref.MerkleRoot(leaves)
	if !bytes.Equal(root, want) {
		x.Failf("root", "%s: root %x, want %x", what, root, want)
	}
	lv := ref.MerkleLevels(leaves)
	for i := range leaves { // every transaction proves its place in the header's root
		if i > 2 && i < len(leaves)-3 && i%17 != 0 {
			continue
		}
		var s string
		var err error
		try(x, "MerkleRootFromBranches", func() {
			s, err = block.MerkleRootFromBranches(hx(ref.Rev(leaves[i])), i, display(ref.MerklePath(lv, i)))
		})
		if err != nil || s != hx(ref.Rev(hdr[36:68])) {
			x.Failf("proof", "%s: transaction %d: proof gives %s, %v; the header has %x", what, i, s, err, ref.Rev(hdr[36:68]))
		}
	}
	wh := cat(ref.LE(uint64(c.version), 4), ref.Rev(unhex(prev)), want, time, ref.Rev(bb), nonce)
	if !bytes.Equal(hdr, wh) {
		x.Failf("header", "%s: header %x, want %x", what, hdr, wh)
	}
	// the bits of the header give the target
	var tgt *big.Int
	var err error
	try(x, "ExpandTargetFromAsInt", func() { tgt, err = block.ExpandTargetFromAsInt(hx(ref.Rev(hdr[72:76]))) })
	if err != nil || tgt.Cmp(ref.Target(c.bits)) != 0 {
		x.Failf("target", "%s: target %v, %v", what, tgt, err)
	}
	// the reward is spendable by the wallet
	own := spendOne(x, cb, all, 0, k, k, c.txs%4, c.txs/4%4, c.e1%4, 0x41, what)
	_ = own
	x.State(cat(hdr, all))
	x.Outcome(fmt.Sprintf("%d branches, %d outputs", len(branches), len(t.Outs)))
	x.Step(c.txs + 6)
}

// ---- C34: one recipient, one script --------------------------------------------------

// agree compares every way to name the owner of a public key (pub nil: only the hash is known).
func agree(x *X, pub, h []byte, deep bool) {
	want := ref.P2PKH(h)
	var ad [2]string
	for m, main := range []bool{false, true} {
		ad[m] = ref.Address(h, main)
	}
	fail := func(what string, f string, a ...interface{}) {
		x.Failf("recipient: "+what, "hash %x: %s", h, fmt.Sprintf(f, a...))
	}
	try(x, "naming a recipient", func() {
		var all []*address.Address
		add := func(what string, main bool, a *address.Address, err error) {
			if err != nil || a == nil {
				fail(what, "%v", err)
			}
			if a.AddressString != ad[b2i(main)] || a.PublicKeyHash != hx(h) {
				fail(what, "%s (main %v) gives address %s, hash %s", what, main, a.AddressString, a.PublicKeyHash)
			}
			all = append(all, a)
		}
		for _, main := range []bool{false, true} {
			a, err := address.NewFromPublicKeyHash(cp(h), main)
			add("NewFromPublicKeyHash", main, a, err)
			a, err = address.NewFromString(ad[b2i(main)])
			add("NewFromString", main, a, err)
			if pub != nil {
				a, err = address.NewFromPublicKeyString(hx(pub), main)
				add("NewFromPublicKeyString", main, a, err)
				if k, e := bsvec.ParsePubKey(pub, bsvec.S256()); e == nil && len(pub) == 33 {
					a, err = address.NewFromPublicKey(k, main)
					add("NewFromPublicKey", main, a, err)
				}
			}
			if ok, err := address.ValidateAddress(ad[b2i(main)]); !ok || err != nil {
				fail("ValidateAddress", "ValidateAddress(%s) = %v, %v", ad[b2i(main)], ok, err)
			}
		}
		var ss []*script.Script
		adds := func(what string, s *script.Script, err error) {
			if err != nil || s == nil || !bytes.Equal(*s, want) {
				fail(what, "%s gives %x, %v", what, sb(s), err)
			}
			ss = append(ss, s)
		}
		for _, a := range all {
			s, err := script.NewP2PKHFromAddress(a.AddressString)
			adds("NewP2PKHFromAddress", s, err)
			s, err = script.NewP2PKHFromPubKeyHashStr(a.PublicKeyHash)
			adds("NewP2PKHFromPubKeyHashStr", s, err)
			o, err := output.NewP2PKHFromAddress(a.AddressString, 1)
			if err != nil {
				fail("output", "%v", err)
			}
			adds("output.NewP2PKHFromAddress", o.LockingScript, err)
			tx := transaction.New()
			err = tx.PayTo(a.AddressString, 2)
			if err != nil || len(tx.Outputs) != 1 {
				fail("PayTo", "%v", err)
			}
			adds("PayTo", tx.Outputs[0].LockingScript, nil)
			if !deep {
				break
			}
		}
		o, err := output.NewP2PkhFromPubKeyHash(hx(h), 1)
		if err != nil {
			fail("output", "%v", err)
		}
		adds("NewP2PkhFromPubKeyHash", o.LockingScript, err)
		if pub != nil {
			s, err := script.NewP2PKHFromPubKeyBytes(cp(pub))
			adds("NewP2PKHFromPubKeyBytes", s, err)
			s, err = script.NewP2PKHFromPubKeyStr(hx(pub))
			adds("NewP2PKHFromPubKeyStr", s, err)
		}
		s, err := script.NewFromASM("OP_DUP OP_HASH160 " + hx(h) + " OP_EQUALVERIFY OP_CHECKSIG")
		adds("NewFromASM", s, err)
		s, err = script.NewFromHexString(hx(want))
		adds("NewFromHexString", s, err)
		for _, s := range ss { // and back
			g, err := s.GetPublicKeyHash()
			if err != nil || !bytes.Equal(g, h) {
				fail("GetPublicKeyHash", "%x, %v", g, err)
			}
			if !s.IsP2PKH() || s.IsP2SH() || s.IsP2PK() || s.IsData() || s.IsMultisigOut() {
				fail("classification", "%x", []byte(*s))
			}
			a, err := address.NewFromPublicKeyHash(g, true)
			if err != nil || a.AddressString != ad[1] {
				fail("back to the address", "%v %v", a, err)
			}
			if !deep {
				break
			}
		}
	})
	x.State(h)
	x.Step(11)
	x.Outcome(fmt.Sprintf("key of %d bytes, address of %d and %d characters", len(pub), len(ad[0]), len(ad[1])))
}

// ---- C35: data carriers -----------------------------------------------------------------

var dataWays = []string{"NewOpReturnParts", "NewOpReturn per part", "AppendPushData", "AppendPushDataArray", "AppendPushDataHexString", "AppendPushDataString(s)", "NewFromASM", "EncodeParts"}

// carry stores parts in an output and reads them back at the far end. It
// reports whether the way can express the parts.
func carry(x *X, parts [][]byte, way, wire, pos int) bool {
	var err error
	var o *output.Output
	s := &script.Script{}
	pre := []byte{0, 0x6a}
	try(x, "storing data", func() {
		switch way {
		case 0:
			o, err = output.NewOpReturnParts(parts)
		case 1:
			if len(parts) != 1 {
				x.Prune()
			}
			o, err = output.NewOpReturn(parts[0])
		case 6:
			t := "OP_FALSE OP_RETURN"
			for _, p := range parts {
				if len(p) == 0 {
					x.Prune()
				}
				t += " " + hx(p)
			}
			s, err = script.NewFromASM(t)
		case 7:
			var e []byte
			e, err = script.EncodeParts(parts)
			s = script.NewFromBytes(cat(pre, e))
		default:
			s.AppendOpCode(0)
			s.AppendOpCode(0x6a)
			switch way {
			case 3:
				err = s.AppendPushDataArray(parts)
			case 5:
				ss := make([]string, len(parts))
				for i, p := range parts {
					ss[i] = string(p)
				}
				if len(ss) == 1 {
					err = s.AppendPushDataString(ss[0])
				} else {
					err = s.AppendPushDataStrings(ss)
				}
			default:
				for _, p := range parts {
					if way == 2 {
						err = s.AppendPushData(p)
					} else {
						err = s.AppendPushDataHexString(hx(p))
					}
					if err != nil {
						break
					}
				}
			}
		}
	})
	what := fmt.Sprintf("%s, %d parts, %s", dataWays[way], len(parts), wireWays[wire])
	if err != nil {
		x.Failf("storing fails", "%s: %v", what, err)
	}
	if o == nil {
		o = &output.Output{LockingScript: s}
	}
	tx := transaction.New()
	in := simpleIn(2)
	tx.AddInput(libIn(&in))
	for i := 0; i < 2; i++ {
		if i == pos {
			tx.AddOutput(o)
		} else {
			payOut(x, tx, 3, &keys[0], true, 7)
		}
	}
	b := tx.ToBytes()
	got := relay(x, tx, wire)
	if len(got.Outputs) != 2 || got.Outputs[pos] == nil || got.Outputs[pos].LockingScript == nil {
		x.Failf("outputs", "%s: outputs lost", what)
	}
	g := got.Outputs[pos]
	want := cp(pre)
	for _, p := range parts {
		want = append(want, ref.Push(p)...)
	}
	if g.Satoshis != 0 || !g.LockingScript.IsData() || !bytes.Equal(*g.LockingScript, want) {
		x.Failf("carrier", "%s: %d satoshis, data %v, script %s, want %s", what, g.Satoshis, g.LockingScript.IsData(), short(*g.LockingScript), short(want))
	}
	t, _, ok := ref.ParseTx(b)
	if !ok || len(t.Outs) != 2 || !bytes.Equal(t.Outs[pos].Script, want) {
		x.Failf("wire", "%s: on the wire %s", what, short(b))
	}
	same := func(how string, ps [][]byte, err error) {
		if err != nil || len(ps) != len(parts)+2 || !bytes.Equal(ps[0], []byte{0}) || !bytes.Equal(ps[1], []byte{0x6a}) {
			x.Failf("reading", "%s: %s gives %d parts, %v", what, how, len(ps), err)
		}
		for i := range parts {
			if len(parts[i]) == 0 && bytes.Equal(ps[i+2], []byte{0}) {
				continue // an empty part is stored as OP_0, which reads as its opcode
			}
			if !bytes.Equal(ps[i+2], parts[i]) {
				x.Failf("reading", "%s: %s: part %d is %s, want %s", what, how, i, short(ps[i+2]), short(parts[i]))
			}
		}
	}
	try(x, "reading data", func() {
		ps, err := script.DecodeParts(*g.LockingScript)
		same("DecodeParts", ps, err)
		ps, err = script.DecodeStringParts(g.GetLockingScriptHexString())
		same("DecodeStringParts", ps, err)
		_, _, _, d, err := address.DecodeBIP276(address.EncodeBIP276("bitcoin-script", 1, 1, *g.LockingScript))
		if err != nil {
			x.Failf("BIP276", "%s: %v", what, err)
		}
		ps, err = script.DecodeParts(d)
		same("BIP276 and DecodeParts", ps, err)
		empty := false
		for _, p := range parts {
			empty = empty || len(p) == 0
		}
		if !empty { // the text form has no word for an empty push
			a, err := g.LockingScript.ToASM()
			if err != nil {
				x.Failf("ToASM", "%s: %v", what, err)
			}
			r, err := script.NewFromASM(a)
			if err != nil || !bytes.Equal(*r, want) {
				x.Failf("ASM", "%s: %s comes back as %x, %v", what, a, sb(r), err)
			}
		}
	})
	x.State(cat(want, []byte{byte(way), byte(wire), byte(pos)}))
	x.Step(4)
	return true
}

func init() {
	register(engine.Property{ID: "C31", Level: "model_checking",
		Rule:        "every way of paying, receiving, spending and signing of the bound is run on the library, and the result judged by an independent verifier of P2PKH spends over an independent parser; a state is a distinct serialised transaction with its history",
		Assumptions: []string{baseAssumption, "elliptic-curve verification by bsvec is trusted"},
		Scenarios: []engine.Scenario{
			{Name: "pay-and-spend", Bound: "12 ways of paying x 2 networks x 3 keys x output 0..2 of 3 x received as object, bytes, hex, upper-case hex x 4 ways of adding the input x 4 ways of signing x 7 flags x right or wrong key, amounts(9) (quick: a third of it, every pair of choices covered)", Run: payAndSpend},
			{Name: "positions", Bound: "outputs at the ends and every 8th (thorough: every) position of transactions with 1, 2, 3, 7, 252, 253, 254, 300 outputs x 4 ways of signing", Run: payPositions},
			{Name: "keys", Bound: "private keys 1..200 and N-1..N-200 (thorough 1..10000 and N-1..N-10000) x 4 ways of signing", Run: payKeys},
			{Name: "other-inputs", Bound: "0..2 (thorough 3) other inputs, each of 8 kinds (signed, nothing known, previous output unknown, not signed, empty scripts, script hash, another coin of the owner's, the same coin), around the owner's at every position x 4 ways of signing x 3 flags", Run: amongOthers},
			{Name: "chains", Bound: "every chain of 3 (thorough 4) payments, each hop out of 4 ways of paying x 2 recipients x 2 wire forms x 2 ways of signing", Run: payChain},
			{Name: "joint", Bound: "every history of 4 (thorough 5) steps of two parties completing one transaction: sign with each of 5 flags, pass on as bytes or hex (previous outputs are lost and only one's own are known), add an output, add an input, set the locktime; each signature must be valid exactly while its flag does not cover what changed", Run: joint},
		}})

	register(engine.Property{ID: "C32", Level: "model_checking",
		Rule:        "every history of signer calls of the bound is run with a scripted signer that records what it is given; a state is a transaction together with the call",
		Assumptions: []string{baseAssumption, "signers which return neither a transaction nor an error, or which change the transaction and then fail, are not judged; nor is whether the signer sees the transaction object itself or an equal one when it only reads it"},
		Scenarios: []engine.Scenario{
			{Name: "calls", Bound: "transactions of 0..4 inputs x 0..3 outputs x Sign with 13 indexes or SignAuto x 17 signer behaviours (returns the transaction unchanged, signed in place, a signed copy, a different, empty, longer or shorter one, a copy which is equal or differs in what is known of the previous outputs, in its unlocking scripts or its locktime only; fails with no, another, the same or an empty transaction)", Run: func(x *X) {
				t := simpleTx(x.Choose(5), x.Choose(4))
				tx := libTx(t)
				auto := x.Bool()
				idx := uint32(0)
				if !auto {
					idx = engine.Pick(x, signerIdx)
				}
				kind := x.Choose(signerKinds)
				external(x, tx, t, auto, idx, kind, fmt.Sprintf("%d inputs, %d outputs, auto %v, index %d, behaviour %d", len(t.Ins), len(t.Outs), auto, idx, kind))
				x.State(append(stateTx(t), byte(kind), byte(b2i(auto)), byte(idx), byte(idx>>8), byte(idx>>16), byte(idx>>24)))
			}},
			{Name: "histories", Bound: "every history of 3 (thorough 4) calls of Sign(0), Sign(1) or SignAuto, each with 17 behaviours, or an edit of the transaction between them, on one transaction", Run: func(x *X) {
				n := 3
				if x.Thorough {
					n = 4
				}
				t := simpleTx(2, 2)
				tx := libTx(t)
				var desc []string
				for s := 0; s < n; s++ {
					op := x.Choose(3*signerKinds + 3)
					switch d := op - 3*signerKinds; {
					case d == 0:
						t.Version++
						tx.Version++
					case d == 1:
						t.Outs = append(t.Outs, simpleOut(s+4))
						tx.AddOutput(libOut(&t.Outs[len(t.Outs)-1]))
					case d == 2:
						t.Ins = append(t.Ins, simpleIn(s+4))
						tx.AddInput(libIn(&t.Ins[len(t.Ins)-1]))
					default:
						desc = append(desc, fmt.Sprintf("call %d behaviour %d", op%3, op/3))
						t = external(x, tx, t, op%3 == 2, uint32(op%3)%2, op/3, strings.Join(desc, ", then ")).Clone()
						continue
					}
					desc = append(desc, "edit")
				}
				x.State(cat(stateTx(t), []byte(strings.Join(desc, ";"))))
			}},
			{Name: "same-signer", Bound: "one transaction object given to 2 signers in turn while a second transaction is signed by the same signers between: every pair of behaviours x 3 methods", Run: func(x *X) {
				a, b := simpleTx(2, 1), simpleTx(1, 3)
				la, lb := libTx(a), libTx(b)
				k1, k2, m := x.Choose(signerKinds), x.Choose(signerKinds), x.Choose(3)
				a2 := external(x, la, a, m == 2, uint32(m), k1, "first").Clone()
				b2 := external(x, lb, b, m == 2, uint32(m), k2, "second").Clone()
				if d := diffTx(la, a2, true); d != "" {
					x.Failf("other transaction", "signing another transaction changed the first: %s", d)
				}
				external(x, la, a2, m != 2, 1, k2, "third")
				if d := diffTx(lb, b2, true); d != "" {
					x.Failf("other transaction", "signing another transaction changed the second: %s", d)
				}
				x.Statef("%d %d %d", k1, k2, m)
				x.Step(2)
			}},
		}})

	register(engine.Property{ID: "C33", Level: "model_checking",
		Rule:        "every block template of the bound is taken through coinbase, branches, root and header by the library, and header, tree, coinbase and the spend of its reward are recomputed independently; a state is a distinct header with its coinbase",
		Assumptions: []string{baseAssumption, "the two extra nonces are 12 bytes together; time, bits and nonce are given in wire order"},
		Scenarios: []engine.Scenario{
			{Name: "transaction-counts", Bound: "templates of 0..130 transactions besides the coinbase, +-1 around 256 and 512 (thorough 1024, 2048) x 2 wallets", Run: func(x *X) {
				n := engine.Pick(x, lensAround(130, 1, 256, 512))
				if x.Thorough && x.Bool() {
					n = engine.Pick(x, []int{200, 400, 700, 1000, 1023, 1024, 1025, 2047, 2048})
				}
				w := x.Choose(2)
				mine(x, blockCase{txs: n, height: 700000 + uint32(n), value: 625000000, text: "/pool/", wallet: w, main: w == 0, e1: 4, bits: 0x1d00ffff, version: 0x20000000})
			}},
			{Name: "parameters", Bound: "template sizes {0,1,2,5} x heights(12) x text lengths {0,1,6,82..88,200} x witness commitment {none, 38 bytes} x miner id {none, 1, 300 bytes} x wallet(3) x network x 3 values (quick: template size, wallet, network and value follow the other choices)", Run: func(x *X) {
				h := engine.Pick(x, []uint32{0, 1, 16, 17, 127, 128, 255, 256, 32767, 32768, 8388608, math.MaxUint32})
				c := blockCase{height: h, text: string(pat(engine.Pick(x, []int{0, 1, 6, 82, 83, 84, 85, 86, 87, 88, 200}), 5)), version: h + 1, bits: 0x1b0404cb, e1: 6}
				if x.Bool() {
					c.witness = cat([]byte{0x6a, 0x24}, pat(36, 2))
				}
				if k := x.Choose(3); k > 0 {
					c.miner = pat([]int{1, 300}[k-1], 3)
				}
				s := int(h%5) + len(c.text) + len(c.miner) + len(c.witness)
				sizes, vals := []int{0, 1, 2, 5}, []uint64{0, 5000000000, math.MaxUint64}
				if x.Thorough {
					c.txs, c.wallet, c.main, c.value = engine.Pick(x, sizes), x.Choose(3), x.Bool(), engine.Pick(x, vals)
				} else {
					c.txs, c.wallet, c.main, c.value = sizes[x.Choose(2)*2+s%2], s%3, s/3%2 == 0, vals[x.Choose(3)]
				}
				mine(x, c)
			}},
			{Name: "extra-nonces", Bound: "every split of the 12 extra nonce bytes x template sizes 0..8 x 6 compact targets x 4 versions", Run: func(x *X) {
				mine(x, blockCase{e1: x.Choose(13), txs: x.Choose(9), height: 123456, value: 1, text: "x", wallet: 1, main: true, bits: engine.Pick(x, []uint32{0x1d00ffff, 0x1b0404cb, 0x207fffff, 0x01003456, 0x04923456, 0x17053894}), version: engine.Pick(x, []uint32{1, 2, 0x20000000, math.MaxUint32})})
			}},
		}})

	register(engine.Property{ID: "C34", Level: "model_checking",
		Rule:        "for every key or hash of the bound all ways to name its owner are compared with each other and with the template; a state is a distinct hash",
		Assumptions: []string{baseAssumption},
		Scenarios: []engine.Scenario{
			{Name: "keys", Bound: "the public keys of private keys 1..2000 (thorough 1..40000), compressed, and the strings of their uncompressed and hybrid forms", Run: func(x *X) {
				n := 2000
				if x.Thorough {
					n = 40000
				}
				_, pub := bsvec.PrivKeyFromBytes(bsvec.S256(), big.NewInt(int64(x.Choose(n)+1)).Bytes())
				c := pub.SerializeCompressed()
				agree(x, c, ref.Hash160(c), true)
				u := pub.SerializeUncompressed()
				agree(x, u, ref.Hash160(u), false)
				hyb := pub.SerializeHybrid()
				agree(x, hyb, ref.Hash160(hyb), false)
				x.Validated(2)
			}},
			{Name: "hash-bits", Bound: "every hash with 0, 1 or 2 bits set or clear", Run: func(x *X) {
				i, j := x.Choose(160), x.Choose(160)
				if j < i {
					x.Prune()
				}
				h := rep(20, 0)
				h[i/8] ^= 1 << uint(i%8)
				if j != i {
					h[j/8] ^= 1 << uint(j%8)
				}
				if x.Bool() {
					for k := range h {
						h[k] = ^h[k]
					}
				}
				if i == 0 && j == 0 {
					agree(x, nil, rep(20, 0), true)
					agree(x, nil, rep(20, 0xff), true)
				}
				agree(x, nil, h, false)
			}},
			{Name: "hash-bytes", Bound: "every byte value at every position of the hash over 3 backgrounds; every number of leading and trailing equal bytes of every value", Run: func(x *X) {
				p, v := x.Choose(20), byte(x.Choose(256))
				for k, b := range [][]byte{rep(20, 0), rep(20, 0xff), pat(20, 3)} {
					h := cp(b)
					h[p] = v
					agree(x, nil, h, k == 2)
					copy(h, rep(p+1, v))
					agree(x, nil, h, false)
					h = cp(b)
					copy(h[p:], rep(20, v))
					agree(x, nil, h, false)
				}
				x.Validated(8)
			}},
		}})

	register(engine.Property{ID: "C35", Level: "model_checking",
		Rule:        "every list of parts of the bound is stored in every way, relayed and read back in every way; a state is a distinct carrier with its way",
		Assumptions: []string{baseAssumption, "an empty part is stored as OP_0 and may read back as empty or as that opcode byte; the text (ASM) forms cannot express an empty push: lists with one are not written or read as text"},
		Scenarios: []engine.Scenario{
			{Name: "part-lists", Bound: "every list of 0..3 (thorough 4) parts out of 9 (empty, one byte 00/01/10/51/6a/81, 75, 76 and 256 bytes) x 8 ways of storing x 3 wire forms x first or second output (quick: wire form and position follow the list)", Run: func(x *X) {
				al := [][]byte{{}, {0}, {1}, {0x10}, {0x51}, {0x6a}, pat(75, 1), pat(76, 2), pat(256, 3)}
				n := 3
				if x.Thorough {
					n = 4
				}
				way := x.Choose(len(dataWays))
				var ps [][]byte
				s := 0
				for i := 0; i < n; i++ {
					c := x.Choose(len(al) + 1)
					if c == len(al) {
						break
					}
					s += c*(i+1) + 1
					ps = append(ps, al[c])
				}
				if x.Thorough {
					carry(x, ps, way, 1+x.Choose(3), x.Choose(2))
				} else {
					carry(x, ps, way, 1+(s+way)%3, s/3%2)
				}
				x.Outcome(fmt.Sprintf("%s, %d parts", dataWays[way], len(ps)))
			}},
			{Name: "one-byte", Bound: "every one-byte part x 8 ways; every two-byte part ending or starting with one of 8 bytes x 3 ways", Run: func(x *X) {
				v := byte(x.Choose(256))
				if x.Bool() {
					carry(x, [][]byte{{v}}, x.Choose(len(dataWays)), 1, 0)
					return
				}
				w := engine.Pick(x, []byte{0, 1, 0x4c, 0x4d, 0x4e, 0x6a, 0x80, 0xff})
				carry(x, [][]byte{{v, w}, {w, v}}, []int{0, 2, 6}[x.Choose(3)], 2, 1)
			}},
			{Name: "lengths", Bound: "one part of every length 0..600, 65530..65541 and (thorough) 70000, 100000, 10 contents, x 8 ways", Run: func(x *X) {
				l := lensAround(600, 5, 65535)
				if x.Thorough {
					l = append(l, 70000, 100000)
				}
				n := engine.Pick(x, l)
				way := x.Choose(len(dataWays))
				if !x.Thorough && n > 600 && way > 3 {
					x.Prune()
				}
				carry(x, [][]byte{fill(n, (n+way)%nFills)}, way, 1+n%3, n%2)
			}},
			{Name: "length-lists", Bound: "every list of 2 (thorough 3) parts with lengths out of {0,1,2,75,76,255,256,65535,65536,65537} x 8 ways of storing", Run: func(x *X) {
				n := 2
				if x.Thorough {
					n = 3
				}
				way := x.Choose(len(dataWays))
				var ps [][]byte
				sum := 0
				for i := 0; i < n; i++ {
					l := []int{0, 1, 2, 75, 76, 255, 256, 65535, 65536, 65537}[x.Choose(10)]
					sum += l
					ps = append(ps, fill(l, (i+l)%nFills))
				}
				carry(x, ps, way, 1+sum%3, sum%2)
			}},
			{Name: "many-parts", Bound: "1..130 and around 252, 256, 500, 1000 parts of the same kind (4 kinds) x 6 ways", Run: func(x *X) {
				n := engine.Pick(x, lensAround(130, 1, 253, 256, 500, 1000))
				if n == 0 {
					x.Prune()
				}
				k := x.Choose(4)
				ps := make([][]byte, n)
				for i := range ps {
					ps[i] = [][]byte{{byte(i)}, pat(3, i), pat(80, i), pat(i%7+1, i)}[k]
				}
				carry(x, ps, []int{0, 2, 3, 5, 6, 7}[x.Choose(6)], 1+n%3, k%2)
			}},
		}})
}
