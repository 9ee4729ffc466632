package checks

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"

	"verif/mc/engine"
	"verif/mc/ref"
)

func forkFlags() []uint8 {
	var r []uint8
	for f := 0; f < 256; f++ {
		if f&0x40 != 0 {
			r = append(r, uint8(f))
		}
	}
	return r
}

var someFlags = []uint8{0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 0x40, 0xc0, 0x44, 0x5f, 0x61, 0x62, 0x63, 0xe3, 0x53, 0xff}

// digest compares one digest with the model and verifies that nothing changed.
func digest(x *X, tx *transaction.Transaction, t *ref.Tx, idx int, f uint8, what string) {
	want := ref.Rev(t.SigHash(idx, uint32(f)))
	var g []byte
	var err error
	if p := caught(func() { g, err = tx.GetInputSignatureHash(uint32(idx), sighash.Flag(f)) }); p != "" {
		x.Failf("digest panics", "GetInputSignatureHash(%d, %#x) panics: %s (%s)", idx, f, p, what)
	}
	if err != nil {
		x.Failf("digest error", "GetInputSignatureHash(%d, %#x) fails: %v (%s)", idx, f, err, what)
	}
	if !bytes.Equal(g, want) {
		x.Failf("digest", "GetInputSignatureHash(%d, %#x) of %d inputs, %d outputs = %x, want %x (%s)", idx, f, len(t.Ins), len(t.Outs), g, want, what)
	}
	if d := diffTx(tx, t, true); d != "" {
		x.Failf("digest changed the transaction", "after GetInputSignatureHash(%d, %#x): %s (%s)", idx, f, d, what)
	}
	x.State(append(stateTx(t), f, byte(idx), byte(idx>>8)))
}

func init() {
	register(engine.Property{ID: "C04", Level: "model_checking",
		Rule:        "the digest of every (transaction, input, flag) of the bound is compared with an independent implementation of the replay-protected algorithm; a state is a distinct (transaction, input, flag)",
		Assumptions: []string{baseAssumption, "flags without the FORKID bit follow another algorithm and are not covered"},
		Scenarios: append(spaceScenarios(6, txJudge("C04")), []engine.Scenario{
			{Name: "all-flags", Bound: "all 128 flag bytes with FORKID x 1..5 inputs x 0..6 outputs x every input index", Run: func(x *X) {
				ni, no := 1+x.Choose(5), x.Choose(7)
				idx := x.Choose(5)
				if idx >= ni {
					x.Prune()
				}
				f := engine.Pick(x, forkFlags())
				t := simpleTx(ni, no)
				tx := libTx(t)
				digest(x, tx, t, idx, f, "")
				digest(x, tx, t, idx, f, "second call")
				x.Outcome(fmt.Sprintf("base %d acp %v single-out-of-range %v", f&31, f&128 != 0, idx >= no))
			}},
			{Name: "signed-input-fields", Bound: "16 flags x txid(4) x vout(8) x sequence(4) x amount(8) x previous script length {0,1,25,252,253} for the signed input", Run: func(x *X) {
				f := engine.Pick(x, someFlags)
				t := simpleTx(2, 2)
				t.Ins[1] = ref.In{TxID: engine.Pick(x, txids), Vout: engine.Pick(x, u32s), Seq: engine.Pick(x, seqs), Sats: engine.Pick(x, u64s), Prev: pat([]int{0, 1, 25, 252, 253}[x.Choose(5)], 7)}
				digest(x, libTx(t), t, 1, f, "")
			}},
			{Name: "other-fields", Bound: "16 flags x version(7) x locktime(8) x other input's (txid(4), vout(3), sequence(4)) x 2 values of an output's amount and script", Run: func(x *X) {
				f := engine.Pick(x, someFlags)
				t := simpleTx(2, 2)
				t.Version, t.Locktime = engine.Pick(x, versions), engine.Pick(x, u32s)
				t.Ins[0].TxID, t.Ins[0].Vout, t.Ins[0].Seq = engine.Pick(x, txids), []uint32{0, 0x01020304, 0xffffffff}[x.Choose(3)], engine.Pick(x, seqs)
				if x.Bool() {
					t.Outs[1].Sats = 1 << 40
					t.Outs[0].Script = nil
				}
				digest(x, libTx(t), t, 1, f, "")
			}},
			{Name: "output-values", Bound: "8 flags x 1..2 outputs with amount(8) x script length {0,1,25,252,253,254,255,256} each, inputs 1..2, every index", Run: func(x *X) {
				f := someFlags[x.Choose(8)]
				ni, no := 1+x.Choose(2), 1+x.Choose(2)
				idx := x.Choose(2)
				if idx >= ni {
					x.Prune()
				}
				t := simpleTx(ni, 0)
				for i := 0; i < no; i++ {
					t.Outs = append(t.Outs, ref.Out{Sats: engine.Pick(x, u64s), Script: pat([]int{0, 1, 25, 252, 253, 254, 255, 256}[x.Choose(8)], i)})
				}
				digest(x, libTx(t), t, idx, f, "")
			}},
			{Name: "script-lengths", Bound: "previous script or output script of every length 0..600 and 65500..65600 (thorough 0..70000), flags ALL, SINGLE, ALL|ANYONECANPAY", Run: func(x *X) {
				lens := lensAround(600, 50, 65550)
				if x.Thorough {
					lens = lensAround(70000, 1, 1<<20)
				}
				n := engine.Pick(x, lens)
				t := simpleTx(2, 2)
				if x.Bool() {
					t.Ins[1].Prev = pat(n, 5)
				} else {
					t.Outs[1].Script = pat(n, 6)
				}
				f := []uint8{0x41, 0x43, 0xc1}[x.Choose(3)]
				digest(x, libTx(t), t, 1, f, "")
			}},
			{Name: "counts", Bound: "every (inputs, outputs) with one of them in 1..300 (step 1 quick) and the other in {1,2,3}, flags ALL, NONE, SINGLE with and without ANYONECANPAY, indexes first, last, outputs-1, outputs, outputs+1", Run: func(x *X) {
				n, m := 1+x.Choose(300), 1+x.Choose(3)
				t := (*ref.Tx)(nil)
				if x.Bool() {
					t = simpleTx(n, m)
				} else {
					t = simpleTx(m, n)
				}
				f := someFlags[x.Choose(6)]
				k := x.Choose(5)
				idx := []int{0, len(t.Ins) - 1, len(t.Outs) - 1, len(t.Outs), len(t.Outs) + 1}[k]
				if idx >= len(t.Ins) {
					x.Prune()
				}
				digest(x, libTx(t), t, idx, f, "")
			}},
			{Name: "single-index", Bound: "300 (thorough 700) inputs, every index, outputs = index-1, index, index+1, index+2, 256, 300, flags SINGLE, SINGLE|ANYONECANPAY, NONE, ALL", Run: func(x *X) {
				n := 300
				if x.Thorough {
					n = 700
				}
				idx := x.Choose(n)
				no := []int{idx - 1, idx, idx + 1, idx + 2, 256, 300}[x.Choose(6)]
				if no < 0 {
					x.Prune()
				}
				t := simpleTx(n, no)
				tx := libTx(t)
				for _, f := range []uint8{0x43, 0xc3, 0x42, 0x41} {
					digest(x, tx, t, idx, f, "")
				}
				x.Step(3)
				x.Validated(3)
			}},
			{Name: "single-large-index", Bound: "65540 inputs and outputs, index 32767, 32768, 65534..65539, flags SINGLE, SINGLE|ANYONECANPAY", Run: func(x *X) {
				idx := []int{32767, 32768, 65534, 65535, 65536, 65537, 65538, 65539}[x.Choose(8)]
				t := simpleTx(65540, 65540)
				tx := libTx(t)
				digest(x, tx, t, idx, 0x43, "")
				digest(x, tx, t, idx, 0xc3, "")
			}},
			{Name: "large-counts", Bound: "65535, 65536, 65537 inputs or outputs, index 0, 65534.., flags ALL, SINGLE", Run: func(x *X) {
				n := 65535 + x.Choose(3)
				t := (*ref.Tx)(nil)
				if x.Bool() {
					t = simpleTx(n, 2)
				} else {
					t = simpleTx(2, n)
				}
				idx := []int{0, 1, len(t.Ins) - 1}[x.Choose(3)]
				digest(x, libTx(t), t, idx, []uint8{0x41, 0x43}[x.Choose(2)], "")
			}},
			{Name: "special-scripts", Bound: "previous scripts with OP_CODESEPARATOR, OP_RETURN, truncated pushes, P2SH, and nil/absent unlocking scripts or nil previous scripts of the other inputs; 16 flags", Run: func(x *X) {
				f := engine.Pick(x, someFlags)
				ps := [][]byte{{}, {0xab}, cat([]byte{0xab}, ref.P2PKH(pat(20, 1)), []byte{0xab, 0x51}), {0x4c}, {0x4d, 0xff}, {0x6a, 1, 2}, ref.P2SH(pat(20, 2)), {0, 0x6a, 3, 1, 2, 3}, rep(50, 0xab), {0x4e, 0xff, 0xff, 0xff, 0xff}}
				t := simpleTx(3, 3)
				idx := x.Choose(3)
				t.Ins[idx].Prev = engine.Pick(x, ps)
				other := (idx + 1) % 3
				tx := libTx(t)
				switch x.Choose(4) {
				case 1:
					tx.Inputs[other].PreviousTxScript = nil
					t.Ins[other].Prev = nil
				case 2:
					tx.Inputs[idx].UnlockingScript = nil
					t.Ins[idx].Script = nil
				case 3:
					for i := range tx.Inputs {
						tx.Inputs[i].PreviousTxID = strings.ToUpper(tx.Inputs[i].PreviousTxID)
					}
				}
				digest(x, tx, t, idx, f, "")
			}},
			{Name: "refusals", Bound: "1..3 inputs, index = n, n+1, 2^31-1, 2^31, 2^32-1; missing previous txid; missing previous script; 16 flags", Run: func(x *X) {
				f := engine.Pick(x, someFlags)
				n := x.Choose(4)
				t := simpleTx(n, x.Choose(3))
				tx := libTx(t)
				kind := x.Choose(7)
				idx := []uint32{uint32(n), uint32(n) + 1, 0x7fffffff, 0x80000000, 0xffffffff, 0, 0}[kind]
				if kind >= 5 {
					if n == 0 {
						x.Prune()
					}
					idx = uint32(n - 1)
					if kind == 5 {
						tx.Inputs[idx].PreviousTxID = ""
						t.Ins[idx].TxID = nil
					} else {
						tx.Inputs[idx].PreviousTxScript = nil
						t.Ins[idx].Prev = nil
					}
				}
				var err error
				if p := caught(func() { _, err = tx.GetInputSignatureHash(idx, sighash.Flag(f)) }); p != "" {
					x.Failf("refusal panics", "GetInputSignatureHash(%d) of %d inputs, kind %d panics: %s", idx, n, kind, p)
				}
				if err == nil {
					x.Failf("refusal missing", "GetInputSignatureHash(%d) of %d inputs, kind %d (5: no txid, 6: no script) gives no error", idx, n, kind)
				}
				if d := diffTx(tx, t, true); d != "" {
					x.Failf("refusal changes", "%s", d)
				}
				x.Statef("%d %d %d", n, kind, f)
			}},
			{Name: "edit-histories", Bound: "all histories of 2 (thorough 3) edits out of 22, every flag out of {ALL,NONE,SINGLE} x ANYONECANPAY and every input digested after each edit", Run: sighashHistory},
		}...)})

	register(engine.Property{ID: "C05", Level: "model_checking",
		Rule:        "every signature made is parsed strictly, checked low-S and verified against the model's digest; everything else in the transaction is compared with the model; a state is a distinct signed transaction skeleton (transaction, input, key, flag)",
		Assumptions: []string{baseAssumption, "bsvec.Signature.Verify decides ECDSA validity"},
		Scenarios: append(spaceScenarios(3, txJudge("C05")), []engine.Scenario{
			{Name: "all-flags", Bound: "128 FORKID flags and the unset flag x (inputs, outputs) in 6 shapes x every input x 2 keys", Run: func(x *X) {
				sh := [][2]int{{1, 1}, {2, 1}, {2, 2}, {3, 2}, {3, 0}, {1, 3}}[x.Choose(6)]
				idx := x.Choose(3)
				if idx >= sh[0] {
					x.Prune()
				}
				k := x.Choose(2)
				fs := append([]uint8{0}, forkFlags()...)
				f := engine.Pick(x, fs)
				t := simpleTx(sh[0], sh[1])
				tx := libTx(t)
				signCheck(x, tx, t, idx, k, f, true)
			}},
			{Name: "keys-and-scripts", Bound: "12 keys (1, 2, n-1, with leading zeros in the private key, in either coordinate or in the hash, patterns) x 7 previous scripts x 6 flags", Run: func(x *X) {
				t := simpleTx(2, 2)
				k := x.Choose(len(keys))
				t.Ins[1].Prev = engine.Pick(x, [][]byte{ref.P2PKH(pat(20, 1)), {}, {0x51}, pat(252, 1), pat(253, 2), cat(ref.Push(keys[k].pub), []byte{0xac}), pat(300, 3)})
				signCheck(x, libTx(t), t, 1, k, someFlags[x.Choose(6)], true)
			}},
			{Name: "many-digests", Bound: "3 keys x 600 transactions differing in locktime (every DER length and leading-zero case that occurs)", Run: func(x *X) {
				t := simpleTx(1, 1)
				k := x.Choose(3)
				n := 600
				if x.Thorough {
					n = 20000
				}
				t.Locktime = uint32(x.Choose(n))
				signCheck(x, libTx(t), t, 0, k, 0x41, true)
			}},
			{Name: "histories", Bound: "all histories of 3 (thorough 4) operations out of: sign input i with key k and flag f (12), edit output, edit locktime, failing sign", Run: signHistory},
			{Name: "signer-edits", Bound: "one signer object, one transaction of 2 inputs: every history of 4 (thorough 5) steps out of: sign input 0 or 1 (through the transaction or through the signer), replace the signer's key (3), its flag (3), copy the signer, change the locktime and back", Run: signerHistory},
			{Name: "fields", Bound: "amount(8) x sequence(4) x vout(8) x flags(3): signature covers the fields of the input", Run: func(x *X) {
				t := simpleTx(2, 2)
				t.Ins[0].Sats, t.Ins[0].Seq, t.Ins[0].Vout = engine.Pick(x, u64s), engine.Pick(x, seqs), engine.Pick(x, u32s)
				signCheck(x, libTx(t), t, 0, 3, []uint8{0x41, 0xc3, 0}[x.Choose(3)], true)
			}},
			{Name: "counts", Bound: "inputs in {1,2,3,10,252,253,254,300}, outputs in {0,1,252,253,254}, first/last index, flags ALL, SINGLE|ANYONECANPAY, NONE", Run: func(x *X) {
				t := simpleTx([]int{1, 2, 3, 10, 252, 253, 254, 300}[x.Choose(8)], []int{0, 1, 252, 253, 254}[x.Choose(5)])
				idx := 0
				if x.Bool() {
					idx = len(t.Ins) - 1
				}
				signCheck(x, libTx(t), t, idx, 4, []uint8{0x41, 0xc3, 0x42}[x.Choose(3)], true)
			}},
			{Name: "refusals", Bound: "0..3 inputs x 5 out-of-range indexes, missing txid, missing script, through Transaction.Sign and InternalSigner.Sign", Run: func(x *X) {
				n := x.Choose(4)
				t := simpleTx(n, 1)
				tx := libTx(t)
				kind := x.Choose(7)
				idx := []uint32{uint32(n), uint32(n) + 1, 0x7fffffff, 0x80000000, 0xffffffff, 0, 0}[kind]
				if kind >= 5 {
					if n == 0 {
						x.Prune()
					}
					idx = uint32(x.Choose(3))
					if idx >= uint32(n) {
						x.Prune()
					}
					if kind == 5 {
						tx.Inputs[idx].PreviousTxID = ""
						t.Ins[idx].TxID = nil
					} else {
						tx.Inputs[idx].PreviousTxScript = nil
						t.Ins[idx].Prev = nil
					}
				}
				s := &signature.InternalSigner{PrivateKey: keys[0].priv, SigHashFlag: sighash.Flag([]uint8{0, 0x41, 0xc3}[x.Choose(3)])}
				direct := x.Bool()
				var err error
				if p := caught(func() {
					if direct {
						_, err = s.Sign(idx, tx)
					} else {
						err = tx.Sign(idx, s)
					}
				}); p != "" {
					x.Failf("refusal panics", "Sign(%d) of %d inputs, kind %d panics: %s", idx, n, kind, p)
				}
				if err == nil {
					x.Failf("refusal missing", "Sign(%d) of %d inputs, kind %d (5: no txid, 6: no script) gives no error", idx, n, kind)
				}
				if d := diffTx(tx, t, true); d != "" {
					x.Failf("refusal changes", "failed Sign changed the transaction: %s", d)
				}
				x.Statef("%d %d %d %v", n, kind, idx, direct)
			}},
			{Name: "unlocking-script", Bound: "NewP2PKHUnlockingScript for every signature length 0..300 and public key length {0,33,65,75,76,255,256}, 4 flags", Run: func(x *X) {
				n, m := x.Choose(301), []int{33, 65, 1, 75, 76, 255, 256}[x.Choose(7)]
				f := []uint8{0x41, 0xc3, 0x42, 1}[x.Choose(4)]
				sig, pub := mkGuard(pat(n, 1), 8), mkGuard(pat(m, 2), 8)
				try(x, "NewP2PKHUnlockingScript", func() {
					s, err := script.NewP2PKHUnlockingScript(pub.b(), sig.b(), sighash.Flag(f))
					want := cat(ref.Push(cat(pat(n, 1), []byte{f})), ref.Push(pat(m, 2)))
					if err != nil || !bytes.Equal(*s, want) {
						x.Failf("NewP2PKHUnlockingScript", "sig length %d, key length %d, flag %#x: wrong script, err %v", n, m, f, err)
					}
				})
				sig.check(x, "NewP2PKHUnlockingScript signature")
				pub.check(x, "NewP2PKHUnlockingScript key")
				x.Statef("%d %d %d", n, m, f)
			}},
		}...)})

	register(engine.Property{ID: "C06", Level: "model_checking",
		Rule:        "every assignment of input kinds to inputs and every signer sequence is run; matching inputs must verify, all others must be untouched; a state is a distinct (kinds, signers, flag)",
		Assumptions: []string{baseAssumption, "a script which only starts like P2PKH (DUP HASH160 <hash> and then another tail) may be treated either way"},
		Scenarios: []engine.Scenario{
			{Name: "kinds", Bound: "1..3 (thorough 4) inputs, each of 17 kinds x 5 flags x 1 signer (2 keys)", Run: func(x *X) {
				n := 1 + x.Choose(3)
				if x.Thorough {
					n = 1 + x.Choose(4)
				}
				var ks []int
				for i := 0; i < n; i++ {
					ks = append(ks, x.Choose(nKinds))
				}
				f := []uint8{0, 0x41, 0x42, 0x43, 0xc3}[0]
				if n < 3 {
					f = []uint8{0, 0x41, 0x42, 0x43, 0xc3}[x.Choose(5)]
				}
				signer := x.Choose(2)
				if signer == 1 && n > 2 {
					x.Prune()
				}
				auto(x, ks, []int{signer}, []uint8{f})
			}},
			{Name: "signer-sequences", Bound: "2..4 inputs over 4 kinds x every sequence of 2 (thorough 3) signers out of 3 keys, two flags", Run: func(x *X) {
				n := 2 + x.Choose(3)
				var ks []int
				for i := 0; i < n; i++ {
					ks = append(ks, []int{kindP2PKH0, kindP2PKH1, kindP2SH, kindUnc}[x.Choose(4)])
				}
				m := 2
				if x.Thorough {
					m = 3
				}
				var ss []int
				var fs []uint8
				for i := 0; i < m; i++ {
					ss = append(ss, x.Choose(3))
					fs = append(fs, []uint8{0, 0xc3}[i%2])
				}
				auto(x, ks, ss, fs)
			}},
			{Name: "all-flags", Bound: "128 FORKID flags, 3 inputs of which 1 or 2 match, 1..3 outputs", Run: func(x *X) {
				f := engine.Pick(x, forkFlags())
				ks := [][]int{{kindP2PKH0, kindP2SH, kindP2PKH0}, {kindP2PKH1, kindP2PKH0, kindNone}}[x.Choose(2)]
				autoN(x, ks, []int{0}, []uint8{f}, 1+x.Choose(3))
			}},
			{Name: "many-inputs", Bound: "20 and 260 inputs, every single matching position (20) / every 13th (260) and all matching", Run: func(x *X) {
				n := []int{20, 260}[x.Choose(2)]
				p := x.Choose(21)
				ks := make([]int, n)
				for i := range ks {
					ks[i] = kindP2PKH1
					if p == 20 && n == 20 || i == p*(n/20) {
						ks[i] = kindP2PKH0
					}
				}
				auto(x, ks, []int{0}, []uint8{0})
			}},
			{Name: "signer-edits", Bound: "one signer object used for SignAuto 3 (thorough 4) times, its key (2) and flag (3) replaced before each, on one transaction whose inputs pay to both keys, an input's previous script swapped or not in between", Run: func(x *X) {
				t := simpleTx(3, 2)
				for i := range t.Ins {
					t.Ins[i].Prev = ref.P2PKH(keys[i&1].hash)
				}
				tx := libTx(t)
				sg := &signature.InternalSigner{}
				n := 3
				if x.Thorough {
					n = 4
				}
				desc := ""
				for s := 0; s < n; s++ {
					k, f := x.Choose(2), []uint8{0x41, 0xc3, 0x42}[x.Choose(3)]
					sg.PrivateKey, sg.SigHashFlag = keys[k].priv, sighash.Flag(f)
					desc += fmt.Sprintf(" key %d flag %#x", k, f)
					if x.Bool() {
						t.Ins[0].Prev, t.Ins[1].Prev = t.Ins[1].Prev, t.Ins[0].Prev
						tx.Inputs[0].PreviousTxScript, tx.Inputs[1].PreviousTxScript = tx.Inputs[1].PreviousTxScript, tx.Inputs[0].PreviousTxScript
						desc += " swapped"
					}
					var err error
					try(x, "SignAuto", func() { err = tx.SignAuto(sg) })
					if err != nil {
						x.Failf("SignAuto fails", "after%s: %v", desc, err)
					}
					for i := range t.Ins {
						if bytes.Equal(t.Ins[i].Prev, ref.P2PKH(keys[k].hash)) {
							if tx.Inputs[i].UnlockingScript == nil {
								x.Failf("SignAuto result", "after%s: no unlocking script for matching input %d", desc, i)
							}
							t.Ins[i].Script = cp(*tx.Inputs[i].UnlockingScript)
							checkUnlock(x, t.Ins[i].Script, t, i, &keys[k], f, "one signer:"+desc)
						}
					}
					if d := diffTx(tx, t, true); d != "" {
						x.Failf("SignAuto changes more", "after%s: %s", desc, d)
					}
				}
				x.Statef("%s", desc)
			}},
			{Name: "near-miss-hash", Bound: "the signer's hash with each of its 160 bits flipped, alone and beside a matching input", Run: func(x *X) {
				b := x.Choose(160)
				h := cp(keys[0].hash)
				h[b/8] ^= 1 << uint(b%8)
				t := simpleTx(2, 1)
				t.Ins[0].Prev = ref.P2PKH(h)
				t.Ins[1].Prev = ref.P2PKH(h)
				if x.Bool() {
					t.Ins[1].Prev = ref.P2PKH(keys[0].hash)
				}
				autoTx(x, t, []int{0}, []uint8{0x41})
			}},
		}})
}

// ---- keys and signatures ------------------------------------------------------

type key struct {
	priv *bsvec.PrivateKey
	pub  []byte
	unc  []byte
	hash []byte
}

var keys = makeKeys()

func makeKeys() (keys []key) {
	add := func(b []byte) {
		p, pub := bsvec.PrivKeyFromBytes(bsvec.S256(), b)
		c := pub.SerializeCompressed()
		keys = append(keys, key{p, c, pub.SerializeUncompressed(), ref.Hash160(c)})
	}
	n1 := new(big.Int).Sub(bsvec.S256().N, big.NewInt(1))
	add(pat(32, 900))
	add(pat(32, 901))
	add(cat(rep(4, 0), pat(28, 902)))
	add([]byte{1})
	add([]byte{2})
	add(n1.Bytes())
	add(pat(32, 905))
	// leading zero bytes: y of 122; x of 153, 1158 (odd y) and 44629 (two); hash of 182
	for _, d := range []int64{122, 153, 182, 1158, 44629} {
		add(big.NewInt(d).Bytes())
	}
	return
}

// strictDER parses a DER signature with minimal integers.
func strictDER(b []byte) (r, s *big.Int, ok bool) {
	if len(b) < 8 || b[0] != 0x30 || int(b[1]) != len(b)-2 {
		return
	}
	rd := func(b []byte) (*big.Int, []byte, bool) {
		if len(b) < 3 || b[0] != 2 || int(b[1])+2 > len(b) || b[1] == 0 {
			return nil, nil, false
		}
		v := b[2 : 2+int(b[1])]
		if v[0]&0x80 != 0 || (len(v) > 1 && v[0] == 0 && v[1]&0x80 == 0) {
			return nil, nil, false
		}
		return new(big.Int).SetBytes(v), b[2+int(b[1]):], true
	}
	r, rest, k := rd(b[2:])
	if !k {
		return
	}
	s, rest, k = rd(rest)
	return r, s, k && len(rest) == 0
}

// checkUnlock verifies that us is <DER low-S signature||flag> <compressed key>
// over the model's digest.
func checkUnlock(x *X, us []byte, t *ref.Tx, idx int, k *key, f uint8, what string) {
	ops, ok := ref.ParseScript(us)
	if !ok || len(ops) != 2 || !ops[0].Push || !ops[1].Push {
		x.Failf("unlocking script shape", "input %d: unlocking script %s is not two pushes (%s)", idx, short(us), what)
	}
	sig, pub := ops[0].Data, ops[1].Data
	if !bytes.Equal(us, cat(ref.Push(sig), ref.Push(pub))) {
		x.Failf("unlocking script pushes", "input %d: pushes are not the shortest: %s (%s)", idx, short(us), what)
	}
	if !bytes.Equal(pub, k.pub) {
		x.Failf("public key", "input %d: pushed key %x, want %x (%s)", idx, pub, k.pub, what)
	}
	if len(sig) == 0 || sig[len(sig)-1] != f {
		x.Failf("flag byte", "input %d: signature %x does not end with flag %#x (%s)", idx, sig, f, what)
	}
	r, s, dok := strictDER(sig[:len(sig)-1])
	n := bsvec.S256().N
	if !dok || r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(n) >= 0 || s.Cmp(n) >= 0 {
		x.Failf("DER", "input %d: %x is not a strict DER signature (%s)", idx, sig, what)
	}
	if new(big.Int).Lsh(s, 1).Cmp(n) > 0 {
		x.Failf("high S", "input %d: S is in the upper half (%s)", idx, what)
	}
	sg := &bsvec.Signature{R: r, S: s}
	if !sg.Verify(t.SigHash(idx, uint32(f)), k.priv.PubKey()) {
		x.Failf("signature", "input %d: the signature does not verify against the replay-protected digest for flag %#x (%s)", idx, f, what)
	}
}

func effective(f uint8) uint8 {
	if f == 0 {
		return 0x41
	}
	return f
}

// signCheck signs one input and compares everything with the model, whose
// unlocking script is then set to what the library produced.
func signCheck(x *X, tx *transaction.Transaction, t *ref.Tx, idx, k int, f uint8, viaTx bool) {
	s := &signature.InternalSigner{PrivateKey: keys[k].priv, SigHashFlag: sighash.Flag(f)}
	what := fmt.Sprintf("%d in, %d out, key %d, flag %#x", len(t.Ins), len(t.Outs), k, f)
	var err error
	var got *transaction.Transaction
	try(x, "Sign", func() {
		if viaTx {
			err = tx.Sign(uint32(idx), s)
			got = tx
		} else {
			got, err = s.Sign(uint32(idx), tx)
		}
	})
	if err != nil {
		x.Failf("Sign fails", "Sign(%d) fails: %v (%s)", idx, err, what)
	}
	if got == nil || idx >= len(got.Inputs) || got.Inputs[idx] == nil || got.Inputs[idx].UnlockingScript == nil {
		x.Failf("Sign result", "Sign(%d) leaves no unlocking script (%s)", idx, what)
	}
	us := cp(*got.Inputs[idx].UnlockingScript)
	t.Ins[idx].Script = us
	if d := diffTx(got, t, true); d != "" {
		x.Failf("Sign changes more", "Sign(%d) changed something besides the unlocking script of input %d: %s (%s)", idx, idx, d, what)
	}
	checkUnlock(x, us, t, idx, &keys[k], effective(f), what)
	b := got.ToBytes()
	if !bytes.Equal(b, t.Bytes()) {
		x.Failf("signed serialisation", "the signed transaction serialises wrongly (%s)", what)
	}
	x.State(append(stateTx(t), byte(idx), byte(k), f))
	x.Outcome(fmt.Sprintf("signature length %d", us[0]))
}

func signHistory(x *X) {
	t := simpleTx(2, 2)
	tx := libTx(t)
	n := 3
	if x.Thorough {
		n = 4
	}
	shared := [2]*signature.InternalSigner{{PrivateKey: keys[0].priv}, {PrivateKey: keys[1].priv, SigHashFlag: 0xc3}}
	for s := 0; s < n; s++ {
		op := x.Choose(17)
		switch {
		case op < 8: // fresh signer: input x key x flag
			signCheck(x, tx, t, op&1, (op>>1)&1, []uint8{0x41, 0x43}[op>>2&1], false)
		case op < 12: // a signer object which is used again and again
			sg := shared[op&1]
			idx := op >> 1 & 1
			f := []uint8{0x41, 0xc3}[op&1]
			var err error
			try(x, "Sign", func() { err = tx.Sign(uint32(idx), sg) })
			if err != nil || tx.Inputs[idx].UnlockingScript == nil {
				x.Failf("Sign fails", "Sign with a used signer fails: %v", err)
			}
			t.Ins[idx].Script = cp(*tx.Inputs[idx].UnlockingScript)
			checkUnlock(x, t.Ins[idx].Script, t, idx, &keys[op&1], f, "re-used signer")
		case op == 12:
			t.Outs[0].Sats++
			tx.Outputs[0].Satoshis++
		case op == 13:
			t.Locktime++
			tx.Locktime++
		case op == 14:
			t.Ins[0].Prev = append(t.Ins[0].Prev, 0x61)
			tx.Inputs[0].PreviousTxScript.AppendOpCode(0x61)
		case op == 15:
			in := simpleIn(7 + s)
			t.Ins = append(t.Ins, in)
			tx.AddInput(libIn(&in))
		case op == 16:
			var err error
			if p := caught(func() { err = tx.Sign(uint32(len(t.Ins)), shared[0]) }); p != "" {
				x.Failf("refusal panics", "Sign out of range panics: %s", p)
			}
			if err == nil {
				x.Failf("refusal missing", "Sign out of range gives no error")
			}
		}
		if d := diffTx(tx, t, true); d != "" {
			x.Failf("history", "step %d (op %d): %s", s, op, d)
		}
	}
	x.State(stateTx(t))
}

// signerHistory edits the exported fields of one signer between signings.
func signerHistory(x *X) {
	t := simpleTx(2, 2)
	tx := libTx(t)
	n := 4
	if x.Thorough {
		n = 5
	}
	k, f := 0, uint8(0x41)
	sg := &signature.InternalSigner{PrivateKey: keys[0].priv, SigHashFlag: 0x41}
	desc := ""
	sign := func(idx int, direct bool) {
		var err error
		got := tx
		try(x, "Sign", func() {
			if direct {
				got, err = sg.Sign(uint32(idx), tx)
			} else {
				err = tx.Sign(uint32(idx), sg)
			}
		})
		if err != nil || got == nil || len(got.Inputs) != 2 || got.Inputs[idx].UnlockingScript == nil {
			x.Failf("Sign fails", "after%s: Sign(%d) fails: %v", desc, idx, err)
		}
		t.Ins[idx].Script = cp(*got.Inputs[idx].UnlockingScript)
		checkUnlock(x, t.Ins[idx].Script, t, idx, &keys[k], f, "signer edited:"+desc)
		if d := diffTx(got, t, true); d != "" {
			x.Failf("Sign changes more", "after%s: %s", desc, d)
		}
		tx = got
	}
	for s := 0; s < n; s++ {
		op := x.Choose(12)
		desc += fmt.Sprintf(" %d", op)
		switch {
		case op < 4:
			sign(op&1, op > 1)
		case op < 7:
			k = op - 4
			sg.PrivateKey = keys[k].priv
		case op < 10:
			f = []uint8{0x41, 0xc3, 0x42}[op-7]
			sg.SigHashFlag = sighash.Flag(f)
		case op == 10:
			c := *sg
			sg = &c
		case op == 11:
			t.Locktime ^= 1
			tx.Locktime ^= 1
		}
	}
	sign(0, false)
	sign(0, true)
	x.State(append(stateTx(t), fmt.Sprint(k, f)...))
	x.Outcome(fmt.Sprintf("key %d flag %#x", k, f))
}

// ---- C04 histories ------------------------------------------------------------

func sighashHistory(x *X) {
	t := simpleTx(2, 2)
	tx := libTx(t)
	n := 2
	if x.Thorough {
		n = 3
	}
	what := "initial"
	all := func() {
		for i := range t.Ins {
			for _, f := range someFlags[:6] {
				digest(x, tx, t, i, f, what)
			}
		}
		x.Validated(len(t.Ins)*6 - 1)
		x.Step(len(t.Ins) * 6)
	}
	all()
	for s := 0; s < n; s++ {
		op := x.Choose(22)
		what += fmt.Sprintf(",%d", op)
		last := len(t.Ins) - 1
		in := func(i int) (*input.Input, *ref.In) { return tx.Inputs[i], &t.Ins[i] }
		switch op {
		case 0:
			t.Version++
			tx.Version++
		case 1:
			t.Locktime++
			tx.Locktime++
		case 2, 3:
			a, b := in([]int{0, last}[op-2])
			a.SequenceNumber--
			b.Seq--
		case 4, 5:
			a, b := in([]int{0, last}[op-4])
			a.PreviousTxOutIndex++
			b.Vout++
		case 6, 7:
			a, b := in([]int{0, last}[op-6])
			b.TxID = pat(32, 500+s)
			a.PreviousTxID = hx(b.TxID)
		case 8, 9:
			a, b := in([]int{0, last}[op-8])
			a.PreviousTxSatoshis += 1 << 33
			b.Sats += 1 << 33
		case 10, 11: // edit the previous script in place
			a, b := in([]int{0, last}[op-10])
			(*a.PreviousTxScript)[0] ^= 1
			b.Prev[0] ^= 1
		case 12: // replace it
			a, b := in(0)
			b.Prev = pat(30, 600+s)
			a.PreviousTxScript = scr(b.Prev)
		case 13:
			a, b := in(last)
			a.PreviousTxScript.AppendOpCode(0x61)
			b.Prev = append(b.Prev, 0x61)
		case 14: // unlocking scripts do not matter
			a, b := in(0)
			b.Script = pat(9, 700+s)
			a.UnlockingScript = scr(b.Script)
		case 15:
			t.Outs[0].Sats++
			tx.Outputs[0].Satoshis++
		case 16:
			t.Outs[len(t.Outs)-1].Script[0] ^= 0xff
			(*tx.Outputs[len(t.Outs)-1].LockingScript)[0] ^= 0xff
		case 17:
			i := simpleIn(20 + s)
			t.Ins = append(t.Ins, i)
			tx.AddInput(libIn(&i))
		case 18:
			o := simpleOut(20 + s)
			t.Outs = append(t.Outs, o)
			tx.AddOutput(libOut(&o))
		case 19:
			t.Ins[0], t.Ins[last] = t.Ins[last], t.Ins[0]
			tx.Inputs[0], tx.Inputs[last] = tx.Inputs[last], tx.Inputs[0]
		case 20:
			k := len(t.Outs) - 1
			t.Outs[0], t.Outs[k] = t.Outs[k], t.Outs[0]
			tx.Outputs[0], tx.Outputs[k] = tx.Outputs[k], tx.Outputs[0]
		case 21: // replace an output object
			o := simpleOut(30 + s)
			t.Outs[0] = o
			tx.Outputs[0] = &output.Output{Satoshis: o.Sats, LockingScript: scr(o.Script)}
		}
		all()
	}
	x.Outcome(what)
}

// ---- C06 ----------------------------------------------------------------------

const (
	kindP2PKH0 = iota
	kindP2PKH1
	kindP2SH
	kindUnc
	kindNone
	kindP2PK
	kindData
	kindEmpty
	kindPuzzle
	kindBareHash
	kindPush21
	kindMissingID
	kindCut
	kindNearTail
	kindDup
	kindPrefix
	kindPrefixCut
	nKinds
)

func kindScript(k int) []byte {
	h := keys[0].hash
	switch k {
	case kindP2PKH0, kindMissingID:
		return ref.P2PKH(h)
	case kindP2PKH1:
		return ref.P2PKH(keys[1].hash)
	case kindP2SH:
		return ref.P2SH(h)
	case kindUnc: // pays to the hash of the uncompressed key
		return ref.P2PKH(ref.Hash160(keys[0].unc))
	case kindNone:
		return nil
	case kindP2PK:
		return cat(ref.Push(keys[0].pub), []byte{0xac})
	case kindData:
		return cat([]byte{0, 0x6a}, ref.Push(ref.P2PKH(h)))
	case kindEmpty:
		return []byte{}
	case kindPuzzle:
		return cat([]byte{0xa9}, ref.Push(pat(20, 1)), []byte{0x88}, ref.P2PKH(h))
	case kindBareHash:
		return ref.Push(h)
	case kindPush21: // DUP HASH160 <21 bytes>
		return cat([]byte{0x76, 0xa9}, ref.Push(append(cp(h), 0)), []byte{0x88, 0xac})
	case kindCut: // truncated P2PKH
		return ref.P2PKH(h)[:15]
	case kindNearTail: // DUP then another opcode
		return cat([]byte{0x76, 0xaa}, ref.Push(h), []byte{0x88, 0xac})
	}
	switch k {
	case kindDup:
		return []byte{0x76}
	case kindPrefix:
		return []byte{0x76, 0xa9}
	case kindPrefixCut:
		return []byte{0x76, 0xa9, 0x4c}
	}
	panic("kind")
}

func auto(x *X, ks []int, signers []int, fs []uint8) { autoN(x, ks, signers, fs, 2) }

func autoN(x *X, ks []int, signers []int, fs []uint8, outs int) {
	t := simpleTx(len(ks), outs)
	for i, k := range ks {
		t.Ins[i].Prev = kindScript(k)
		if k == kindMissingID {
			t.Ins[i].TxID = nil
		}
	}
	autoTx(x, t, signers, fs)
}

func autoTx(x *X, t *ref.Tx, signers []int, fs []uint8) {
	autoLib(x, libTx(t), t, signers, fs)
}

func autoLib(x *X, tx *transaction.Transaction, t *ref.Tx, signers []int, fs []uint8) {
	for n, k := range signers {
		s := &signature.InternalSigner{PrivateKey: keys[k].priv, SigHashFlag: sighash.Flag(fs[n])}
		var err error
		before := map[int]*script.Script{}
		for i := range tx.Inputs {
			before[i] = tx.Inputs[i].UnlockingScript
		}
		if p := caught(func() { err = tx.SignAuto(s) }); p != "" {
			x.Failf("SignAuto panics", "SignAuto panics on previous scripts %s: %s", prevs(t), p)
		}
		missing := false
		signed := 0
		for i := range t.Ins {
			match := t.Ins[i].Prev != nil && bytes.Equal(t.Ins[i].Prev, ref.P2PKH(keys[k].hash))
			if match && t.Ins[i].TxID == nil {
				missing = true
				match = false
			}
			if !match {
				if err == nil && len(tx.Inputs) == len(t.Ins) && likeP2PKH(t.Ins[i].Prev, keys[k].hash) && tx.Inputs[i].UnlockingScript != nil {
					t.Ins[i].Script = cp(*tx.Inputs[i].UnlockingScript) // signed or not
				}
				continue
			}
			if len(tx.Inputs) != len(t.Ins) || tx.Inputs[i].UnlockingScript == nil {
				x.Failf("SignAuto result", "no unlocking script for matching input %d", i)
			}
			t.Ins[i].Script = cp(*tx.Inputs[i].UnlockingScript)
			signed++
		}
		if err != nil && !missing {
			x.Failf("SignAuto fails", "SignAuto fails on previous scripts %s: %v", prevs(t), err)
		}
		if err != nil {
			return
		}
		if d := diffTx(tx, t, true); d != "" {
			x.Failf("SignAuto changes more", "SignAuto with key %d, previous scripts %s: %s", k, prevs(t), d)
		}
		for i := range t.Ins {
			if t.Ins[i].TxID != nil && bytes.Equal(t.Ins[i].Prev, ref.P2PKH(keys[k].hash)) {
				checkUnlock(x, t.Ins[i].Script, t, i, &keys[k], effective(fs[n]), fmt.Sprintf("SignAuto, previous scripts %s", prevs(t)))
			}
		}
		x.Outcome(fmt.Sprintf("%d of %d signed", min(signed, 4), min(len(t.Ins), 4)))
	}
	var b []byte
	for i := range t.Ins {
		b = append(b, t.Ins[i].Prev...)
		b = append(b, 0xf0, byte(len(t.Ins[i].TxID)))
	}
	x.State(append(append(stateTx(t), b...), fmt.Sprint(signers, fs, len(t.Outs))...))
}

// likeP2PKH: begins as a P2PKH script for h, but goes on otherwise or pushes h
// differently; whether such inputs are signed is not judged.
func likeP2PKH(s, h []byte) bool {
	if len(s) < 2 || s[0] != 0x76 || s[1] != 0xa9 || bytes.Equal(s, ref.P2PKH(h)) {
		return false
	}
	for e := 0; e < 4; e++ {
		if bytes.HasPrefix(s[2:], pushIn(e, h)) {
			return true
		}
	}
	return false
}

func prevs(t *ref.Tx) string {
	var s []string
	for i := range t.Ins {
		if i > 5 {
			s = append(s, "...")
			break
		}
		if t.Ins[i].Prev == nil {
			s = append(s, "none")
			continue
		}
		s = append(s, hx(t.Ins[i].Prev))
	}
	return "[" + strings.Join(s, " ") + "]"
}
