package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	"verif/mc/engine"
	"verif/mc/ref"
)

// ---- C07: builder histories -------------------------------------------------

// watch observes everything a user can read of a transaction.
func watch(x *X, tx *transaction.Transaction, t *ref.Tx, hist string) {
	try(x, "observing a transaction", func() {
		if d := diffTx(tx, t, true); d != "" {
			x.Failf("fields", "after %s: %s", hist, d)
		}
		want := t.Bytes()
		if b := tx.ToBytes(); !bytes.Equal(b, want) {
			x.Failf("ToBytes", "after %s: ToBytes %s, want %s", hist, short(b), short(want))
		}
		if id := tx.GetTxID(); id != t.ID() {
			x.Failf("GetTxID", "after %s: txid %s, want %s", hist, id, t.ID())
		}
		var sum uint64
		for _, o := range t.Outs {
			sum += o.Sats
		}
		if g := tx.GetTotalOutputSatoshis(); g != sum {
			x.Failf("GetTotalOutputSatoshis", "after %s: total %d, want %d", hist, g, sum)
		}
		if g, w := coinbaseVerdict(t), tx.IsCoinbase(); g >= 0 && w != (g == 1) {
			x.Failf("IsCoinbase", "after %s: IsCoinbase %v", hist, w)
		}
		for _, i := range tx.Inputs {
			_ = i.String()
		}
		for _, o := range tx.Outputs {
			_ = o.String()
		}
		if d := diffTx(tx, t, true); d != "" {
			x.Failf("observing changed the transaction", "after %s: %s", hist, d)
		}
	})
	x.State(stateTx(t))
}

// coinbaseVerdict: exactly one input which spends the null outpoint; -1 where
// the library's looser rule (null txid and final sequence) is not judged.
func coinbaseVerdict(t *ref.Tx) int {
	if len(t.Ins) != 1 || !bytes.Equal(t.Ins[0].TxID, rep(32, 0)) {
		return 0
	}
	if t.Ins[0].Vout == 0xffffffff {
		return 1
	}
	if t.Ins[0].Seq == 0xffffffff {
		return -1
	}
	return 0
}

var builderOps = []string{"AddInput(full)", "AddInput(empty)", "From", "From(coinbase)", "From(bad hex)", "NewFromUTXO", "AddOutput", "AddOutput(op_return)", "PayTo(main)", "PayTo(test)", "PayTo(bad)", "hash puzzle", "version", "locktime"}

const mainAddr, testAddr = "1E7ucTTWRTahCyViPhxSMor2pj4VGQdFMr", "mtdruWYVEV1wz5yL7GvpBj4MgifCB7yhPd"

// builderOp applies operation k (the n-th of the history) to both sides.
func builderOp(x *X, k, n int, tx *transaction.Transaction, t *ref.Tx) {
	switch k {
	case 0:
		i := simpleIn(n + 1)
		tx.AddInput(libIn(&i))
		t.Ins = append(t.Ins, i)
	case 1:
		in := input.New()
		in.PreviousTxID = hx(pat(32, 50+n))
		tx.AddInput(in)
		t.Ins = append(t.Ins, ref.In{TxID: pat(32, 50+n), Seq: 0xffffffff})
	case 2, 3:
		i := ref.In{TxID: pat(32, 60+n), Vout: uint32(n) + 3, Sats: u64s[n%len(u64s)] >> 3, Prev: pat([]int{25, 0, 1, 253}[n%4], 61+n), Seq: 0xffffffff}
		if k == 3 {
			i.TxID, i.Vout = rep(32, 0), 0xffffffff
		}
		if err := tx.From(hx(i.TxID), i.Vout, hx(i.Prev), i.Sats); err != nil {
			x.Failf("From fails", "From(%x, %d, %x, %d): %v", i.TxID, i.Vout, i.Prev, i.Sats, err)
		}
		t.Ins = append(t.Ins, i)
	case 4:
		if err := tx.From(hx(pat(32, 70)), 1, []string{"7", "zz", "76a9 "}[n%3], 5); err == nil {
			x.Failf("From accepts bad hex", "From with a script which is not hex gives no error")
		}
		if id := []string{"", hx(pat(31, 70)), hx(pat(33, 70)), hx(pat(32, 70))[1:], "0x" + hx(pat(31, 70)), strings.Repeat("g", 64)}[n%6]; tx.From(id, 1, "51", 5) == nil {
			x.Failf("From accepts bad txid", "From with previous txid %q gives no error", id)
		}
	case 5:
		i := ref.In{TxID: pat(32, 80+n), Vout: 0xfffffffe - uint32(n), Sats: uint64(n) << 40, Prev: pat(n*20, 81), Seq: uint32(n)}
		in, err := input.NewFromUTXO(hx(i.TxID), i.Vout, i.Sats, hx(i.Prev), i.Seq)
		if err != nil {
			x.Failf("NewFromUTXO fails", "NewFromUTXO: %v", err)
		}
		tx.AddInput(in)
		t.Ins = append(t.Ins, i)
	case 6:
		o := simpleOut(n)
		tx.AddOutput(libOut(&o))
		t.Outs = append(t.Outs, o)
	case 7:
		d := pat([]int{0, 1, 76, 300}[n%4], 90+n)
		o, err := output.NewOpReturn(d)
		if err != nil {
			x.Failf("NewOpReturn fails", "NewOpReturn: %v", err)
		}
		tx.AddOutput(o)
		t.Outs = append(t.Outs, ref.Out{Script: cat([]byte{0, 0x6a}, ref.Push(d))})
	case 8, 9:
		h, s := unhex("8fe80c75c9560e8b56ed64ea3c26e18d2c52211b"), uint64(n)*546+1
		a := mainAddr
		if k == 9 {
			a, s = testAddr, 2100000000000000
		}
		if err := tx.PayTo(a, s); err != nil {
			x.Failf("PayTo fails", "PayTo(%s): %v", a, err)
		}
		t.Outs = append(t.Outs, ref.Out{Sats: s, Script: ref.P2PKH(h)})
	case 10:
		a := []string{"", "1E7ucTTWRTahCyViPhxSMor2pj4VGQdFMs", "ADD8E55", "27BvY7rFguYQvEL872Y7Fo77Y3EBApC2EK"}[n%4]
		if err := tx.PayTo(a, 1); err == nil {
			x.Failf("PayTo accepts", "PayTo(%q) gives no error", a)
		}
	case 11:
		h := pat(20, 95+n)
		o, err := output.NewHashPuzzle("secret", hx(h), 7)
		if err != nil {
			x.Failf("NewHashPuzzle fails", "NewHashPuzzle: %v", err)
		}
		tx.AddOutput(o)
		t.Outs = append(t.Outs, ref.Out{Sats: 7, Script: cat([]byte{0xa9, 20}, ref.Hash160([]byte("secret")), []byte{0x88, 0x76, 0xa9, 20}, h, []byte{0x88, 0xac})})
	case 12:
		tx.Version, t.Version = versions[n%len(versions)], versions[n%len(versions)]
	case 13:
		tx.Locktime, t.Locktime = u32s[n%len(u32s)], u32s[n%len(u32s)]
	}
}

func builderStart(x *X, k int) (*transaction.Transaction, *ref.Tx) {
	if k == 0 {
		return transaction.New(), &ref.Tx{Version: 1}
	}
	t := simpleTx(k, 3-k)
	for i := range t.Ins {
		t.Ins[i].Prev, t.Ins[i].Sats = nil, 0
	}
	tx, err := transaction.NewFromBytes(t.Bytes())
	if err != nil {
		x.Failf("NewFromBytes fails", "NewFromBytes of a valid transaction: %v", err)
	}
	return tx, t
}

func init() {
	register(engine.Property{ID: "C07", Level: "model_checking",
		Rule:        "every history of builder calls of the bound is applied to a Transaction and to the abstract transaction; after every call all observers are compared; a state is a distinct abstract transaction",
		Assumptions: []string{baseAssumption, "IsCoinbase is not judged for a null previous txid with an index other than ffffffff and a final sequence number; inputs and outputs added are not modified by the caller afterwards"},
		Scenarios: append(spaceScenarios(6, txJudge("C07")), []engine.Scenario{
			{Name: "histories", Bound: "every sequence of exactly 4 (thorough 6) calls out of 14 (AddInput, From valid/coinbase/bad, NewFromUTXO, AddOutput, PayTo valid/bad, op_return, hash puzzle, version, locktime), observed after every call, starting from New or from a parsed transaction", Run: func(x *X) {
				depth := 4
				if x.Thorough {
					depth = 6
				}
				tx, t := builderStart(x, x.Choose(3))
				hist := ""
				for n := 0; n < depth; n++ {
					k := x.Choose(len(builderOps))
					hist += builderOps[k] + "; "
					try(x, "builder call", func() { builderOp(x, k, n, tx, t) })
					watch(x, tx, t, hist)
				}
				x.Validated(depth - 1)
				x.Logf("%s", hist)
				x.Outcome(fmt.Sprintf("%d in %d out", len(t.Ins), len(t.Outs)))
			}},
			{Name: "long-histories", Bound: "every sequence of 2 calls out of 14 repeated 1..40 times (up to 80 calls)", Run: func(x *X) {
				a, b := x.Choose(len(builderOps)), x.Choose(len(builderOps))
				tx, t := builderStart(x, x.Choose(3))
				for n := 0; n < 40; n++ {
					try(x, "builder call", func() {
						builderOp(x, a, 2*n, tx, t)
						builderOp(x, b, 2*n+1, tx, t)
					})
					watch(x, tx, t, fmt.Sprintf("%d x (%s, %s)", n+1, builderOps[a], builderOps[b]))
				}
				x.Validated(39)
			}},
			{Name: "two-transactions", Bound: "two transactions built in every interleaving of 2+2 (thorough 3+3) calls, each call out of 5: neither affects the other", Run: func(x *X) {
				ops := []int{0, 2, 6, 8, 12}
				var tx [2]*transaction.Transaction
				var t [2]*ref.Tx
				tx[0], t[0] = builderStart(x, 0)
				tx[1], t[1] = builderStart(x, 1)
				left := [2]int{3, 3}
				if !x.Thorough {
					left = [2]int{2, 2}
				}
				n := 0
				for left[0]+left[1] > 0 {
					w := 0
					if left[0] == 0 {
						w = 1
					} else if left[1] > 0 {
						w = x.Choose(2)
					}
					left[w]--
					builderOp(x, ops[x.Choose(len(ops))], n, tx[w], t[w])
					watch(x, tx[0], t[0], "interleaved building (first)")
					watch(x, tx[1], t[1], "interleaved building (second)")
					n++
				}
			}},
			{Name: "coinbase", Bound: "0..2 inputs x previous txid(4, one null) x index(8) x sequence(4), each input, built and parsed, script length {0,1,4,100}", Run: func(x *X) {
				n := x.Choose(3)
				t := &ref.Tx{Version: 1, Outs: []ref.Out{simpleOut(1)}}
				for i := 0; i < n; i++ {
					in := ref.In{TxID: engine.Pick(x, txids), Vout: engine.Pick(x, u32s), Seq: engine.Pick(x, seqs), Script: pat([]int{0, 4, 100}[x.Choose(3)], 3)}
					t.Ins = append(t.Ins, in)
				}
				w := coinbaseVerdict(t)
				built := libTx(t)
				parsed, err := transaction.NewFromBytes(t.Bytes())
				if err != nil {
					x.Failf("NewFromBytes fails", "%v", err)
				}
				for _, tx := range []*transaction.Transaction{built, parsed} {
					var g bool
					try(x, "IsCoinbase", func() { g = tx.IsCoinbase() })
					if w >= 0 && g != (w == 1) {
						x.Failf("IsCoinbase", "IsCoinbase is %v for %s", g, short(t.Bytes()))
					}
				}
				x.State(t.Bytes())
				x.Outcome(fmt.Sprintf("verdict %d", w))
			}},
			{Name: "refused-inputs", Bound: "From and NewFromUTXO with previous txids of every length 0..140 and every byte value at 7 positions of a good one (lower, upper and mixed case accepted), scripts of 0..9 hex digits and every byte value at 3 positions, on a transaction with 2 inputs", Run: func(x *X) {
				t := simpleTx(2, 1)
				tx := libTx(t)
				id, sc := hx(pat(32, 70)), "76a95151"
				switch x.Choose(4) {
				case 0:
					id = strings.Repeat("5a", 70)[:x.Choose(141)]
				case 1:
					p, b := []int{0, 1, 31, 32, 33, 62, 63}[x.Choose(7)], byte(x.Choose(256))
					id = id[:p] + string([]byte{b}) + id[p+1:]
				case 2:
					sc = "5a5b5c5d5e"[:x.Choose(10)]
				case 3:
					p, b := []int{0, 3, 7}[x.Choose(3)], byte(x.Choose(256))
					sc = sc[:p] + string([]byte{b}) + sc[p+1:]
				}
				if x.Bool() {
					id, sc = strings.ToUpper(id), strings.ToUpper(sc)
				}
				raw, e1 := hex.DecodeString(id)
				rs, e2 := hex.DecodeString(sc)
				good := e1 == nil && len(raw) == 32 && e2 == nil
				var err error
				var in *input.Input
				if x.Bool() {
					try(x, "From", func() { err = tx.From(id, 7, sc, 99) })
				} else {
					try(x, "NewFromUTXO", func() { in, err = input.NewFromUTXO(id, 7, 99, sc, 0xffffffff) })
					if err == nil && in != nil {
						tx.AddInput(in)
					}
				}
				if (err == nil) != good {
					x.Failf("acceptance of an input", "previous txid %q, script %q: error %v", id, sc, err)
				}
				if good {
					t.Ins = append(t.Ins, ref.In{TxID: raw, Vout: 7, Seq: 0xffffffff, Sats: 99, Prev: rs})
				}
				watch(x, tx, t, fmt.Sprintf("adding an input with txid %q and script %q", id, sc))
				x.Outcome(fmt.Sprintf("good %v", good))
			}},
			{Name: "totals", Bound: "0..4 outputs, each amount out of 8 (sum modulo 2^64), plus 1..300 outputs of one amount", Run: func(x *X) {
				tx, t := transaction.New(), &ref.Tx{Version: 1}
				if x.Bool() {
					n, v := 1+x.Choose(300), engine.Pick(x, u64s)
					for i := 0; i < n; i++ {
						t.Outs = append(t.Outs, ref.Out{Sats: v / uint64(n), Script: pat(2, i)})
						tx.AddOutput(libOut(&t.Outs[i]))
					}
				} else {
					n := x.Choose(5)
					for i := 0; i < n; i++ {
						t.Outs = append(t.Outs, ref.Out{Sats: engine.Pick(x, u64s), Script: pat(2, i)})
						tx.AddOutput(libOut(&t.Outs[i]))
					}
				}
				watch(x, tx, t, "AddOutput")
			}},
		}...)})

	register(engine.Property{ID: "C30", Level: "model_checking",
		Rule:        "the cleared serialisation of every (transaction, index, script) of the bound is compared with the model and must parse as a transaction; a state is a distinct expected serialisation",
		Assumptions: []string{baseAssumption, "indexes outside the inputs and a nil script are not judged"},
		Scenarios: append(spaceScenarios(6, txJudge("C30")), []engine.Scenario{
			{Name: "fields", Bound: "1..4 inputs x 0..2 outputs x every index x script length {0,1,25,75,252,253,300} x txid(4) x vout(8) x sequence(4) of the indexed input", Run: func(x *X) {
				ni, no := 1+x.Choose(4), x.Choose(3)
				idx := x.Choose(4)
				if idx >= ni {
					x.Prune()
				}
				t := simpleTx(ni, no)
				t.Ins[idx].TxID, t.Ins[idx].Vout, t.Ins[idx].Seq = engine.Pick(x, txids), engine.Pick(x, u32s), engine.Pick(x, seqs)
				cleared(x, t, idx, pat([]int{0, 1, 25, 75, 252, 253, 300}[x.Choose(7)], 9))
			}},
			{Name: "script-lengths", Bound: "every script length 0..600 and 65500..65600, index first or last of 3 inputs, unlocking script lengths {0,1,107,253}", Run: func(x *X) {
				n := engine.Pick(x, lensAround(600, 50, 65550))
				t := simpleTx(3, 2)
				for i := range t.Ins {
					t.Ins[i].Script = pat([]int{0, 1, 107, 253}[x.Choose(4)], i)
				}
				cleared(x, t, x.Choose(2)*2, pat(n, 9))
			}},
			{Name: "counts", Bound: "1..300 inputs, index first, middle, last; with unsigned (nil) unlocking scripts at every second input", Run: func(x *X) {
				n := 1 + x.Choose(300)
				t := simpleTx(n, 1)
				cleared(x, t, []int{0, n / 2, n - 1}[x.Choose(3)], pat(25, 9))
			}},
			{Name: "out-of-range", Bound: "indexes -2..5 of 0..3 inputs, with nil, empty and 1-byte script: no panic and the transaction is unchanged", Run: func(x *X) {
				t := simpleTx(x.Choose(4), 1)
				tx := libTx(t)
				idx := x.Choose(8) - 2
				s := [][]byte{nil, {}, {1}}[x.Choose(3)]
				try(x, "ToBytesWithClearedInputs", func() { tx.ToBytesWithClearedInputs(idx, s) })
				if d := diffTx(tx, t, true); d != "" {
					x.Failf("changed the transaction", "after ToBytesWithClearedInputs(%d): %s", idx, d)
				}
			}},
		}...)})
}

func cleared(x *X, t *ref.Tx, idx int, s []byte) { clearedOn(x, libTx(t), t, idx, s) }

func clearedOn(x *X, tx *transaction.Transaction, t *ref.Tx, idx int, s []byte) {
	w := t.Clone()
	for i := range w.Ins {
		w.Ins[i].Script = nil
	}
	w.Ins[idx].Script = s
	want := w.Bytes()
	g := mkGuard(s, 16)
	var b []byte
	try(x, "ToBytesWithClearedInputs", func() { b = tx.ToBytesWithClearedInputs(idx, g.b()) })
	if !bytes.Equal(b, want) {
		x.Failf("cleared bytes", "ToBytesWithClearedInputs(%d, %s) is %s, want %s", idx, short(s), short(b), short(want))
	}
	g.check(x, "ToBytesWithClearedInputs")
	if d := diffTx(tx, t, true); d != "" {
		x.Failf("changed the transaction", "after ToBytesWithClearedInputs(%d): %s", idx, d)
	}
	if b := tx.ToBytes(); !bytes.Equal(b, t.Bytes()) {
		x.Failf("ToBytes afterwards", "ToBytes after ToBytesWithClearedInputs differs")
	}
	x.State(want)
}
