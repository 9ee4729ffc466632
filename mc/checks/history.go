package checks

import (
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature/sighash"

	"verif/mc/engine"
	"verif/mc/ops"
	"verif/mc/ref"
)

// ---- C26: no hidden memory --------------------------------------------------

var (
	opList   = ops.All()
	baseOnce sync.Once
	baseline []string
)

// OpResult is run in a fresh process (mc op N).
func OpResult(n int) string { return opList[n].Do().Canon() }

// baselines computes the result of every op, each in its own fresh process.
func baselines(x *X) []string {
	baseOnce.Do(func() {
		baseline = make([]string, len(opList))
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		for i := range opList {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				out, err := exec.Command(os.Args[0], "op", strconv.Itoa(i)).Output()
				if err != nil {
					baseline[i] = "process died: " + err.Error()
					return
				}
				baseline[i] = string(out)
			}()
		}
		wg.Wait()
	})
	for i, b := range baseline {
		if strings.Contains(b, "panic:") || strings.HasPrefix(b, "process died") {
			x.Failf("call fails alone", "%s alone in a fresh process: %s", opList[i].Name, short([]byte(b)))
		}
	}
	return baseline
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-10, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at character %d: ...%s... instead of ...%s...", i, cut(a), cut(b))
}

// call runs one op and compares it with its result in a fresh process.
func call(x *X, i int, what string) *ops.Res {
	r := opList[i].Do()
	if c := r.Canon(); c != baseline[i] {
		x.Failf("result depends on history: "+opList[i].Name, "%s gives another result %s than in a fresh process, %s", opList[i].Name, what, diffAt(c, baseline[i]))
	}
	return r
}

func kept(x *X, r *ops.Res, i int, what string) {
	if c := r.Canon(); c != baseline[i] {
		x.Failf("result changed later: "+opList[i].Name, "what %s returned was changed %s, %s", opList[i].Name, what, diffAt(c, baseline[i]))
	}
}

// objects is a history of observers and edits on one transaction.
func objects(x *X) {
	t := ops.Tx(2, 2, 0)
	tx := ops.Lib(t)
	depth := 2
	if x.Thorough {
		depth = 3
	}
	observe := func(k int) {
		switch k {
		case 0:
			if g, w := hx(tx.ToBytes()), hx(t.Bytes()); g != w {
				x.Failf("ToBytes after edits", "ToBytes after edits: %s, want %s", g, w)
			}
		case 1:
			if g, w := tx.GetTxID(), t.ID(); g != w {
				x.Failf("GetTxID after edits", "GetTxID after edits: %s, want %s", g, w)
			}
		case 2, 3, 4:
			f := []uint8{0x41, 0xc3, 0x43}[k-2]
			for i := range t.Ins {
				h, err := tx.GetInputSignatureHash(uint32(i), sighash.Flag(f))
				if w := ref.Rev(t.SigHash(i, uint32(f))); err != nil || hx(h) != hx(w) {
					x.Failf("sighash after edits", "GetInputSignatureHash(%d, %#x) after edits: %x %v, want %x", i, f, h, err, w)
				}
			}
		case 5:
			var sum uint64
			for _, o := range t.Outs {
				sum += o.Sats
			}
			if tx.GetTotalOutputSatoshis() != sum || tx.OutputCount() != len(t.Outs) || tx.InputCount() != len(t.Ins) {
				x.Failf("totals after edits", "total %d, outputs %d, inputs %d; want %d, %d, %d", tx.GetTotalOutputSatoshis(), tx.OutputCount(), tx.InputCount(), sum, len(t.Outs), len(t.Ins))
			}
			cb := len(t.Ins) == 1 && hx(t.Ins[0].TxID) == strings.Repeat("0", 64) && t.Ins[0].Vout == 0xffffffff
			if tx.IsCoinbase() != cb {
				x.Failf("IsCoinbase after edits", "IsCoinbase %v, want %v", tx.IsCoinbase(), cb)
			}
		case 6:
			for i, o := range tx.Outputs {
				if hx(o.ToBytes()) != hx(t.Outs[i].Bytes()) || o.GetLockingScriptHexString() != hx(t.Outs[i].Script) {
					x.Failf("output after edits", "output %d after edits: %x, want %x", i, o.ToBytes(), t.Outs[i].Bytes())
				}
				s := o.LockingScript
				if s.IsP2PKH() != ref.IsP2PKH(t.Outs[i].Script) || s.IsP2SH() != ref.IsP2SH(t.Outs[i].Script) || s.ToString() != hx(t.Outs[i].Script) {
					x.Failf("script after edits", "classification of output %d after edits is wrong", i)
				}
			}
			for i, in := range tx.Inputs {
				if hx(in.ToBytes(false)) != hx(t.Ins[i].Bytes()) {
					x.Failf("input after edits", "input %d after edits: %x, want %x", i, in.ToBytes(false), t.Ins[i].Bytes())
				}
			}
		}
	}
	x.State(stateTx(t))
	for d := 0; d < depth; d++ {
		observe(x.Choose(7))
		switch k := x.Choose(14); k {
		case 0:
			t.Version, tx.Version = 9, 9
		case 1:
			t.Locktime, tx.Locktime = 1234, 1234
		case 2:
			t.Ins[0].Seq, tx.Inputs[0].SequenceNumber = 3, 3
		case 3:
			t.Ins[0].Vout, tx.Inputs[0].PreviousTxOutIndex = 8, 8
		case 4:
			t.Ins[0].TxID = pat(32, 55)
			tx.Inputs[0].PreviousTxID = hx(t.Ins[0].TxID)
		case 5:
			t.Ins[0].Sats, tx.Inputs[0].PreviousTxSatoshis = 31337, 31337
		case 6: // in place, same length
			t.Ins[0].Prev[5] ^= 1
			(*tx.Inputs[0].PreviousTxScript)[5] ^= 1
		case 7:
			t.Ins[0].Script = pat(30, 5)
			tx.Inputs[0].UnlockingScript = scr(t.Ins[0].Script)
		case 8:
			t.Outs[0].Sats, tx.Outputs[0].Satoshis = 99, 99
		case 9:
			t.Outs[0].Script[7] ^= 1
			(*tx.Outputs[0].LockingScript)[7] ^= 1
		case 10:
			t.Outs[0].Script = ref.P2SH(pat(20, 6))
			tx.Outputs[0].LockingScript = scr(t.Outs[0].Script)
		case 11:
			t.Outs = append(t.Outs, ref.Out{Sats: 3, Script: []byte{0x51}})
			tx.AddOutput(&output.Output{Satoshis: 3, LockingScript: scr([]byte{0x51})})
		case 12:
			t.Ins = append(t.Ins, ref.In{TxID: pat(32, 66), Prev: []byte{0x52}, Seq: 1})
			ps := script.Script([]byte{0x52})
			tx.AddInput(&input.Input{PreviousTxID: hx(pat(32, 66)), PreviousTxScript: &ps, SequenceNumber: 1})
		case 13: // swap the outputs
			t.Outs[0], t.Outs[1] = t.Outs[1], t.Outs[0]
			tx.Outputs[0], tx.Outputs[1] = tx.Outputs[1], tx.Outputs[0]
		}
		x.State(stateTx(t))
	}
	for k := 0; k < 7; k++ {
		observe(k)
	}
	if d := diffTx(tx, t, true); d != "" {
		x.Failf("fields after edits", "%s", d)
	}
	var _ *transaction.Transaction = tx
}

func init() {
	n := len(opList)
	small := []int{}
	for i, o := range opList {
		if !o.Big {
			small = append(small, i)
		}
	}
	register(engine.Property{ID: "C26", Level: "model_checking",
		Rule:        "every ordered sequence of calls of the alphabet is run in one process; every result is compared with the result of the same call in a fresh process, again after each later call, and after earlier results were overwritten; a state is a distinct sequence of calls or a distinct edited transaction",
		Assumptions: []string{baseAssumption, "the random IV of Encrypt is judged through Decrypt", "the process is not restarted between sequences, so each sequence also runs after all earlier ones"},
		Scenarios: []engine.Scenario{
			{Name: "pairs", Serial: true, Bound: fmt.Sprintf("all ordered pairs of %d calls: A, B, A's result still intact, A's result overwritten, B, A", n), Run: func(x *X) {
				a := x.Choose(n)
				b := x.Choose(n)
				baselines(x)
				ra := call(x, a, "first")
				rb := call(x, b, "after "+opList[a].Name)
				kept(x, ra, a, "by a later "+opList[b].Name)
				ra.Scribble()
				kept2 := rb.Canon()
				if a != b && kept2 != baseline[b] {
					x.Failf("results share memory: "+opList[b].Name, "overwriting what %s returned changes what %s returned", opList[a].Name, opList[b].Name)
				}
				rb2 := call(x, b, "after the result of "+opList[a].Name+" was overwritten")
				rb.Scribble()
				kept(x, rb2, b, "by overwriting an earlier result of the same call")
				call(x, a, "after its own earlier result was overwritten")
				x.Statef("%d %d", a, b)
				x.Logf("%s ; %s", opList[a].Name, opList[b].Name)
				x.Validated(4)
				x.Outcome("independent")
			}},
			{Name: "repetition", Serial: true, Bound: "each call repeated 400 times (thorough 20000), then once after every other call ran", Run: func(x *X) {
				a := x.Choose(n)
				baselines(x)
				k := 400
				if x.Thorough {
					k = 20000
				}
				if opList[a].Big {
					k /= 10
				}
				for i := 0; i < k; i++ {
					call(x, a, fmt.Sprintf("when called %d times in a row", i+1))
				}
				r := call(x, a, "")
				for b := range opList {
					call(x, b, fmt.Sprintf("after %d calls of %s", k, opList[a].Name))
				}
				kept(x, r, a, "by the calls of the whole alphabet")
				x.Validated(k + n)
				x.Statef("rep %d", a)
				x.Logf("%s x %d", opList[a].Name, k)
				x.Outcome("independent")
			}},
			{Name: "object-histories", Bound: "one transaction: 2 (thorough 3) rounds of one observer out of 7 and one edit of a field out of 14, then all observers", Run: objects},
			{Name: "triples", Serial: true, ThoroughOnly: true, Bound: fmt.Sprintf("all ordered triples of the %d short calls", len(small)), Run: func(x *X) {
				a, b, c := small[x.Choose(len(small))], small[x.Choose(len(small))], small[x.Choose(len(small))]
				baselines(x)
				ra := call(x, a, "first")
				rb := call(x, b, "after "+opList[a].Name)
				call(x, c, "after "+opList[a].Name+" and "+opList[b].Name)
				kept(x, ra, a, "by "+opList[b].Name+" and "+opList[c].Name)
				kept(x, rb, b, "by "+opList[c].Name)
				x.Statef("%d %d %d", a, b, c)
				x.Validated(2)
			}},
		}})
}
