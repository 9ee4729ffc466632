package checks

import (
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"

	"verif/mc/engine"
	"verif/mc/ops"
	"verif/mc/ref"
)

// Twins: every ordered pair of argument tuples which differ in one or two
// arguments, called one after the other, with fresh arguments and with the same
// argument memory holding the new contents. Each result is compared with the
// result of that call alone in a fresh process.

type twinBase struct {
	once sync.Once
	res  []string
}

var (
	groups    = ops.Groups()
	twinBases = make([]twinBase, len(groups))
)

// TwinResult is run in a fresh process (mc twin G V).
func TwinResult(g, v int) string {
	a := &ops.Arena{}
	a.Set(groups[g].Tuple(v))
	return groups[g].Call(a).Canon()
}

func twinBaseline(x *X, g int) []string {
	b := &twinBases[g]
	b.once.Do(func() {
		n := groups[g].Variants()
		r := make([]string, n)
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		for v := 0; v < n; v++ {
			v := v
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				out, err := exec.Command(os.Args[0], "twin", strconv.Itoa(g), strconv.Itoa(v)).Output()
				if err != nil {
					r[v] = "process died: " + err.Error()
					return
				}
				r[v] = string(out)
			}()
		}
		wg.Wait()
		b.res = r
	})
	for v, s := range b.res {
		if strings.Contains(s, "panic:") || strings.HasPrefix(s, "process died") {
			x.Failf("call fails alone", "%s with %s alone in a fresh process: %s", groups[g].Name, tupleText(g, v), short([]byte(s)))
		}
	}
	return b.res
}

func tupleText(g, v int) string {
	var s []string
	for _, a := range groups[g].Tuple(v) {
		s = append(s, short(a))
	}
	return "(" + strings.Join(s, ", ") + ")"
}

func twins(x *X, ids []int) {
	g := engine.Pick(x, ids)
	gr := &groups[g]
	same := x.Bool()
	n := gr.Variants()
	a, b := x.Choose(n), x.Choose(n)
	base := twinBaseline(x, g)
	judge := func(r *ops.Res, v int, what string) {
		if c := r.Canon(); c != base[v] {
			x.Failf("result depends on history: "+gr.Name, "%s%s gives another result %s than alone in a fresh process, %s", gr.Name, tupleText(g, v), what, diffAt(c, base[v]))
		}
	}
	var ar *ops.Arena
	do := func(v int, what string) *ops.Res {
		if ar == nil || !same {
			ar = &ops.Arena{}
		}
		ar.Set(gr.Tuple(v))
		r := gr.Call(ar)
		judge(r, v, what)
		return r
	}
	how := "with other arguments"
	if same {
		how = "with other arguments in the same memory"
	}
	ra := do(a, "after earlier calls")
	rb := do(b, fmt.Sprintf("after a call %s: %s", how, tupleText(g, a)))
	if !same { // what was returned belongs to the caller
		judge(ra, a, "when looked at again after a call with "+tupleText(g, b))
		ra.Scribble()
		judge(rb, b, "after the result for "+tupleText(g, a)+" was overwritten")
		rb.Scribble()
	}
	do(a, fmt.Sprintf("after a call %s (%s)", how, tupleText(g, b)))
	do(b, "when repeated")
	x.Statef("%d %v %d %d", g, same, a, b)
	x.Logf("%s %s ; %s, same memory %v", gr.Name, tupleText(g, a), tupleText(g, b), same)
	x.Validated(3)
	x.Step(3)
	x.Outcome(gr.Name)
}

// editTo makes tx describe t, changing only what differs.
func editTo(tx *transaction.Transaction, t *ref.Tx, mode int) {
	tx.Version, tx.Locktime = t.Version, t.Locktime
	if len(tx.Inputs) > len(t.Ins) {
		tx.Inputs = tx.Inputs[:len(t.Ins)]
	}
	if len(tx.Outputs) > len(t.Outs) {
		tx.Outputs = tx.Outputs[:len(t.Outs)]
	}
	for k := range t.Ins {
		r := &t.Ins[k]
		if k == len(tx.Inputs) {
			tx.AddInput(libIn(r))
			continue
		}
		l := tx.Inputs[k]
		if diffIn(l, r, true) == "" {
			continue
		}
		if mode == 2 {
			tx.Inputs[k] = libIn(r)
			continue
		}
		l.PreviousTxID, l.PreviousTxOutIndex, l.PreviousTxSatoshis, l.SequenceNumber = hx(r.TxID), r.Vout, r.Sats, r.Seq
		editScript(&l.PreviousTxScript, r.Prev, mode)
		editScript(&l.UnlockingScript, r.Script, mode)
	}
	for k := range t.Outs {
		r := &t.Outs[k]
		if k == len(tx.Outputs) {
			tx.AddOutput(libOut(r))
			continue
		}
		l := tx.Outputs[k]
		if diffOut(l, r) == "" {
			continue
		}
		if mode == 2 {
			tx.Outputs[k] = libOut(r)
			continue
		}
		l.Satoshis = r.Sats
		editScript(&l.LockingScript, r.Script, mode)
	}
}

// editScript: mode 0 writes into the script object in place, mode 1 replaces it.
func editScript(p **script.Script, b []byte, mode int) {
	switch {
	case *p != nil && string(**p) == string(b):
	case mode == 0 && *p != nil && len(**p) == len(b):
		copy(**p, b)
	case mode == 0 && *p != nil:
		**p = exact(b)
	default:
		*p = scr(b)
	}
}

// transitions: one transaction object, observed, edited in one parameter,
// observed, edited in another, observed.
func transitions(shapes int, f func(x *X, tx *transaction.Transaction, t *ref.Tx, what string)) engine.Scenario {
	return engine.Scenario{Name: "space-transitions", Bound: fmt.Sprintf("one transaction object: %d backgrounds x every ordered pair of single-parameter edits (%d parameters, the first 2 values each; thorough 4) applied one after the other in 3 ways (in place, new script objects, new input/output objects), fully observed before, between and after; thorough also edits a parsed transaction", shapes, len(theParams)),
		Run: func(x *X) {
			short := 2
			if x.Thorough {
				short = 4
			}
			sh := spaceShapes[x.Choose(shapes)]
			mode := x.Choose(3)
			t := simpleTx(sh[0], sh[1])
			tx := libTx(t)
			if x.Thorough && x.Bool() {
				p, err := transaction.NewFromBytes(t.Bytes())
				if err != nil {
					x.Failf("parse", "NewFromBytes rejects a valid transaction: %v", err)
				}
				for i := range p.Inputs {
					p.Inputs[i].PreviousTxScript, p.Inputs[i].PreviousTxSatoshis = scr(t.Ins[i].Prev), t.Ins[i].Sats
				}
				tx = p
			}
			desc := fmt.Sprintf("%din/%dout, way %d", sh[0], sh[1], mode)
			f(x, tx, t, desc)
			for k := 0; k < 2; k++ {
				p := x.Choose(len(theParams))
				v := x.Choose(min(short, theParams[p].n))
				desc += fmt.Sprintf(", then %s=%d", theParams[p].name, v)
				theParams[p].set(t, v)
				editTo(tx, t, mode)
				f(x, tx, t, desc)
			}
			x.Validated(2)
			x.Step(2)
			x.Outcome(fmt.Sprintf("way %d", mode))
		}}
}

// libShared builds the transaction with values sharing memory: level 0: equal
// scripts are one object; 1: equal outputs too; 2: equal inputs too; 3: every
// script is a slice of one buffer, with the following scripts in its spare
// capacity.
func libShared(t *ref.Tx, level int) *transaction.Transaction {
	tx := libTx(t)
	var all []**script.Script
	for _, i := range tx.Inputs {
		all = append(all, &i.PreviousTxScript, &i.UnlockingScript)
	}
	for _, o := range tx.Outputs {
		all = append(all, &o.LockingScript)
	}
	if level == 3 {
		var buf []byte
		for _, p := range all {
			if *p != nil {
				buf = append(buf, **p...)
			}
		}
		at := 0
		for _, p := range all {
			if *p != nil {
				n := len(**p)
				*p = (*script.Script)(&[][]byte{buf[at : at+n]}[0])
				at += n
			}
		}
		return tx
	}
	seen := map[string]*script.Script{}
	for _, p := range all {
		if *p == nil {
			continue
		}
		if q := seen[string(**p)]; q != nil {
			*p = q
		} else {
			seen[string(**p)] = *p
		}
	}
	for k := range tx.Outputs {
		for l := 0; l < k && level > 0; l++ {
			if hx(t.Outs[k].Bytes()) == hx(t.Outs[l].Bytes()) {
				tx.Outputs[k] = tx.Outputs[l]
				break
			}
		}
	}
	for k := range tx.Inputs {
		for l := 0; l < k && level > 1; l++ {
			if diffIn(tx.Inputs[k], &t.Ins[l], true) == "" {
				tx.Inputs[k] = tx.Inputs[l]
				break
			}
		}
	}
	return tx
}

// sharing: transactions whose parts share memory.
func sharing(shapes, levels int, f func(x *X, tx *transaction.Transaction, t *ref.Tx, what string)) engine.Scenario {
	return engine.Scenario{Name: "shared-memory", Bound: fmt.Sprintf("%d backgrounds x 9 relations between the parts x every value of every other parameter x %d ways in which parts share memory (scripts in one buffer, each with the others in its spare capacity; equal scripts are one object; equal outputs too; equal inputs too)", shapes, levels),
		Run: func(x *X) {
			sh := spaceShapes[x.Choose(shapes)]
			level := (x.Choose(levels) + 3) % 4
			t := simpleTx(sh[0], sh[1])
			rel := len(theParams) - 1
			r := x.Choose(theParams[rel].n)
			p := x.Choose(rel)
			v := x.Choose(theParams[p].n)
			theParams[p].set(t, v)
			theParams[rel].set(t, r)
			f(x, libShared(t, level), t, fmt.Sprintf("%din/%dout relation %d %s=%d, memory shared at level %d", sh[0], sh[1], r, theParams[p].name, v, level))
			x.Outcome(fmt.Sprintf("level %d", level))
		}}
}

var (
	digestTransitions = func(x *X, tx *transaction.Transaction, t *ref.Tx, what string) {
		for i := range t.Ins {
			for _, f := range []uint8{0x41, 0x43, 0xc2} {
				digest(x, tx, t, i, f, what)
			}
		}
	}
	clearedTransitions = func(x *X, tx *transaction.Transaction, t *ref.Tx, what string) {
		for i := range t.Ins {
			clearedOn(x, tx, t, i, ref.P2PKH(keys[0].hash))
		}
	}
)

func watchTransitions(x *X, tx *transaction.Transaction, t *ref.Tx, what string) {
	watch(x, tx, t, what)
	if g := tx.ToString(); g != hx(t.Bytes()) {
		x.Failf("ToString", "%s: ToString is not the hex of the wire form", what)
	}
	for i := range t.Ins {
		if g := tx.Inputs[i].ToBytes(false); hx(g) != hx(t.Ins[i].Bytes()) {
			x.Failf("input.ToBytes", "%s: input %d serialises as %x, want %x", what, i, g, t.Ins[i].Bytes())
		}
	}
	for i := range t.Outs {
		if g := tx.Outputs[i].ToBytes(); hx(g) != hx(t.Outs[i].Bytes()) {
			x.Failf("output.ToBytes", "%s: output %d serialises as %x, want %x", what, i, g, t.Outs[i].Bytes())
		}
	}
}

// extra lists the scenarios common to several properties.
func extra(id string) []engine.Scenario {
	l := append(append(append(large(id), rareValues(id)...), coincidences(id)...), generic(id)...)
	l = append(append(l, edges(id)...), collisionScenario(id)...)
	l = append(append(append(l, wordScenario(id)...), innerScenario(id)...), append(relatedKeys(id), opcodeRuns(id)...)...)
	if id == "C07" {
		l = append(l, sameObjects())
	}
	switch id {
	case "C01", "C07":
		l = append(l, transitions(3, watchTransitions), sharing(3, 4, watchTransitions))
	case "C04":
		l = append(l, transitions(3, digestTransitions), sharing(3, 4, digestTransitions))
	case "C05":
		l = append(l, transitions(1, func(x *X, tx *transaction.Transaction, t *ref.Tx, what string) {
			signCheck(x, tx, t, len(t.Ins)-1, 0, 0x41, true)
		}), sharing(1, 3, func(x *X, tx *transaction.Transaction, t *ref.Tx, what string) {
			for i := range t.Ins {
				signCheck(x, tx, t, i, 0, 0x41, i == 0)
			}
		}))
	case "C06":
		l = append(l, spaceScenarios(2, txJudge("C06"))...)
		l = append(l, transitions(1, func(x *X, tx *transaction.Transaction, t *ref.Tx, what string) {
			autoLib(x, tx, t, []int{0}, []uint8{0x41})
		}), sharing(1, 3, func(x *X, tx *transaction.Transaction, t *ref.Tx, what string) {
			for i := range t.Ins {
				if hx(t.Ins[i].Prev) == hx(simpleIn(i).Prev) {
					t.Ins[i].Prev = ref.P2PKH(keys[0].hash)
					tx.Inputs[i].PreviousTxScript = tx.Inputs[0].PreviousTxScript
					if i == 0 || hx(sb(tx.Inputs[0].PreviousTxScript)) != hx(t.Ins[i].Prev) {
						tx.Inputs[i].PreviousTxScript = scr(t.Ins[i].Prev)
					}
				}
			}
			autoLib(x, tx, t, []int{0}, []uint8{0x41})
		}))
	case "C30":
		l = append(l, transitions(3, clearedTransitions), sharing(3, 4, clearedTransitions))
	case "C26":
		l = append(l, transitions(2, func(x *X, tx *transaction.Transaction, t *ref.Tx, what string) {
			watchTransitions(x, tx, t, what)
			digestTransitions(x, tx, t, what)
			clearedTransitions(x, tx, t, what)
		}), sharing(2, 4, func(x *X, tx *transaction.Transaction, t *ref.Tx, what string) {
			watchTransitions(x, tx, t, what)
			digestTransitions(x, tx, t, what)
			clearedTransitions(x, tx, t, what)
			watchTransitions(x, tx, t, what)
		}))
	}
	var ids []int
	var names []string
	for i, g := range groups {
		if g.Prop == id || id == "C26" {
			ids = append(ids, i)
			names = append(names, fmt.Sprintf("%s(%d)", g.Name, g.Variants()))
		}
	}
	if len(ids) > 0 && id != "C27" {
		l = append(l, engine.Scenario{Name: "twins", Bound: "every ordered pair of argument tuples differing in one or two arguments (number of tuples per function in parentheses), with fresh arguments and with the same argument memory holding the new contents: A, B, results kept and overwritten, A, B, each compared with the call alone in a fresh process: " + strings.Join(names, ", "),
			Serial: true, Run: func(x *X) { twins(x, ids) }})
	}
	return l
}
