package checks

import (
	"fmt"

	"verif/mc/engine"
	"verif/mc/ref"
)

// A parameterised family of transactions, explored by taking every combination
// of values of every pair (full value lists) and of every triple and quadruple
// (shorter lists) of parameters, the others staying at their background value.

type txParam struct {
	name string
	n    int // number of values; the first few are the short list
	set  func(t *ref.Tx, v int)
}

type txCase struct {
	T    *ref.Tx
	Idx  int   // the input under consideration
	Flag uint8 // signature hash flag
	Desc string
}

func spaceScripts() [][]byte {
	r := [][]byte{nil, pat(253, 1), ref.P2PKH(keys[0].hash), {0}, rep(252, 0), pat(65536, 2), {0xff}, ref.P2SH(pat(20, 3)), cat(ref.Push(keys[0].pub), []byte{0xac}),
		{0xab}, {0, 0x6a, 2, 'h', 'i'}, {0x6a}, ref.MultisigScript(1, [][]byte{keys[0].pub, keys[1].pub}), {3, 0x40, 0x0d, 3, 'm'}, rep(25, 0), cat(rep(24, 0), []byte{0xac}), pat(254, 4), pat(255, 5), pat(256, 6), pat(65535, 7),
		rep(253, 0xfd), {0x4c}, {0xfd, 0, 0}, cat(ref.Push(pat(72, 8)), ref.Push(keys[0].pub))}
	return r
}

func spaceParams() []txParam {
	vers := []uint32{0, 0xffffffff, 2, 1, 0x80000000, 0x01020304, 0x00010000, 0x7fffffff}
	lock := []uint32{0xffffffff, 0, 500000000, 499999999, 1, 0x01020304, 0x80000000, 0x00ffff00}
	ids := [][]byte{rep(32, 0), pat(32, 100), rep(32, 0xff), append(rep(31, 0), 1), append([]byte{1}, rep(31, 0)...), pat(32, 101)}
	vout := []uint32{0xffffffff, 0, 1, 0x01020304, 0x80000000, 0xfffffffe, 253, 65536}
	seq := []uint32{0, 0xfffffffe, 0xffffffff, 1, 0x80000000, 0x01020304, 0x00400001, 0x7fffffff}
	sats := []uint64{0, 1<<64 - 1, 0x0102030405060708, 1, 1 << 63, 0xffffffff, 1 << 32, 2100000000000000, 546}
	scripts := spaceScripts()
	atIn := func(k int, f func(i *ref.In)) func(t *ref.Tx) {
		return func(t *ref.Tx) {
			if len(t.Ins) > k {
				f(&t.Ins[k])
			}
		}
	}
	atOut := func(k int, f func(o *ref.Out)) func(t *ref.Tx) {
		return func(t *ref.Tx) {
			if len(t.Outs) > k {
				f(&t.Outs[k])
			}
		}
	}
	ps := []txParam{
		{"version", len(vers), func(t *ref.Tx, v int) { t.Version = vers[v] }},
		{"locktime", len(lock), func(t *ref.Tx, v int) { t.Locktime = lock[v] }},
	}
	for k := 0; k < 2; k++ {
		k := k
		nm := fmt.Sprintf("in%d.", k)
		ps = append(ps,
			txParam{nm + "txid", len(ids), func(t *ref.Tx, v int) { atIn(k, func(i *ref.In) { i.TxID = cp(ids[v]) })(t) }},
			txParam{nm + "vout", len(vout), func(t *ref.Tx, v int) { atIn(k, func(i *ref.In) { i.Vout = vout[v] })(t) }},
			txParam{nm + "seq", len(seq), func(t *ref.Tx, v int) { atIn(k, func(i *ref.In) { i.Seq = seq[v] })(t) }},
			txParam{nm + "sats", len(sats), func(t *ref.Tx, v int) { atIn(k, func(i *ref.In) { i.Sats = sats[v] })(t) }},
			txParam{nm + "unlock", len(scripts), func(t *ref.Tx, v int) { atIn(k, func(i *ref.In) { i.Script = cp(scripts[v]) })(t) }},
			txParam{nm + "prev", len(scripts), func(t *ref.Tx, v int) { atIn(k, func(i *ref.In) { i.Prev = cp(scripts[v]) })(t) }})
	}
	for k := 0; k < 2; k++ {
		k := k
		nm := fmt.Sprintf("out%d.", k)
		ps = append(ps,
			txParam{nm + "sats", len(sats), func(t *ref.Tx, v int) { atOut(k, func(o *ref.Out) { o.Sats = sats[v] })(t) }},
			txParam{nm + "script", len(scripts), func(t *ref.Tx, v int) { atOut(k, func(o *ref.Out) { o.Script = cp(scripts[v]) })(t) }})
	}
	ps = append(ps, txParam{"relation", 9, func(t *ref.Tx, v int) {
		switch {
		case v == 0 && len(t.Ins) > 1: // the same input twice
			t.Ins[1] = t.Clone().Ins[0]
		case v == 1 && len(t.Ins) > 1: // the same outpoint
			t.Ins[1].TxID, t.Ins[1].Vout = cp(t.Ins[0].TxID), t.Ins[0].Vout
		case v == 2 && len(t.Outs) > 1: // the same output twice
			t.Outs[1] = t.Clone().Outs[0]
		case v == 3 && len(t.Outs) > 0 && len(t.Ins) > 0: // pays back to the script it spends
			t.Outs[0].Script = cp(t.Ins[0].Prev)
		case v == 4 && len(t.Ins) > 1: // reverse order of the inputs
			t.Ins[0], t.Ins[1] = t.Ins[1], t.Ins[0]
		case v == 5 && len(t.Outs) > 1:
			t.Outs[0], t.Outs[1] = t.Outs[1], t.Outs[0]
		case v == 6 && len(t.Ins) > 0: // one input more, equal to the first
			t.Ins = append(t.Ins, t.Clone().Ins[0])
		case v == 7 && len(t.Outs) > 0:
			t.Outs = append(t.Outs, t.Clone().Outs[0])
		case v == 8 && len(t.Ins) > 0: // unlocking script equals previous script
			t.Ins[0].Script = cp(t.Ins[0].Prev)
		}
	}})
	return ps
}

var (
	theParams   = spaceParams()
	spaceShapes = [][2]int{{2, 2}, {1, 1}, {3, 1}, {1, 0}, {2, 3}, {5, 4}}
	spaceFlags  = []uint8{0x41, 0x43, 0xc3, 0x42, 0xc1, 0xc2, 0x40, 0x5f}
)

// pickTx chooses a background, t parameters and their values (at most short
// values each when short > 0).
func pickTx(x *X, tw, short, shapes int) txCase {
	sh := spaceShapes[x.Choose(shapes)]
	c := txCase{T: simpleTx(sh[0], sh[1]), Flag: 0x41}
	c.Desc = fmt.Sprintf("%din/%dout", sh[0], sh[1])
	lo := 0
	type set struct{ p, v int }
	var sets []set
	for k := 0; k < tw; k++ {
		// parameters in increasing order
		left := len(theParams) - lo - (tw - 1 - k)
		p := lo + x.Choose(left)
		lo = p + 1
		n := theParams[p].n
		if short > 0 && n > short {
			n = short
		}
		v := x.Choose(n)
		sets = append(sets, set{p, v})
		c.Desc += fmt.Sprintf(" %s=%d", theParams[p].name, v)
	}
	for _, s := range sets {
		theParams[s.p].set(c.T, s.v)
	}
	return c
}

// spaceScenarios builds the scenarios of the family for one check.
func spaceScenarios(shapes int, f func(x *X, c txCase)) []engine.Scenario {
	np := len(theParams)
	lists := "version(8), locktime(8), for each of 2 inputs txid(6) vout(8) sequence(8) amount(9) unlocking script(24) previous script(24), for each of 2 outputs amount(9) script(24), 9 relations between the parts (repeated inputs, outpoints, outputs, ...)"
	return []engine.Scenario{
		{Name: "space-pairs", Bound: fmt.Sprintf("%d backgrounds x every pair of the %d parameters x every pair of their values: %s", shapes, np, lists), Run: func(x *X) { f(x, pickTx(x, 2, 0, shapes)) }},
		{Name: "space-triples", Bound: fmt.Sprintf("%d backgrounds x every triple of the %d parameters x every combination of the first 4 values (quick: 2 backgrounds, 3 values)", shapes, np), Run: func(x *X) {
			if x.Thorough {
				f(x, pickTx(x, 3, 4, shapes))
			} else {
				f(x, pickTx(x, 3, 3, min(2, shapes)))
			}
		}},
	}
}
