// Package checks holds one exhaustive driver per property of libsv/libsv. Only
// the exported API of the library is used.
package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	"verif/mc/engine"
	"verif/mc/ref"
)

type X = engine.X

var registry []engine.Property

func register(p engine.Property) { registry = append(registry, p) }

// All lists the properties in the order of their ids.
func All() []engine.Property {
	ps := append([]engine.Property{}, registry...)
	for i := range ps {
		ps[i].Scenarios = append(append([]engine.Scenario{}, ps[i].Scenarios...), extra(ps[i].ID)...)
	}
	for i := range ps {
		for j := i + 1; j < len(ps); j++ {
			if ps[j].ID < ps[i].ID {
				ps[i], ps[j] = ps[j], ps[i]
			}
		}
	}
	return ps
}

const baseAssumption = "the Go standard library (SHA-256, AES, hex, base64), golang.org/x/crypto/ripemd160 and bsvd/bsvutil behave as documented where the oracle uses them; values outside the stated alphabets are not covered"

// ---- byte material --------------------------------------------------------

// pat is a deterministic byte string of length n in which neighbouring bytes
// and strings of different seeds differ.
func pat(n int, seed int) []byte {
	b := make([]byte, n)
	v := uint32(seed)*2654435761 + 12345
	for i := range b {
		v = v*1664525 + 1013904223
		b[i] = byte(v >> 24)
	}
	return b
}

func rep(n int, v byte) []byte { return bytes.Repeat([]byte{v}, n) }

func cp(b []byte) []byte { return append(make([]byte, 0, len(b)), b...) }

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// fills are contents which code treating some bytes specially gets wrong.
const nFills = 12

func fill(n, k int) []byte {
	b := pat(n, n+1)
	if n == 0 {
		return []byte{}
	}
	switch k {
	case 1:
		b = rep(n, 0)
	case 2:
		b = rep(n, 0xff)
	case 3:
		b[0] = 0
	case 4:
		b[n-1] = 0
	case 5:
		b[0], b[n-1] = 0x0f, 0xf0
	case 6:
		b[0], b[n-1] = 0x80, 0x80
	case 7:
		b = rep(n, 0)
		b[n-1] = 1
	case 8:
		b = rep(n, 0)
		b[0] = 1
	case 9:
		b = rep(n, 'a')
	case 10:
		b[0], b[n/2] = 0x4c, 0
	case 11:
		for i := range b {
			b[i] = byte(i)
		}
	}
	return b
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// short renders bytes for messages.
func short(b []byte) string {
	if len(b) <= 120 {
		return hx(b)
	}
	return fmt.Sprintf("%s...%s (%d bytes)", hx(b[:60]), hx(b[len(b)-30:]), len(b))
}

// guard is an argument buffer followed by spare capacity; neither the bytes nor
// the spare capacity may be changed by a call which is given the slice.
type guard struct {
	full, orig []byte
	n          int
}

func mkGuard(b []byte, spare int) *guard {
	full := make([]byte, len(b)+spare)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xA5 ^ byte(i*37)
	}
	return &guard{full, cp(full), len(b)}
}

func (g *guard) b() []byte { return g.full[:g.n] }

func (g *guard) check(x *X, what string) {
	if !bytes.Equal(g.full, g.orig) {
		i := 0
		for g.full[i] == g.orig[i] {
			i++
		}
		where := "its bytes"
		if i >= g.n {
			where = "memory beyond its length"
		}
		x.Failf("argument modified: "+what, "%s: the call changed the argument (%s) at offset %d of %d: %02x -> %02x", what, where, i, g.n, g.orig[i], g.full[i])
	}
}

// exact returns a copy with no spare capacity.
func exact(b []byte) []byte {
	r := make([]byte, len(b))
	copy(r, b)
	return r[:len(b):len(b)]
}

// try runs f and converts a panic of the library into a failure with a stable key.
func try(x *X, what string, f func()) {
	if p := caught(f); p != "" {
		x.Failf("panic: "+what, "%s panicked: %s", what, p)
	}
}

func caught(f func()) (msg string) {
	done := false
	defer func() {
		if done {
			return
		}
		r := recover()
		if engine.IsControl(r) {
			panic(r)
		}
		msg = fmt.Sprint(r)
		if msg == "" {
			msg = "panic"
		}
	}()
	f()
	done = true
	return ""
}

// ---- transactions ---------------------------------------------------------

func scr(b []byte) *script.Script {
	s := script.Script(exact(b))
	return &s
}

func libIn(i *ref.In) *input.Input {
	in := &input.Input{PreviousTxID: hx(i.TxID), PreviousTxOutIndex: i.Vout, PreviousTxSatoshis: i.Sats, SequenceNumber: i.Seq}
	if i.Prev != nil {
		in.PreviousTxScript = scr(i.Prev)
	}
	in.UnlockingScript = scr(i.Script)
	return in
}

func libOut(o *ref.Out) *output.Output {
	return &output.Output{Satoshis: o.Sats, LockingScript: scr(o.Script)}
}

func libTx(t *ref.Tx) *transaction.Transaction {
	tx := transaction.New()
	tx.Version, tx.Locktime = t.Version, t.Locktime
	for k := range t.Ins {
		tx.AddInput(libIn(&t.Ins[k]))
	}
	for k := range t.Outs {
		tx.AddOutput(libOut(&t.Outs[k]))
	}
	return tx
}

func sb(s *script.Script) []byte {
	if s == nil {
		return nil
	}
	return *s
}

func diffIn(l *input.Input, r *ref.In, prev bool) string {
	switch {
	case l == nil:
		return "is nil"
	case !strings.EqualFold(l.PreviousTxID, hx(r.TxID)):
		return fmt.Sprintf("PreviousTxID %s, want %s", l.PreviousTxID, hx(r.TxID))
	case l.PreviousTxOutIndex != r.Vout:
		return fmt.Sprintf("PreviousTxOutIndex %d, want %d", l.PreviousTxOutIndex, r.Vout)
	case l.SequenceNumber != r.Seq:
		return fmt.Sprintf("SequenceNumber %x, want %x", l.SequenceNumber, r.Seq)
	case !bytes.Equal(sb(l.UnlockingScript), r.Script):
		return fmt.Sprintf("UnlockingScript %s, want %s", short(sb(l.UnlockingScript)), short(r.Script))
	}
	if prev {
		switch {
		case l.PreviousTxSatoshis != r.Sats:
			return fmt.Sprintf("PreviousTxSatoshis %d, want %d", l.PreviousTxSatoshis, r.Sats)
		case !bytes.Equal(sb(l.PreviousTxScript), r.Prev):
			return fmt.Sprintf("PreviousTxScript %s, want %s", short(sb(l.PreviousTxScript)), short(r.Prev))
		}
	}
	return ""
}

func diffOut(l *output.Output, r *ref.Out) string {
	switch {
	case l == nil:
		return "is nil"
	case l.Satoshis != r.Sats:
		return fmt.Sprintf("Satoshis %d, want %d", l.Satoshis, r.Sats)
	case !bytes.Equal(sb(l.LockingScript), r.Script):
		return fmt.Sprintf("LockingScript %s, want %s", short(sb(l.LockingScript)), short(r.Script))
	}
	return ""
}

// diffTx compares a library transaction with the model ("" when equal).
func diffTx(l *transaction.Transaction, r *ref.Tx, prev bool) string {
	if l == nil {
		return "transaction is nil"
	}
	if l.Version != r.Version {
		return fmt.Sprintf("Version %x, want %x", l.Version, r.Version)
	}
	if l.Locktime != r.Locktime {
		return fmt.Sprintf("Locktime %x, want %x", l.Locktime, r.Locktime)
	}
	if len(l.Inputs) != len(r.Ins) || l.InputCount() != len(r.Ins) || len(l.GetInputs()) != len(r.Ins) {
		return fmt.Sprintf("%d inputs (InputCount %d, GetInputs %d), want %d", len(l.Inputs), l.InputCount(), len(l.GetInputs()), len(r.Ins))
	}
	if len(l.Outputs) != len(r.Outs) || l.OutputCount() != len(r.Outs) || len(l.GetOutputs()) != len(r.Outs) {
		return fmt.Sprintf("%d outputs (OutputCount %d, GetOutputs %d), want %d", len(l.Outputs), l.OutputCount(), len(l.GetOutputs()), len(r.Outs))
	}
	for i := range r.Ins {
		if l.GetInputs()[i] != l.Inputs[i] {
			return fmt.Sprintf("GetInputs()[%d] is not Inputs[%d]", i, i)
		}
		if d := diffIn(l.Inputs[i], &r.Ins[i], prev); d != "" {
			return fmt.Sprintf("input %d: %s", i, d)
		}
	}
	for i := range r.Outs {
		if l.GetOutputs()[i] != l.Outputs[i] {
			return fmt.Sprintf("GetOutputs()[%d] is not Outputs[%d]", i, i)
		}
		if d := diffOut(l.Outputs[i], &r.Outs[i]); d != "" {
			return fmt.Sprintf("output %d: %s", i, d)
		}
	}
	return ""
}

// stateTx is the canonical form of a model transaction, previous-output data included.
func stateTx(t *ref.Tx) []byte {
	b := t.Bytes()
	for _, i := range t.Ins {
		b = append(b, ref.LE(i.Sats, 8)...)
		if i.Prev == nil {
			b = append(b, 0xee)
		} else {
			b = append(b, ref.VarInt(uint64(len(i.Prev)))...)
			b = append(b, i.Prev...)
		}
	}
	return b
}
