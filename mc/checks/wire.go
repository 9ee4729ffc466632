package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/utils"

	"verif/mc/engine"
	"verif/mc/ref"
)

// ---- C01: transaction wire format ------------------------------------------

// checkWire compares every serialising and parsing entry point with the model.
func checkWire(x *X, t *ref.Tx) {
	want := t.Bytes()
	id := t.ID()
	var tx *transaction.Transaction
	try(x, "building and serialising a transaction", func() {
		tx = libTx(t)
		if g := tx.ToBytes(); !bytes.Equal(g, want) {
			x.Failf("ToBytes", "ToBytes of the built transaction is %s, want %s", short(g), short(want))
		}
		if g := tx.ToString(); g != hx(want) {
			x.Failf("ToString", "ToString of the built transaction is not the hex of its wire form")
		}
		if g := tx.GetTxID(); g != id {
			x.Failf("GetTxID", "GetTxID is %s, want %s", g, id)
		}
		if g := tx.ToBytes(); !bytes.Equal(g, want) {
			x.Failf("ToBytes twice", "a second ToBytes differs")
		}
		if d := diffTx(tx, t, true); d != "" {
			x.Failf("serialising changed the transaction", "after serialising: %s", d)
		}
	})
	try(x, "parsing a valid transaction", func() {
		g := mkGuard(want, 40)
		p, err := transaction.NewFromBytes(g.b())
		if err != nil {
			x.Failf("NewFromBytes rejects", "NewFromBytes rejects the valid transaction %s: %v", short(want), err)
		}
		if d := diffTx(p, t, false); d != "" {
			x.Failf("NewFromBytes fields", "parsed %s: %s", short(want), d)
		}
		if b := p.ToBytes(); !bytes.Equal(b, want) {
			x.Failf("reserialise", "parse then ToBytes gives %s, want %s", short(b), short(want))
		}
		if b := p.GetTxID(); b != id {
			x.Failf("GetTxID parsed", "GetTxID of the parsed transaction is %s, want %s", b, id)
		}
		g.check(x, "transaction.NewFromBytes")
		h := hx(want)
		p, err = transaction.NewFromString(h)
		if err != nil {
			x.Failf("NewFromString rejects", "NewFromString rejects %s: %v", short(want), err)
		}
		if d := diffTx(p, t, false); d != "" {
			x.Failf("NewFromString fields", "parsed string: %s", d)
		}
		if p.ToString() != h {
			x.Failf("string round trip", "NewFromString then ToString differs from the input text")
		}
		if len(h) < 2000 {
			p, err = transaction.NewFromString(strings.ToUpper(h))
			if err != nil || diffTx(p, t, false) != "" {
				x.Failf("upper-case hex", "NewFromString of the upper-case text: err=%v", err)
			}
		}
	})
	try(x, "parsing and printing one input or output", func() {
		// each element is parsed from the middle of the stream
		off := 4 + len(ref.VarInt(uint64(len(t.Ins))))
		for i := range t.Ins {
			if len(t.Ins) > 40 && i > 3 && i < len(t.Ins)-3 {
				off += len(t.Ins[i].Bytes())
				continue
			}
			w := t.Ins[i].Bytes()
			in, n, err := input.NewFromBytes(want[off:])
			if err != nil || n != len(w) {
				x.Failf("input.NewFromBytes", "input %d: size %d want %d, err %v", i, n, len(w), err)
			}
			if d := diffIn(in, &t.Ins[i], false); d != "" {
				x.Failf("input.NewFromBytes fields", "input %d: %s", i, d)
			}
			if b := in.ToBytes(false); !bytes.Equal(b, w) {
				x.Failf("Input.ToBytes", "input %d: ToBytes %s, want %s", i, short(b), short(w))
			}
			clear := t.Ins[i]
			clear.Script = nil
			if b := in.ToBytes(true); !bytes.Equal(b, clear.Bytes()) {
				x.Failf("Input.ToBytes(clear)", "input %d: cleared ToBytes %s, want %s", i, short(b), short(clear.Bytes()))
			}
			off += n
		}
		off += len(ref.VarInt(uint64(len(t.Outs))))
		for i := range t.Outs {
			if len(t.Outs) > 40 && i > 3 && i < len(t.Outs)-3 {
				off += len(t.Outs[i].Bytes())
				continue
			}
			w := t.Outs[i].Bytes()
			o, n, err := output.NewFromBytes(want[off:])
			if err != nil || n != len(w) {
				x.Failf("output.NewFromBytes", "output %d: size %d want %d, err %v", i, n, len(w), err)
			}
			if d := diffOut(o, &t.Outs[i]); d != "" {
				x.Failf("output.NewFromBytes fields", "output %d: %s", i, d)
			}
			if b := o.ToBytes(); !bytes.Equal(b, w) {
				x.Failf("Output.ToBytes", "output %d: ToBytes %s, want %s", i, short(b), short(w))
			}
			if b := o.GetBytesForSigHash(); !bytes.Equal(b, w) {
				x.Failf("Output.GetBytesForSigHash", "output %d: GetBytesForSigHash %s, want %s", i, short(b), short(w))
			}
			if b := o.GetLockingScriptHexString(); b != hx(t.Outs[i].Script) {
				x.Failf("GetLockingScriptHexString", "output %d: %s", i, b)
			}
			off += n
		}
	})
	x.State(want)
	x.Outcome(fmt.Sprintf("%din/%dout", min(len(t.Ins), 4), min(len(t.Outs), 4)))
}

var (
	txids    = [][]byte{pat(32, 1), rep(32, 0), rep(32, 0xff), append(rep(31, 0), 1)}
	u32s     = []uint32{0, 1, 0x01020304, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0xfffefdfc}
	u64s     = []uint64{0, 1, 0x0102030405060708, 0xffffffff, 0x100000000, 2100000000000000, 1 << 63, 1<<64 - 1}
	seqs     = []uint32{0xffffffff, 0, 0xfffffffe, 0x01020304}
	versions = []uint32{1, 2, 0, 0x01020304, 0x7fffffff, 0x80000000, 0xffffffff}
)

func lensAround(hi int, win int, marks ...int) []int {
	seen := map[int]bool{}
	var r []int
	add := func(v int) {
		if v >= 0 && !seen[v] {
			seen[v] = true
			r = append(r, v)
		}
	}
	for i := 0; i <= hi; i++ {
		add(i)
	}
	for _, m := range marks {
		for d := -win; d <= win; d++ {
			add(m + d)
		}
	}
	return r
}

func simpleIn(k int) ref.In {
	return ref.In{TxID: pat(32, 100+k), Vout: uint32(k) * 0x01010101, Script: pat(k%5, 200+k), Seq: 0xffffffff - uint32(k), Sats: uint64(k)*1000003 + 7, Prev: ref.P2PKH(pat(20, 300+k))}
}

func simpleOut(k int) ref.Out {
	return ref.Out{Sats: uint64(k)*0x0101010101 + 5, Script: pat(3+k%4, 400+k)}
}

func simpleTx(ni, no int) *ref.Tx {
	t := &ref.Tx{Version: 2, Locktime: 0x00aabbcc}
	for i := 0; i < ni; i++ {
		t.Ins = append(t.Ins, simpleIn(i))
	}
	for i := 0; i < no; i++ {
		t.Outs = append(t.Outs, simpleOut(i))
	}
	return t
}

func pickIn(x *X, lens []int) ref.In {
	return ref.In{TxID: engine.Pick(x, txids), Vout: engine.Pick(x, u32s), Script: pat(engine.Pick(x, lens), 9), Seq: engine.Pick(x, seqs)}
}

func init() {
	register(engine.Property{ID: "C01", Level: "model_checking",
		Rule:        "every transaction of the stated shapes is built, serialised, hashed, parsed (bytes, lower- and upper-case hex, one element at a time) and compared with an independent model; a state is a distinct wire form",
		Assumptions: []string{baseAssumption},
		Scenarios: append(spaceScenarios(6, txJudge("C01")), []engine.Scenario{
			{Name: "one-input-fields", Bound: "1 input over txid(4) x vout(8) x script length {0,1,2,252,253,254,255,256} x sequence(4), 0..1 outputs", Run: func(x *X) {
				t := &ref.Tx{Version: 1}
				t.Ins = append(t.Ins, pickIn(x, []int{0, 1, 2, 252, 253, 254, 255, 256}))
				if x.Bool() {
					t.Outs = append(t.Outs, simpleOut(1))
				}
				checkWire(x, t)
			}},
			{Name: "two-inputs", Bound: "2 inputs, each txid(4) x vout(3) x script length {0,1,253} x sequence(3), 1 output", Run: func(x *X) {
				t := &ref.Tx{Version: 1, Locktime: 9}
				for i := 0; i < 2; i++ {
					t.Ins = append(t.Ins, ref.In{TxID: engine.Pick(x, txids), Vout: []uint32{0, 0x01020304, 0xffffffff}[x.Choose(3)],
						Script: pat([]int{0, 1, 253}[x.Choose(3)], 9+i), Seq: seqs[x.Choose(3)]})
				}
				t.Outs = append(t.Outs, simpleOut(3))
				checkWire(x, t)
			}},
			{Name: "outputs-fields", Bound: "1 or 2 outputs, each value(8) x script length {0,1,25,75,252,253,254,255,256}, 0..1 inputs", Run: func(x *X) {
				t := &ref.Tx{Version: 1}
				if x.Bool() {
					t.Ins = append(t.Ins, simpleIn(2))
				}
				n := 1 + x.Choose(2)
				for i := 0; i < n; i++ {
					t.Outs = append(t.Outs, ref.Out{Sats: engine.Pick(x, u64s), Script: pat(engine.Pick(x, []int{0, 1, 25, 75, 252, 253, 254, 255, 256}), 30+i)})
				}
				checkWire(x, t)
			}},
			{Name: "version-locktime", Bound: "version(7) x locktime(8) x inputs 0..2 x outputs 0..2", Run: func(x *X) {
				t := simpleTx(x.Choose(3), x.Choose(3))
				t.Version, t.Locktime = engine.Pick(x, versions), engine.Pick(x, u32s)
				checkWire(x, t)
			}},
			{Name: "counts", Bound: "every input count 0..300 x outputs 0..3; every output count 0..300 x inputs 0..3", Run: func(x *X) {
				few, many := x.Choose(4), x.Choose(301)
				if x.Bool() {
					checkWire(x, simpleTx(many, few))
				} else {
					checkWire(x, simpleTx(few, many))
				}
			}},
			{Name: "large-counts", Bound: "65534..65537 inputs or outputs (thorough: also 1000, 4096, 100000)", Run: func(x *X) {
				ns := []int{65534, 65535, 65536, 65537}
				if x.Thorough {
					ns = append(ns, 1000, 4096, 100000)
				}
				n := engine.Pick(x, ns)
				if x.Bool() {
					checkWire(x, simpleTx(n, 1))
				} else {
					checkWire(x, simpleTx(1, n))
				}
			}},
			{Name: "script-lengths", Bound: "unlocking or locking script of every length 0..1100 and 65500..65600 (thorough: every length 0..70000 and 2^20, 2^24 +-1)", Run: func(x *X) {
				lens := lensAround(1100, 50, 65550)
				if x.Thorough {
					lens = lensAround(70000, 1, 1<<20, 1<<24)
				}
				n := engine.Pick(x, lens)
				t := simpleTx(2, 2)
				if x.Bool() {
					t.Ins[0].Script = pat(n, 77)
				} else {
					t.Outs[0].Script = pat(n, 78)
				}
				checkWire(x, t)
			}},
			{Name: "nil-unlocking", Bound: "inputs without an unlocking script among 1..4 inputs, all 2^n subsets", Run: func(x *X) {
				n := 1 + x.Choose(4)
				t := simpleTx(n, 2)
				tx := libTx(t)
				for i := 0; i < n; i++ {
					if x.Bool() {
						t.Ins[i].Script = nil
						tx.Inputs[i].UnlockingScript = nil
					}
				}
				try(x, "ToBytes with a nil unlocking script", func() {
					if !bytes.Equal(tx.ToBytes(), t.Bytes()) || tx.GetTxID() != t.ID() || tx.ToString() != hx(t.Bytes()) {
						x.Failf("nil unlocking script", "ToBytes %s, want %s", short(tx.ToBytes()), short(t.Bytes()))
					}
				})
				x.State(t.Bytes())
			}},
		}...)})

	register(engine.Property{ID: "C02", Level: "model_checking",
		Rule:        "every mutated or truncated byte string of the stated families is given to the three parsers; acceptance, returned values and sizes are compared with an independent parser; a state is a distinct byte string",
		Assumptions: []string{baseAssumption, "a byte string which is complete but uses a non-minimal length prefix may be accepted or rejected; if accepted its values must be right"},
		Scenarios: []engine.Scenario{
			{Name: "prefixes", Bound: "every prefix of 10 transactions (and prefixes followed by 1..4 bytes), each with exact capacity, with junk beyond and with the rest of the transaction beyond the length", Run: func(x *X) {
				b := bases()[x.Choose(len(bases()))].Bytes()
				k := x.Choose(400)
				if k > len(b) {
					x.Prune()
				}
				ext := x.Choose(5)
				fill := []byte{0, 0xff, 0xfd, 1}[x.Choose(4)]
				if ext == 0 && fill != 0 {
					x.Prune()
				}
				parse3(x, cat(b[:k], rep(ext, fill)))
				if ext == 0 {
					checkParseTx(x, b[:k:len(b)], "rest of the transaction beyond the length")
					checkParseIn(x, b[min(4, k):k:len(b)])
					checkParseOut(x, b[min(4, k):k:len(b)])
				}
			}},
			{Name: "byte-substitution", Bound: "10 transactions, every position, every byte value", Run: func(x *X) {
				b := bases()[x.Choose(len(bases()))].Bytes()
				k := x.Choose(400)
				if k >= len(b) {
					x.Prune()
				}
				for v := 0; v < 256; v++ {
					m := cp(b)
					m[k] = byte(v)
					parse3(x, m)
				}
				x.Step(256)
				x.Validated(255)
			}},
			{Name: "length-overwrite", Bound: "every length and count field of 10 transactions replaced by each 1, 3, 5, 9-byte prefix with value 0..300, 2^16,2^31,2^32,2^63,2^64 -80..+80", Run: func(x *X) {
				t := bases()[x.Choose(len(bases()))]
				fs := fields(t)
				f := x.Choose(6)
				if f >= len(fs) {
					x.Prune()
				}
				b := t.Bytes()
				center := []uint64{0, 1 << 16, 1 << 31, 1 << 32, 1 << 63}[x.Choose(5)]
				for d := int64(-80); d <= 300; d++ {
					if d > 80 && center != 0 {
						break
					}
					v := center + uint64(d)
					for _, p := range prefixes(v) {
						parse3(x, cat(b[:fs[f].off], p, b[fs[f].off+fs[f].n:]))
						x.Step(1)
						x.Validated(1)
					}
				}
			}},
			{Name: "two-lengths", Bound: "a pair of length/count fields of 4 transactions replaced together, each by one of 18 prefixes", Run: func(x *X) {
				t := bases()[4+x.Choose(4)]
				fs := fields(t)
				i, j := x.Choose(6), x.Choose(6)
				if i >= j || j >= len(fs) {
					x.Prune()
				}
				b := t.Bytes()
				ps := [][]byte{{0}, {1}, {2}, {0xfc}, {0xfd}, {0xfd, 0}, {0xfd, 0, 0}, {0xfd, 1, 0}, {0xfd, 0xff, 0xff}, {0xfe, 0, 0, 0, 0}, {0xfe, 2, 0, 0, 0}, {0xfe, 0xff, 0xff, 0xff, 0xff}, {0xff}, cat([]byte{0xff}, rep(8, 0xff)), cat([]byte{0xff}, rep(7, 0)), cat([]byte{0xff}, rep(7, 0), []byte{0x80}), cat([]byte{0xff, 1}, rep(7, 0)), cat([]byte{0xff, 0xd3}, rep(7, 0xff))}
				p, q := engine.Pick(x, ps), engine.Pick(x, ps)
				parse3(x, cat(b[:fs[i].off], p, b[fs[i].off+fs[i].n:fs[j].off], q, b[fs[j].off+fs[j].n:]))
			}},
			{Name: "token-strings", Bound: "every sequence of up to 6 (thorough 8) tokens out of 11: version, 36-byte outpoint, amount, counts 0,1,2, long prefixes, 1 and 4 trailing bytes", Run: func(x *X) {
				toks := [][]byte{{1, 0, 0, 0}, pat(36, 5), pat(8, 6), {0}, {1}, {2}, {0xfd, 1, 0}, {0xfd}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff}, {0xab}}
				n := 6
				if x.Thorough {
					n = 8
				}
				b := []byte{1, 0, 0, 0}
				if x.Bool() {
					b = nil
				}
				for i := 0; i < n; i++ {
					c := x.Choose(len(toks) + 1)
					if c == len(toks) {
						break
					}
					b = append(b, toks[c]...)
				}
				parse3(x, b)
			}},
			{Name: "short-strings", Bound: "every byte string of length 0..2, and 10 zero-ish bytes with every byte pair at every position pair", Run: func(x *X) {
				if x.Bool() {
					n := x.Choose(3)
					if n == 0 {
						parse3(x, nil)
						parse3(x, []byte{})
						return
					}
					a := x.Choose(256)
					if n == 1 {
						parse3(x, []byte{byte(a)})
						return
					}
					for c := 0; c < 256; c++ {
						parse3(x, []byte{byte(a), byte(c)})
					}
					x.Step(256)
					return
				}
				i, j := x.Choose(11), x.Choose(11)
				if i >= j {
					x.Prune()
				}
				vs := []byte{0, 1, 2, 0xfc, 0xfd, 0xfe, 0xff}
				for _, v := range vs {
					for _, w := range vs {
						for _, n := range []int{9, 10, 11} {
							m := make([]byte, 11)
							m[i], m[j] = v, w
							parse3(x, m[:n:n])
						}
					}
				}
				x.Step(147)
			}},
			{Name: "bad-hex", Bound: "hex text of 3 transactions with every position replaced by each of 9 characters, and odd lengths", Run: func(x *X) {
				t := bases()[1+x.Choose(3)]
				h := []byte(hx(t.Bytes()))
				k := x.Choose(400)
				if k >= len(h) {
					x.Prune()
				}
				for _, c := range []byte{'g', 'G', ' ', 0, 0xff, '-', 'x', '/', ':'} {
					m := cp(h)
					m[k] = c
					expectStringError(x, string(m))
				}
				if k%2 == 1 {
					expectStringError(x, string(h[:k]))
				}
				expectStringError(x, "")
				x.Step(10)
				x.Statef("%d %d", t.Version, k)
			}},
		}})

	register(engine.Property{ID: "C03", Level: "model_checking",
		Rule:        "encoding and decoding are compared with an independent CompactSize codec for every listed value; a state is a distinct value or byte string",
		Assumptions: []string{baseAssumption},
		Scenarios: []engine.Scenario{
			{Name: "values", Bound: "quick: every value below 2^24 and 4096 around each power of two up to 2^64; thorough: every value below 2^32", Run: func(x *X) {
				if x.Bool() {
					k := uint(x.Choose(65))
					var c uint64
					if k < 64 {
						c = 1 << k
					}
					for d := int64(-4096); d < 4096; d++ {
						varint1(x, c+uint64(d))
					}
					x.Step(8192)
					x.Validated(8191)
					x.Statef("pow %d", k)
					return
				}
				blocks := 1 << 8
				if x.Thorough {
					blocks = 1 << 16
				}
				b := uint64(x.Choose(blocks))
				for i := uint64(0); i < 1<<16; i++ {
					varint1(x, b<<16|i)
				}
				x.Step(1 << 16)
				x.Distinct(1 << 16)
				x.Validated(1<<16 - 1)
			}},
			{Name: "wide-values", Bound: "every 64-bit value with at most 3 non-zero bytes out of {01,7f,80,fc,fd,fe,ff}", Run: func(x *X) {
				bs := []uint64{0x01, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff}
				var v uint64
				for i := 0; i < 3; i++ {
					v |= engine.Pick(x, bs) << (8 * uint(x.Choose(8)))
				}
				varint1(x, v)
				x.Statef("%d", v)
			}},
			{Name: "decode", Bound: "every byte string of length 0..3; first bytes fd, fe, ff followed by 0..9 bytes over {00,01,80,ff}, with exact capacity and with spare capacity", Run: func(x *X) {
				var b []byte
				switch x.Choose(3) {
				case 0:
					a := x.Choose(256)
					for c := 0; c < 256; c++ {
						decode1(x, []byte{byte(a), byte(c)})
						for d := 0; d < 256; d++ {
							decode1(x, []byte{byte(a), byte(c), byte(d)})
						}
					}
					decode1(x, []byte{byte(a)})
					x.Step(65536)
					x.Distinct(65536 + 257)
					x.Validated(65536)
					return
				case 1:
					decode1(x, nil)
					decode1(x, []byte{})
					return
				}
				f := []byte{0xfd, 0xfe, 0xff, 0xfc}[x.Choose(4)]
				n := x.Choose(10)
				b = append(b, f)
				for i := 0; i < n; i++ {
					b = append(b, []byte{0, 1, 0x80, 0xff}[x.Choose(4)])
				}
				decode1(x, b)
				x.State(b)
			}},
		}})

	register(engine.Property{ID: "C08", Level: "model_checking",
		Rule:        "after parsing, every single or double edit of one part is applied and every other part (the other scripts, the caller's buffer, previously returned bytes) is compared with the model; a state is a distinct (transaction, edit history)",
		Assumptions: []string{baseAssumption, "script.NewFromBytes documents that it wraps the slice it is given and is not covered"},
		Scenarios: []engine.Scenario{
			{Name: "parsed-edits", Bound: "12 transactions (5 of them with equal, or all empty, scripts) x buffer spare capacity {0,1,64} x all histories of 2 (thorough 3) edits out of 10 kinds on any script", Run: isolation},
			{Name: "large-scripts", Bound: "a transaction whose unlocking scripts or locking scripts (one, or all, or all and equal) have each of 35 lengths up to 2^20+1 (around 252, 255, 520, every power of 2 from 512, 10000, 100000), parsed whole or element by element; every script overwritten or extended, and the buffer overwritten: nothing else changes", Run: largeIsolation},
			{Name: "element-parse", Bound: "input.NewFromBytes / output.NewFromBytes with 0..3 trailing elements: edits of the parsed script never touch the stream, edits of the stream never touch the parsed element", Run: elementIsolation},
			{Name: "returned-bytes", Bound: "bytes returned by ToBytes, GetBytesForSigHash, GetInputSignatureHash and the cleared form are overwritten", Run: returnedBytes},
		}})
}

func varint1(x *X, v uint64) {
	w := ref.VarInt(v)
	x.Outcome(fmt.Sprintf("%d bytes", len(w)))
	g := utils.VarInt(v)
	if !bytes.Equal(g, w) {
		x.Failf("VarInt", "VarInt(%d) = %x, want %x", v, g, w)
	}
	var buf [16]byte
	copy(buf[:], w)
	buf[len(w)], buf[len(w)+1] = 0xfd, 0x55
	d, n := utils.DecodeVarInt(buf[:len(w)])
	if d != v || n != len(w) {
		x.Failf("DecodeVarInt", "DecodeVarInt(%x) = %d, %d want %d, %d", w, d, n, v, len(w))
	}
	d, n = utils.DecodeVarInt(buf[:])
	if d != v || n != len(w) {
		x.Failf("DecodeVarInt trailing", "DecodeVarInt(%x followed by other bytes) = %d, %d want %d, %d", w, d, n, v, len(w))
	}
}

func decode1(x *X, b []byte) {
	v, n, ok := ref.ReadVarInt(b)
	for mode := 0; mode < 2; mode++ {
		in := exact(b)
		if mode == 1 {
			in = append(append(make([]byte, 0, len(b)+16), b...), rep(16, 7)...)[:len(b)]
		}
		var gv uint64
		var gn int
		if p := caught(func() { gv, gn = utils.DecodeVarInt(in) }); p != "" {
			x.Failf("DecodeVarInt panics", "DecodeVarInt(%x) panics: %s", b, p)
		}
		if ok && (gv != v || gn != n) {
			x.Failf("DecodeVarInt", "DecodeVarInt(%x) = %d, %d want %d, %d", b, gv, gn, v, n)
		}
		if !ok && gn != 0 {
			x.Failf("DecodeVarInt truncated", "DecodeVarInt(%x) claims %d bytes although the value is cut off", b, gn)
		}
		if !bytes.Equal(in, b) {
			x.Failf("DecodeVarInt modifies", "DecodeVarInt changed its argument")
		}
	}
}

// ---- C02 --------------------------------------------------------------------

var baseCache []*ref.Tx

func bases() []*ref.Tx {
	return baseCache
}

func init() {
	a := simpleTx(1, 1)
	b := simpleTx(2, 2)
	c := &ref.Tx{Version: 1, Ins: []ref.In{{TxID: rep(32, 0), Vout: 0xffffffff, Script: pat(7, 3), Seq: 0xffffffff}}, Outs: []ref.Out{{Sats: 50, Script: ref.P2PKH(pat(20, 2))}}}
	d := simpleTx(1, 1)
	d.Ins[0].Script = pat(253, 8)
	e := simpleTx(1, 2)
	e.Ins[0].Script = nil
	e.Outs[0].Script = nil
	f := simpleTx(0, 1)
	f.Outs[0].Script = rep(9, 0xfd)
	h := &ref.Tx{Version: 0xffffffff, Locktime: 0xffffffff, Ins: []ref.In{{TxID: rep(32, 0xff), Vout: 0xffffffff, Script: rep(4, 0xff), Seq: 0xffffffff}}, Outs: []ref.Out{{Sats: 1<<64 - 1, Script: rep(3, 0xff)}}}
	k := simpleTx(0, 0)
	k.Version = 1
	k.Locktime = 0
	z := &ref.Tx{Ins: []ref.In{{TxID: rep(32, 0)}, {TxID: rep(32, 0)}}, Outs: []ref.Out{{}, {}}}
	baseCache = []*ref.Tx{k, a, e, f, b, c, h, z, simpleTx(1, 0), d}
}

type field struct{ off, n int }

// fields lists the offsets of all length and count prefixes.
func fields(t *ref.Tx) []field {
	off := 4
	v := func(n int) int { return len(ref.VarInt(uint64(n))) }
	fs := []field{{off, v(len(t.Ins))}}
	off += v(len(t.Ins))
	for i := range t.Ins {
		fs = append(fs, field{off + 36, v(len(t.Ins[i].Script))})
		off += len(t.Ins[i].Bytes())
	}
	fs = append(fs, field{off, v(len(t.Outs))})
	off += v(len(t.Outs))
	for i := range t.Outs {
		fs = append(fs, field{off + 8, v(len(t.Outs[i].Script))})
		off += len(t.Outs[i].Bytes())
	}
	return fs
}

// prefixes lists every CompactSize encoding of v, non-minimal ones included.
func prefixes(v uint64) [][]byte {
	var r [][]byte
	if v <= 252 {
		r = append(r, []byte{byte(v)})
	}
	if v < 1<<16 {
		r = append(r, cat([]byte{0xfd}, ref.LE(v, 2)))
	}
	if v < 1<<32 {
		r = append(r, cat([]byte{0xfe}, ref.LE(v, 4)))
	}
	return append(r, cat([]byte{0xff}, ref.LE(v, 8)))
}

func parse3(x *X, b []byte) {
	checkParseTx(x, exact(b), "")
	g := mkGuard(b, 48)
	checkParseTx(x, g.b(), "junk beyond the length")
	if len(b) > 4 {
		checkParseIn(x, exact(b[4:]))
		checkParseOut(x, exact(b[4:]))
		checkParseIn(x, g.b()[min(5, len(b)):])
		checkParseOut(x, g.b()[min(5, len(b)):])
	}
	checkParseIn(x, exact(b))
	checkParseOut(x, exact(b))
	g.check(x, "parsers")
	x.State(b)
}

func checkParseTx(x *X, b []byte, how string) {
	r, minimal, ok := ref.ParseTx(b)
	var t *transaction.Transaction
	var err error
	if p := caught(func() { t, err = transaction.NewFromBytes(b) }); p != "" {
		x.Failf("transaction.NewFromBytes panics", "transaction.NewFromBytes(%s) (capacity %d %s) panics: %s", short(b), cap(b), how, p)
	}
	switch {
	case !ok && err == nil:
		x.Failf("transaction.NewFromBytes accepts", "transaction.NewFromBytes accepts %s (capacity %d %s), which is not exactly one transaction", short(b), cap(b), how)
	case ok && minimal && err != nil:
		x.Failf("transaction.NewFromBytes rejects", "transaction.NewFromBytes rejects %s: %v", short(b), err)
	case ok && err == nil:
		if d := diffTx(t, r, false); d != "" {
			x.Failf("transaction.NewFromBytes values", "transaction.NewFromBytes(%s): %s", short(b), d)
		}
		if minimal && !bytes.Equal(t.ToBytes(), b) {
			x.Failf("transaction.NewFromBytes reserialise", "parse and ToBytes of %s gives %s", short(b), short(t.ToBytes()))
		}
	}
	x.Outcome(fmt.Sprintf("tx valid=%v minimal=%v accepted=%v", ok, ok && minimal, err == nil))
}

func checkParseIn(x *X, b []byte) {
	r, n, minimal, ok := ref.ParseIn(b)
	var in *input.Input
	var gn int
	var err error
	if p := caught(func() { in, gn, err = input.NewFromBytes(b) }); p != "" {
		x.Failf("input.NewFromBytes panics", "input.NewFromBytes(%s) (capacity %d) panics: %s", short(b), cap(b), p)
	}
	switch {
	case !ok && err == nil:
		x.Failf("input.NewFromBytes accepts", "input.NewFromBytes accepts the incomplete input %s (capacity %d)", short(b), cap(b))
	case ok && minimal && err != nil:
		x.Failf("input.NewFromBytes rejects", "input.NewFromBytes rejects %s: %v", short(b), err)
	case ok && err == nil:
		if d := diffIn(in, &r, false); d != "" || gn != n {
			x.Failf("input.NewFromBytes values", "input.NewFromBytes(%s): size %d want %d %s", short(b), gn, n, d)
		}
	}
}

func checkParseOut(x *X, b []byte) {
	r, n, minimal, ok := ref.ParseOut(b)
	var o *output.Output
	var gn int
	var err error
	if p := caught(func() { o, gn, err = output.NewFromBytes(b) }); p != "" {
		x.Failf("output.NewFromBytes panics", "output.NewFromBytes(%s) (capacity %d) panics: %s", short(b), cap(b), p)
	}
	switch {
	case !ok && err == nil:
		x.Failf("output.NewFromBytes accepts", "output.NewFromBytes accepts the incomplete output %s (capacity %d)", short(b), cap(b))
	case ok && minimal && err != nil:
		x.Failf("output.NewFromBytes rejects", "output.NewFromBytes rejects %s: %v", short(b), err)
	case ok && err == nil:
		if d := diffOut(o, &r); d != "" || gn != n {
			x.Failf("output.NewFromBytes values", "output.NewFromBytes(%s): size %d want %d %s", short(b), gn, n, d)
		}
	}
}

func expectStringError(x *X, s string) {
	if _, e := hex.DecodeString(s); e == nil && s != "" {
		return
	}
	var err error
	if p := caught(func() { _, err = transaction.NewFromString(s) }); p != "" {
		x.Failf("NewFromString panics", "NewFromString(%q) panics: %s", s, p)
	}
	if err == nil {
		x.Failf("NewFromString accepts", "NewFromString accepts %q", s)
	}
}

// ---- C08 --------------------------------------------------------------------

func isoBases() []*ref.Tx {
	a, b := simpleTx(2, 2), simpleTx(1, 1)
	c := simpleTx(3, 1)
	d := simpleTx(1, 3)
	d.Outs[1].Script = nil
	e := simpleTx(2, 2)
	e.Ins[0].Script = pat(253, 4)
	e.Outs[0].Script = pat(300, 5)
	f := simpleTx(2, 2)
	f.Ins[0].Script, f.Ins[1].Script = nil, nil
	g := &ref.Tx{Version: 1, Ins: []ref.In{{TxID: pat(32, 3), Script: pat(30, 4), Seq: 1}}, Outs: []ref.Out{{Sats: 1, Script: ref.P2PKH(pat(20, 8))}, {Sats: 2, Script: ref.P2PKH(pat(20, 9))}}}
	// parts with equal scripts
	h, i, j, k := simpleTx(2, 2), simpleTx(2, 2), simpleTx(1, 3), simpleTx(2, 3)
	h.Ins[1].Script, h.Outs[1].Script = cp(h.Ins[0].Script), cp(h.Outs[0].Script)
	for n := range i.Ins {
		i.Ins[n].Script, i.Outs[n].Script = ref.P2PKH(pat(20, 8)), ref.P2PKH(pat(20, 8))
	}
	for n := range j.Outs {
		j.Outs[n] = ref.Out{Sats: 7, Script: ref.P2PKH(pat(20, 9))}
	}
	k.Ins[0].Script, k.Ins[1].Script = nil, nil
	k.Outs[0].Script, k.Outs[1].Script, k.Outs[2].Script = pat(300, 5), []byte{0x6a}, pat(300, 5)
	l := simpleTx(2, 3)
	l.Ins[0].Script, l.Ins[1].Script = nil, nil
	l.Outs[0].Script, l.Outs[1].Script, l.Outs[2].Script = nil, nil, nil
	return []*ref.Tx{b, a, c, d, e, f, g, h, i, j, k, l}
}

func isolation(x *X) {
	t := isoBases()[x.Choose(12)].Clone()
	spare := []int{0, 1, 64}[x.Choose(3)]
	buf := mkGuard(t.Bytes(), spare)
	var tx, tx2 *transaction.Transaction
	var err error
	try(x, "NewFromBytes", func() {
		tx, err = transaction.NewFromBytes(buf.b())
		if err == nil {
			tx2, err = transaction.NewFromBytes(buf.b())
		}
	})
	if err != nil {
		x.Failf("rejects", "valid transaction rejected: %v", err)
	}
	orig := t.Clone()
	hist := ""
	depth := 2
	if x.Thorough {
		depth = 3
	}
	for s := 0; s < depth; s++ {
		// which script: up to 5 (arity fixed)
		k := x.Choose(5)
		if k >= len(t.Ins)+len(t.Outs) {
			x.Prune()
		}
		var sp *script.Script
		var m *[]byte
		if k < len(t.Ins) {
			sp, m = tx.Inputs[k].UnlockingScript, &t.Ins[k].Script
		} else {
			sp, m = tx.Outputs[k-len(t.Ins)].LockingScript, &t.Outs[k-len(t.Ins)].Script
		}
		if sp == nil {
			x.Failf("nil script", "parsed script %d is nil", k)
		}
		op := x.Choose(10)
		hist += fmt.Sprintf("%d/%d ", k, op)
		returned := tx.ToBytes()
		returnedCopy := cp(returned)
		try(x, "editing a parsed script", func() {
			switch op {
			case 0:
				sp.AppendOpCode(0x99)
				*m = append(*m, 0x99)
			case 1:
				d := pat(6, 50+s)
				if sp.AppendPushData(d) != nil {
					x.Failf("AppendPushData", "fails")
				}
				*m = append(*m, ref.Push(d)...)
			case 2:
				d := [][]byte{pat(80, 51+s), pat(2, 52+s)}
				if sp.AppendPushDataArray(d) != nil {
					x.Failf("AppendPushDataArray", "fails")
				}
				*m = append(*m, cat(ref.Push(d[0]), ref.Push(d[1]))...)
			case 3:
				if sp.AppendPushDataHexString("c0ffee") != nil {
					x.Failf("AppendPushDataHexString", "fails")
				}
				*m = append(*m, 3, 0xc0, 0xff, 0xee)
			case 4:
				if sp.AppendPushDataStrings([]string{"ab", "cd"}) != nil {
					x.Failf("AppendPushDataStrings", "fails")
				}
				*m = append(*m, 2, 'a', 'b', 2, 'c', 'd')
			case 5: // overwrite in place
				for i := range *sp {
					(*sp)[i] ^= 0x5a
				}
				for i := range *m {
					(*m)[i] ^= 0x5a
				}
			case 6: // append directly
				*sp = append(*sp, 1, 2, 3)
				*m = append(*m, 1, 2, 3)
			case 7: // use all the spare capacity the slice offers
				*sp = append((*sp)[:len(*sp)], bytes.Repeat([]byte{0xEE}, cap(*sp)-len(*sp))...)
				*m = append(*m, bytes.Repeat([]byte{0xEE}, len(*sp)-len(*m))...)
			case 8: // the caller reuses the buffer
				for i := range buf.full {
					buf.full[i] = byte(0x30 + s)
					buf.orig[i] = buf.full[i]
				}
			case 9: // shorten, then grow again
				if len(*sp) > 1 {
					*sp = (*sp)[:1]
					*m = (*m)[:1:1]
				}
				sp.AppendOpCode(0x77)
				*m = append(*m, 0x77)
			}
		})
		if d := diffTx(tx, t, false); d != "" {
			x.Failf("edit leaks within the transaction", "edits [%s] (script/op) of a parsed transaction, spare %d: %s", hist, spare, d)
		}
		if !bytes.Equal(tx.ToBytes(), t.Bytes()) {
			x.Failf("edit: serialisation", "edits [%s]: ToBytes differs from the model", hist)
		}
		if tx.GetTxID() != t.ID() {
			x.Failf("edit: txid", "edits [%s]: GetTxID differs from the model", hist)
		}
		if d := diffTx(tx2, orig, false); d != "" {
			x.Failf("edit leaks into another transaction", "edits [%s] of one transaction changed another parsed from the same bytes: %s", hist, d)
		}
		if !bytes.Equal(returned, returnedCopy) {
			x.Failf("edit changes returned bytes", "edits [%s] changed bytes returned by an earlier ToBytes", hist)
		}
		buf.check(x, "caller's buffer after edits")
	}
	x.State(append(stateTx(t), hist...))
	x.Outcome(hist)
}

func largeIsolation(x *X) {
	n := engine.Pick(x, lensAround(-1, 1, 252, 255, 300, 520, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000, 500000, 1<<20))
	which := x.Choose(8)
	t := simpleTx(2, 2)
	for k := 0; k < 4; k++ {
		if which == 7 { // all equal
			t.Ins[k%2].Script, t.Outs[k%2].Script = pat(n, 9), pat(n, 9)
		} else if which == k || which == 4 || which == 5 && k < 2 || which == 6 && k >= 2 {
			if k < 2 {
				t.Ins[k].Script = pat(n, k)
			} else {
				t.Outs[k-2].Script = pat(n, k)
			}
		}
	}
	whole := x.Bool()
	edit := x.Choose(7)
	buf := mkGuard(t.Bytes(), 32)
	var tx *transaction.Transaction
	try(x, "parsing and editing large scripts", func() {
		var err error
		if whole {
			if tx, err = transaction.NewFromBytes(buf.b()); err != nil {
				x.Failf("rejects", "valid transaction rejected: %v", err)
			}
		} else {
			tx = transaction.New()
			tx.Version, tx.Locktime = t.Version, t.Locktime
			rest := buf.b()[5:]
			for k := 0; k < 2; k++ {
				in, used, err := input.NewFromBytes(rest)
				if err != nil {
					x.Failf("rejects", "valid input rejected: %v", err)
				}
				tx.AddInput(in)
				rest = rest[used:]
			}
			rest = rest[1:]
			for k := 0; k < 2; k++ {
				o, used, err := output.NewFromBytes(rest)
				if err != nil {
					x.Failf("rejects", "valid output rejected: %v", err)
				}
				tx.AddOutput(o)
				rest = rest[used:]
			}
		}
		scripts := []*script.Script{tx.Inputs[0].UnlockingScript, tx.Inputs[1].UnlockingScript, tx.Outputs[0].LockingScript, tx.Outputs[1].LockingScript}
		model := []*[]byte{&t.Ins[0].Script, &t.Ins[1].Script, &t.Outs[0].Script, &t.Outs[1].Script}
		switch {
		case edit < 4: // overwrite one script, then grow it over whatever follows in memory
			sp := scripts[edit]
			if sp == nil {
				x.Failf("nil script", "parsed script %d is nil", edit)
			}
			for i := range *sp {
				(*sp)[i] ^= 0x5a
				(*model[edit])[i] ^= 0x5a
			}
			sp.AppendOpCode(0x99)
			_ = sp.AppendPushData(pat(40, 1))
			*model[edit] = cat(*model[edit], []byte{0x99}, ref.Push(pat(40, 1)))
		case edit == 4: // the caller's buffer is reused
			for i := range buf.full {
				buf.full[i], buf.orig[i] = 0x11, 0x11
			}
		case edit == 5: // the buffer is reused, then all scripts are read through another serialisation
			_ = tx.ToBytes()
			for i := range buf.full {
				buf.full[i], buf.orig[i] = 0, 0
			}
		case edit == 6: // bytes returned are overwritten
			r := tx.ToBytes()
			for i := range r {
				r[i] = 0xEE
			}
			for k := 0; k < 2; k++ {
				for _, r := range [][]byte{tx.Inputs[k].ToBytes(false), tx.Outputs[k].ToBytes(), tx.Outputs[k].GetBytesForSigHash()} {
					for i := range r {
						r[i] = 0xEE
					}
				}
			}
		}
		if d := diffTx(tx, t, false); d != "" {
			x.Failf("large script: edit leaks", "script length %d at %d, edit %d (whole %v): %s", n, which, edit, whole, d)
		}
		if !bytes.Equal(tx.ToBytes(), t.Bytes()) || tx.GetTxID() != t.ID() {
			x.Failf("large script: serialisation", "script length %d at %d, edit %d (whole %v)", n, which, edit, whole)
		}
		buf.check(x, "caller's buffer after edits of large scripts")
	})
	x.Statef("%d %d %d %v", n, which, edit, whole)
	x.Outcome(fmt.Sprintf("edit %d", edit))
}

func elementIsolation(x *X) {
	isIn := x.Bool()
	n := []int{0, 1, 5, 253}[x.Choose(4)]
	tail := x.Choose(4)
	var b, tl []byte
	in := ref.In{TxID: pat(32, 1), Vout: 3, Script: pat(n, 2), Seq: 7}
	out := ref.Out{Sats: 77, Script: pat(n, 3)}
	if isIn {
		b = in.Bytes()
	} else {
		b = out.Bytes()
	}
	tl = pat(tail*10, 9)
	g := mkGuard(cat(b, tl), 32)
	edit := x.Choose(4)
	try(x, "element parse and edit", func() {
		var sp *script.Script
		var i *input.Input
		var o *output.Output
		var err error
		if isIn {
			i, _, err = input.NewFromBytes(g.b())
			if err == nil {
				sp = i.UnlockingScript
			}
		} else {
			o, _, err = output.NewFromBytes(g.b())
			if err == nil {
				sp = o.LockingScript
			}
		}
		if err != nil {
			x.Failf("rejects", "valid element rejected: %v", err)
		}
		want := pat(n, 2)
		if !isIn {
			want = pat(n, 3)
		}
		switch edit {
		case 0:
			sp.AppendOpCode(0x51)
			want = append(want, 0x51)
		case 1:
			_ = sp.AppendPushData(pat(40, 1))
			want = append(want, ref.Push(pat(40, 1))...)
		case 2:
			for k := range *sp {
				(*sp)[k]++
				want[k]++
			}
		case 3:
			for k := range g.full {
				g.full[k], g.orig[k] = 0x11, 0x11
			}
		}
		if !bytes.Equal(*sp, want) {
			x.Failf("element script", "script is %s, want %s", short(*sp), short(want))
		}
		g.check(x, "element stream")
	})
	x.Statef("%v %d %d %d", isIn, n, tail, edit)
}

func returnedBytes(x *X) {
	t := simpleTx(1+x.Choose(3), 1+x.Choose(3))
	tx := libTx(t)
	which := x.Choose(6)
	var r []byte
	arg := mkGuard(ref.P2PKH(pat(20, 3)), 16)
	try(x, "serialise", func() {
		switch which {
		case 0:
			r = tx.ToBytes()
		case 1:
			r = tx.ToBytesWithClearedInputs(0, arg.b())
		case 2:
			r = tx.Inputs[0].ToBytes(false)
		case 3:
			r = tx.Outputs[0].ToBytes()
		case 4:
			r = tx.Outputs[0].GetBytesForSigHash()
		case 5:
			r, _ = tx.GetInputSignatureHash(0, 0x41)
		}
		full := r[:cap(r)]
		for i := range full {
			full[i] = 0xEE
		}
		if d := diffTx(tx, t, true); d != "" {
			x.Failf("returned bytes alias", "overwriting the bytes returned by call %d changed the transaction: %s", which, d)
		}
		if !bytes.Equal(tx.ToBytes(), t.Bytes()) || tx.GetTxID() != t.ID() {
			x.Failf("returned bytes alias", "overwriting the bytes returned by call %d changed the serialisation", which)
		}
		arg.check(x, "returned bytes")
	})
	x.Statef("%d %d %d", len(t.Ins), len(t.Outs), which)
}
