package checks

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"strings"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/utils"

	"verif/mc/engine"
	"verif/mc/ref"
)

// marks lists the sizes lo..hi at which code which treats sizes differently
// usually changes over: around powers of two and ten, halfway between, and the
// customary limits of the field, win on either side.
func marks(lo, hi, win int) []int {
	var m []int
	for k := uint(0); k < 40; k++ {
		m = append(m, 1<<k, 3<<k)
	}
	for p := 1; p < 1<<40; p *= 10 {
		m = append(m, p, 2*p, 5*p)
	}
	m = append(m, 75, 76, 80, 83, 100, 107, 108, 110, 120, 150, 201, 220, 223, 252, 253, 255, 520, 1650, 3600, 9999, 99999, 65535, 250000)
	seen := map[int]bool{}
	var r []int
	for _, v := range m {
		for d := -win; d <= win; d++ {
			if n := v + d; n >= lo && n <= hi && !seen[n] {
				seen[n] = true
				r = append(r, n)
			}
		}
	}
	return r
}

const marksText = "+-1 around 1, 2 and 5 times every power of ten, 1 and 3 times every power of two, and customary limits (75, 80, 220, 252, 520, 1650, 3600, ...)"

// tier chooses between the bounds of the two tiers.
func tier(x *X, quick, thorough int) int {
	if x.Thorough {
		return thorough
	}
	return quick
}

// far adds to the marks between lo and the bound of the tier what lies beyond
// the quick bound where counts no longer fit 16 bits or lengths 24 bits.
func far(x *X, lo, quick, thorough, win int) []int {
	m := marks(lo, tier(x, quick, thorough), win)
	edge := 1 << 16
	if quick > edge {
		edge = 1 << 24
	}
	for d := -1; d <= 1; d++ {
		if n := edge + d; n > tier(x, quick, thorough) {
			m = append(m, n)
		}
	}
	return m
}

// cheapTx builds a transaction with many small inputs and outputs fast.
func cheapTx(ni, no int) *ref.Tx {
	t := &ref.Tx{Version: 1, Locktime: 5}
	for i := 0; i < ni; i++ {
		t.Ins = append(t.Ins, ref.In{TxID: append(pat(28, 3), byte(i), byte(i>>8), byte(i>>16), 1), Vout: uint32(i), Seq: 0xffffffff, Sats: uint64(i), Prev: ref.P2PKH(keys[1].hash), Script: []byte{byte(i)}})
	}
	for i := 0; i < no; i++ {
		t.Outs = append(t.Outs, ref.Out{Sats: uint64(i), Script: []byte{byte(i), byte(i >> 8)}})
	}
	return t
}

// large lists the scenarios over sizes.
func large(id string) []engine.Scenario {
	sc := func(bound string, f func(x *X)) []engine.Scenario {
		return []engine.Scenario{{Name: "magnitudes", Bound: strings.Replace(bound, "MARKS", marksText, 1), Run: func(x *X) {
			f(x)
			x.Validated(1)
		}}}
	}
	// place puts a script of n bytes at one of 4 places of a transaction.
	place := func(t *ref.Tx, n, w int) {
		switch w {
		case 0:
			t.Ins[0].Script = pat(n, 1)
		case 1:
			t.Ins[1].Script = pat(n, 2)
		case 2:
			t.Outs[0].Script = pat(n, 3)
		default:
			t.Outs[1].Script = pat(n, 4)
		}
	}
	switch id {
	case "C01":
		return sc("script lengths to 2^20 (thorough 2^22) at 4 places, numbers of inputs or outputs to 20000 (thorough 200000), and of both at once to 2000: MARKS", func(x *X) {
			switch x.Choose(3) {
			case 0:
				t := simpleTx(2, 2)
				place(t, engine.Pick(x, far(x, 0, 1<<20+1, 1<<22+1, 1)), x.Choose(4))
				checkWire(x, t)
			case 1:
				n := engine.Pick(x, far(x, 300, 20001, 200001, 1))
				if x.Bool() {
					checkWire(x, cheapTx(n, 2))
				} else {
					checkWire(x, cheapTx(1, n))
				}
			default:
				n := engine.Pick(x, marks(1, 2001, 1))
				checkWire(x, cheapTx(n, n+x.Choose(3)-1))
			}
		})
	case "C02":
		return sc("a transaction with a script of each length to 2^20, or each number of inputs or outputs to 20000, cut 1, 2, 3, 4, 5, 9, 40, 41 bytes before the end, in the middle of what is large, just before and after it, and with 1..9 bytes added: MARKS", func(x *X) {
			var t *ref.Tx
			switch x.Choose(3) {
			case 0:
				t = simpleTx(2, 2)
				place(t, engine.Pick(x, far(x, 253, 1<<20+1, 1<<22+1, 1)), x.Choose(4))
			case 1:
				t = cheapTx(engine.Pick(x, far(x, 253, 20001, 100001, 1)), 1)
			default:
				t = cheapTx(1, engine.Pick(x, far(x, 253, 20001, 100001, 1)))
			}
			b := t.Bytes()
			for _, c := range []int{0, 1, 2, 3, 4, 5, 9, 40, 41, len(b) / 2, len(b) / 3, len(b) - 60, len(b) - 100} {
				if c <= len(b) {
					checkParseTx(x, b[:len(b)-c:len(b)-c], "exact")
					if c > 0 {
						checkParseTx(x, b[:len(b)-c:len(b)], "rest of the transaction beyond the length")
					}
				}
			}
			for _, c := range []int{1, 4, 9} {
				checkParseTx(x, cat(b, rep(c, 0)), "more")
			}
			off := 4 + len(ref.VarInt(uint64(len(t.Ins))))
			in := t.Ins[0].Bytes()
			for _, c := range []int{0, 1, 2, 4, 5, len(in) / 2} {
				checkParseIn(x, b[off:off+len(in)-c:off+len(in)-c])
			}
			o := t.Outs[len(t.Outs)-1].Bytes()
			off = len(b) - 4 - len(o)
			for _, c := range []int{0, 1, 2, len(o) / 2} {
				checkParseOut(x, b[off:off+len(o)-c:off+len(o)-c])
			}
			x.Step(25)
			x.Statef("%x", ref.Sha256(b))
		})
	case "C04":
		return sc("previous script of the signed or of another input, or an output script, of each length to 2^20; numbers of inputs or outputs to 10000 (thorough 100000) x first, middle, last index x 7 flags: MARKS", func(x *X) {
			f := []uint8{0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 0x5f}[x.Choose(7)]
			if x.Bool() {
				n := engine.Pick(x, far(x, 0, 1<<20+1, 1<<22+1, 1))
				t := simpleTx(2, 2)
				switch w := x.Choose(4); w {
				case 0, 1:
					t.Ins[w].Prev = pat(n, 5)
				default:
					t.Outs[w-2].Script = pat(n, 6)
				}
				digest(x, libTx(t), t, 1, f, fmt.Sprintf("script of %d bytes", n))
				return
			}
			n := engine.Pick(x, far(x, 130, 10001, 100001, 1))
			t := cheapTx(n, 3)
			if x.Bool() {
				t = cheapTx(n, n-1)
			}
			digest(x, libTx(t), t, []int{0, 1, n / 2, n - 2, n - 1}[x.Choose(5)], f, fmt.Sprintf("%d inputs", n))
		})
	case "C05":
		return sc("numbers of inputs or outputs to 10000, previous script lengths to 2^20 x first and last index x 3 flags: MARKS", func(x *X) {
			f := []uint8{0x41, 0xc3, 0x42}[x.Choose(3)]
			if x.Bool() {
				t := simpleTx(2, 2)
				t.Ins[1].Prev = pat(engine.Pick(x, far(x, 0, 1<<20+1, 1<<22+1, 1)), 5)
				signCheck(x, libTx(t), t, 1, 0, f, x.Bool())
				return
			}
			n := engine.Pick(x, far(x, 130, 10001, 50001, 1))
			t := cheapTx(n, 2)
			if x.Bool() {
				t = cheapTx(2, n)
			}
			signCheck(x, libTx(t), t, []int{0, len(t.Ins) - 1}[x.Choose(2)], 1, f, x.Bool())
		})
	case "C06":
		return sc("numbers of inputs to 20000 (thorough 70000) of which the first, second, middle, last but one or last, or first and last, are the signer's; numbers of outputs likewise with 2 inputs: MARKS", func(x *X) {
			n := engine.Pick(x, far(x, 2, 20001, 70001, 1))
			t := cheapTx(n, 2)
			w := x.Choose(7)
			if w == 6 {
				t = cheapTx(2, n)
				t.Ins[0].Prev, t.Ins[1].Prev = ref.P2PKH(keys[0].hash), ref.P2PKH(keys[0].hash)
			} else {
				for _, i := range [][]int{{0}, {1}, {n / 2}, {n - 2}, {n - 1}, {0, n - 1}}[w] {
					t.Ins[i].Prev = ref.P2PKH(keys[0].hash)
				}
			}
			autoTx(x, t, []int{0}, []uint8{[]uint8{0x41, 0xc3, 0}[n%3]})
		})
	case "C07":
		return sc("every call out of 14 repeated n times, n to 20000 (thorough 100000), observed at the end; then once more: MARKS", func(x *X) {
			k := x.Choose(len(builderOps))
			n := engine.Pick(x, far(x, 41, 20001, 100001, 0))
			tx, t := builderStart(x, x.Choose(2))
			try(x, "builder call", func() {
				for i := 0; i < n; i++ {
					builderOp(x, k, i%700, tx, t)
				}
			})
			watch(x, tx, t, fmt.Sprintf("%d x %s", n, builderOps[k]))
			builderOp(x, (k+6)%len(builderOps), 3, tx, t)
			builderOp(x, 6, 4, tx, t)
			watch(x, tx, t, fmt.Sprintf("%d x %s, then %s and an output", n, builderOps[k], builderOps[(k+6)%len(builderOps)]))
			x.Step(n)
		})
	case "C09":
		return sc("one part of each length to 2^21 (thorough 2^24), 3 contents; n equal parts, n to 20000, of 1, 75, 76, 256 bytes, encoded at once and one by one: MARKS", func(x *X) {
			if x.Bool() {
				n := engine.Pick(x, far(x, 0, 1<<21+1, 1<<24+1, 1))
				checkPush(x, fill(n, x.Choose(3)), true)
				x.Statef("%d", n)
				return
			}
			n := engine.Pick(x, far(x, 130, 20001, 100001, 1))
			p := pat([]int{1, 75, 76, 256}[x.Choose(4)], 3)
			ps := make([][]byte, n)
			var ss []string
			for i := range ps {
				ps[i] = p
				ss = append(ss, string(p))
			}
			want := bytes.Repeat(ref.Push(p), n)
			try(x, "encoding many parts", func() {
				e, err := script.EncodeParts(ps)
				if err != nil || !bytes.Equal(e, want) {
					x.Failf("EncodeParts", "%d parts of %d bytes: %s, %v", n, len(p), short(e), err)
				}
				a, b, c := &script.Script{}, &script.Script{}, &script.Script{}
				err, err2 := a.AppendPushDataArray(ps), b.AppendPushDataStrings(ss)
				for i := range ps {
					if e := c.AppendPushData(ps[i]); e != nil {
						err = e
					}
				}
				if err != nil || err2 != nil || !bytes.Equal(*a, want) || !bytes.Equal(*b, want) || !bytes.Equal(*c, want) {
					x.Failf("appending many parts", "%d parts of %d bytes: %v %v", n, len(p), err, err2)
				}
			})
			x.Statef("%d parts of %d", n, len(p))
		})
	case "C10":
		return sc("n instructions, n to 20000 (thorough 200000), of 5 kinds, whole, cut by 1 byte, and with a cut push at the end; a push of each length to 2^20 whole and cut by 1, in the middle and to its prefix: MARKS", func(x *X) {
			var b []byte
			if x.Bool() {
				n := engine.Pick(x, far(x, 1, 20001, 200001, 1))
				b = bytes.Repeat([][]byte{{0x51}, {1, 7}, {0}, {0x4c, 2, 1, 2}, ref.Push(pat(76, 1))}[x.Choose(5)], n)
				decode10(x, b)
				decode10(x, b[:len(b)-1])
				decode10(x, cat(b, []byte{2, 1}))
				decode10(x, cat(b, []byte{0x4d, 255}))
				decode10(x, cat(b, []byte{0x6a}))
			} else {
				n := engine.Pick(x, far(x, 256, 1<<20+1, 1<<22+1, 1))
				b = cat([]byte{0x51}, ref.Push(pat(n, 1)), []byte{0xac})
				decode10(x, b)
				decode10(x, b[:len(b)-1])
				decode10(x, b[:len(b)-2])
				decode10(x, b[:len(b)/2])
				decode10(x, b[:1+len(ref.Push(pat(n, 1)))-n])
				decStr(x, hx(b))
			}
			x.Step(5)
			x.Statef("%x", ref.Sha256(b))
		})
	case "C11":
		return sc("n words, n to 2000 (thorough 10000), of 3 kinds; a word of each length to 2^16 bytes (thorough 2^20): MARKS", func(x *X) {
			if x.Bool() {
				n := engine.Pick(x, marks(1, tier(x, 2001, 10001), 1))
				k := x.Choose(3)
				w := [][]byte{{0x76}, {2, 0xab, 0xcd}, ref.Push(pat(80, 1))}[k]
				t := []string{"OP_DUP", "abcd", hx(pat(80, 1))}[k]
				asmBoth(x, bytes.Repeat(w, n), strings.TrimSuffix(strings.Repeat(t+" ", n), " "))
				x.Statef("%d words %d", n, k)
			} else {
				n := engine.Pick(x, marks(2, tier(x, 1<<16+1, 1<<20+1), 1))
				asmBoth(x, cat([]byte{0x6a}, ref.Push(pat(n, 2)), []byte{0xac}), "OP_RETURN "+hx(pat(n, 2))+" OP_CHECKSIG")
				x.Statef("word of %d", n)
			}
		})
	case "C12":
		return sc("each of 16 templates, a data script with a push or raw bytes, or a bare push, preceded or followed by filler of each length to 20001 (thorough 2^18) of 4 kinds; multisig shapes with n keys of each kind, n to 10000: MARKS", func(x *X) {
			n := engine.Pick(x, far(x, 1, 20001, 1<<18+1, 1))
			if x.Choose(4) == 0 {
				n = min(n, 10001)
				k := [][]byte{ref.Push(keys[0].pub), ref.Push(keys[0].unc), {1, 7}}[x.Choose(3)]
				classify2(x, cat([]byte{0x51}, bytes.Repeat(k, n), []byte{byte(0x50 + 1 + n%16), 0xae}))
				classify2(x, cat([]byte{0x51}, bytes.Repeat(k, n), []byte{0x51, 0xae}))
				return
			}
			fillers := [][]byte{rep(n, 0x61), pat(n, 1), ref.Push(pat(n, 2)), rep(n, 0)}
			f := fillers[x.Choose(4)]
			t := engine.Pick(x, append(templates(), []byte{1, 9}, []byte{0x4d, 2, 0, 1, 1}, []byte{}))
			classify2(x, cat(t, f))
			classify2(x, cat(f, t))
			x.Step(1)
		})
	case "C13":
		return sc("OP_RETURN outputs with one part of each length to 2^20, or n parts, n to 20000; hash puzzles with secrets of each length to 2^18: MARKS", func(x *X) {
			try(x, "building large scripts", func() {
				switch x.Choose(3) {
				case 0:
					d := pat(engine.Pick(x, far(x, 0, 1<<20+1, 1<<22+1, 1)), 1)
					o, err := output.NewOpReturn(d)
					builtOut(x, "NewOpReturn", o, err, cat([]byte{0, 0x6a}, ref.Push(d)), 0)
					o, err = output.NewOpReturnParts([][]byte{d, {1}})
					builtOut(x, "NewOpReturnParts", o, err, cat([]byte{0, 0x6a}, ref.Push(d), []byte{1, 1}), 0)
					x.Statef("op return %d", len(d))
				case 1:
					n := engine.Pick(x, far(x, 1, 20001, 100001, 1))
					ps := make([][]byte, n)
					want := []byte{0, 0x6a}
					for i := range ps {
						ps[i] = pat(1+i%5, i)
						want = append(want, ref.Push(ps[i])...)
					}
					o, err := output.NewOpReturnParts(ps)
					builtOut(x, "NewOpReturnParts", o, err, want, 0)
					x.Statef("op return parts %d", n)
				default:
					n := engine.Pick(x, far(x, 0, 1<<18+1, 1<<22+1, 1))
					h := pat(20, n)
					sec := fill(n, n%nFills)
					o, err := output.NewHashPuzzle(string(sec), hx(h), 5)
					builtOut(x, "NewHashPuzzle", o, err, cat([]byte{0xa9, 20}, ref.Hash160(sec), []byte{0x88}, ref.P2PKH(h)), 5)
					x.Statef("puzzle %d", n)
				}
			})
		})
	case "C16":
		return sc("data of each length to 2^16 (thorough 2^20) x 3 contents, and the text cut by 1 character, with a character more, or with one changed in the middle: MARKS", func(x *X) {
			n := engine.Pick(x, marks(0, tier(x, 1<<16+1, 1<<20+1), 1))
			d := fill(n, x.Choose(3))
			bipRound(x, "bitcoin-script", 1+n%200, 1+n%3, d)
			s := ref.BIP276("bitcoin-script", 1, 1, d)
			bipText(x, s[:len(s)-1])
			bipText(x, s[:len(s)-2])
			bipText(x, s+"0")
			bipText(x, s+"00")
			m := []byte(s)
			m[len(m)/2] ^= 1
			bipText(x, string(m))
			x.Step(5)
		})
	case "C19":
		return sc("templates of n transactions, n to 140000 (thorough 300000), distinct or with the last two equal: MARKS; branch lists of 0..64 (thorough 300) hashes", func(x *X) {
			if x.Bool() {
				n := x.Choose(tier(x, 65, 301))
				h := pat(32, 7)
				path := leafSet(n, 5)
				br := make([]string, n)
				for i, p := range path {
					br[i] = hx(p)
				}
				var r []byte
				try(x, "BuildMerkleRootFromCoinbase", func() { r = block.BuildMerkleRootFromCoinbase(cp(h), br) })
				if w := ref.MerkleFold(h, 0, path); !bytes.Equal(r, w) {
					x.Failf("root", "BuildMerkleRootFromCoinbase over %d branches gives %x, want %x", n, r, w)
				}
				x.Statef("%d branches", n)
				return
			}
			n := engine.Pick(x, marks(600, tier(x, 140001, 300001), 1))
			l := leafSet(n, 9)
			if x.Bool() {
				l[n-1] = l[n-2]
			}
			coinbaseTree(x, l, n%2 == 0)
		})
	case "C20":
		return sc("trees of n leaves, n to 70000 (thorough 300000), each proved at 40 places (ends, around every power of two, middle): MARKS; paths of 0..62 hashes x indexes with every one or two bits set, and the first index beyond the tree", func(x *X) {
			if x.Bool() {
				n := x.Choose(63)
				p := leafSet(n, 6)
				leaf := pat(32, 1)
				i, j := x.Choose(63), x.Choose(63)
				if j > i {
					x.Prune()
				}
				idx := 1<<uint(i) | 1<<uint(j)
				var want []byte
				if idx < 1<<uint(n) {
					want = ref.MerkleFold(leaf, idx, p)
				}
				proof(x, hx(ref.Rev(leaf)), idx, display(p), want)
				if idx = 1<<uint(n) - 1; i == j {
					proof(x, hx(ref.Rev(leaf)), idx, display(p), ref.MerkleFold(leaf, idx, p))
				}
				x.Statef("%d of %d", idx, n)
				return
			}
			n := engine.Pick(x, marks(600, tier(x, 70001, 300001), 1))
			l := leafSet(n, 8)
			lv := ref.MerkleLevels(l)
			at := []int{0, 1, 2, 3, n - 1, n - 2, n - 3, n / 2, n/2 + 1, n / 3}
			for k := 4; k < n; k *= 2 {
				at = append(at, k-1, k)
			}
			for _, i := range at {
				proof(x, hx(ref.Rev(l[i])), i, display(ref.MerklePath(lv, i)), lv[len(lv)-1][0])
			}
			x.Step(len(at))
			x.Statef("%d leaves", n)
		})
	case "C21":
		return sc("text, witness commitment or miner id of each length to 2^20 (thorough 2^22): MARKS", func(x *X) {
			n := engine.Pick(x, far(x, 1, 1<<20+1, 1<<22+1, 1))
			a := cbArgs{height: 600000 + uint32(n), value: 3, text: "text", wallet: mainAddr, e1: 6}
			switch x.Choose(4) {
			case 0:
				a.text = string(pat(n, 4))
			case 1:
				a.witness = pat(n, 4)
			case 2:
				a.miner = pat(n, 4)
			default:
				a.witness, a.miner = pat(n, 4), pat(n, 5)
			}
			coinbase(x, a)
		})
	case "C25":
		return sc("texts of each length to 2^21 (thorough 2^23) x 3 keys, and every model ciphertext of such a text, whole and cut by 1, 2, 3, 4 bytes: MARKS", func(x *X) {
			n := engine.Pick(x, far(x, 0, 1<<21+1, 1<<23+1, 1))
			k := x.Choose(3)
			t := fill(n, n%nFills)
			a, b := cipherRound(x, k, t), cipherRound(x, k, t)
			if bytes.Equal(a[:16], b[:16]) {
				x.Failf("repeated IV", "two encryptions of %d bytes use the same IV", n)
			}
			seen := map[string]int{}
			for i := 0; i+16 <= len(a); i += 16 { // blocks repeat only by chance
				if j, ok := seen[string(a[i:i+16])]; ok {
					x.Failf("repeated block", "ciphertext of %d bytes: blocks %d and %d are equal", n, j, i/16)
				}
				seen[string(a[i:i+16])] = i / 16
			}
			ct := modelCipher(k, pat(16, n), []byte(base64.StdEncoding.EncodeToString(t)))
			for c := 0; c < 5 && c < len(ct); c++ {
				decrypts(x, k, ct[:len(ct)-c])
			}
			x.Step(5)
			x.Statef("%d %d", n, k)
		})
	case "C28":
		return sc("messages of each length to 2^21 (thorough 2^24) for the 4 hashes: MARKS", func(x *X) {
			n := engine.Pick(x, far(x, 0, 1<<21+1, 1<<24+1, 1))
			hash4(x, fill(n, x.Choose(3)), 8)
		})
	case "C29":
		return sc("byte strings of each length to 2^20 and hex text of each length to 2^13 reversed; equality of byte strings of each length to 2^20 differing at the first, middle or last byte or in length: MARKS", func(x *X) {
			switch x.Choose(3) {
			case 0:
				n := engine.Pick(x, far(x, 0, 1<<20+1, 1<<24+1, 1))
				g := mkGuard(pat(n, 3), 8)
				var r []byte
				try(x, "ReverseBytes", func() { r = utils.ReverseBytes(g.b()) })
				if !bytes.Equal(r, ref.Rev(pat(n, 3))) {
					x.Failf("ReverseBytes", "ReverseBytes of %d bytes", n)
				}
				g.check(x, "ReverseBytes")
				x.Statef("rev bytes %d", n)
			case 1:
				n := engine.Pick(x, far(x, 0, 1<<13+1, 1<<15+1, 1))
				revHex(x, hx(pat(n, 3)))
				revHex(x, hx(pat(n, 3))[:max(0, 2*n-1)])
				x.Statef("rev %d", n)
			default:
				n := engine.Pick(x, far(x, 1, 1<<20+1, 1<<22+1, 1))
				a := pat(n, 4)
				test := func(b []byte, want bool, what string) {
					var g, g2 bool
					try(x, "Equals", func() { g, g2 = utils.Equals(a, b), utils.Equals(b, a) })
					if g != want || g2 != want {
						x.Failf("Equals", "%d bytes, %s: Equals is %v, %v", n, what, g, g2)
					}
				}
				test(cp(a), true, "equal")
				for _, i := range []int{0, n / 2, n - 1} {
					b := cp(a)
					b[i] ^= 1
					test(b, false, fmt.Sprintf("byte %d differs", i))
				}
				test(a[:n-1], false, "one byte shorter")
				test(cat(a, []byte{0}), false, "one byte longer")
				x.Statef("equals %d", n)
			}
		})
	case "C30":
		return sc("numbers of inputs or outputs to 10000 (thorough 100000) x first, middle, last index; scripts of each length to 2^20 as argument, as the cleared and as the kept one: MARKS", func(x *X) {
			if x.Bool() {
				n := engine.Pick(x, far(x, 130, 10001, 100001, 1))
				t := cheapTx(n, 2)
				if x.Bool() {
					t = cheapTx(3, n)
				}
				cleared(x, t, []int{0, len(t.Ins) / 2, len(t.Ins) - 1}[x.Choose(3)], ref.P2PKH(keys[0].hash))
				return
			}
			n := engine.Pick(x, far(x, 0, 1<<20+1, 1<<22+1, 1))
			t := simpleTx(2, 2)
			switch x.Choose(4) {
			case 0:
				cleared(x, t, 1, pat(n, 2))
			case 1:
				t.Ins[0].Script = pat(n, 3)
				cleared(x, t, 1, []byte{1})
			case 2:
				t.Ins[1].Script = pat(n, 3)
				cleared(x, t, 1, []byte{1})
			default:
				t.Outs[1].Script = pat(n, 3)
				cleared(x, t, 0, []byte{1})
			}
		})
	case "C31":
		return sc("payments with n outputs, n to 20000 (thorough 70000), of which one of 5 is spent; spends with n inputs, n to 2000, the first, middle or last being the coin: MARKS", func(x *X) {
			o := &keys[0]
			if x.Bool() {
				n := engine.Pick(x, far(x, 300, 20001, 70001, 1))
				pos := []int{0, 255, 256, n - 2, n - 1}[x.Choose(5)]
				tx := transaction.New()
				in := simpleIn(3)
				tx.AddInput(libIn(&in))
				for i := 0; i < n; i++ {
					if i == pos {
						payOut(x, tx, n%len(payWays), o, true, 7)
					} else {
						payOut(x, tx, 5, &keys[1], true, uint64(i))
					}
				}
				spendOne(x, tx, tx.ToBytes(), pos, o, o, 1+pos%3, pos%4, n%4, 0x41, fmt.Sprintf("output %d of %d", pos, n))
				return
			}
			n := engine.Pick(x, far(x, 2, 2001, 20001, 1))
			at := []int{0, n / 2, n - 1}[x.Choose(3)]
			prev := funded(x, 2, 1, 3, o, true, 77777)
			tx := transaction.New()
			t := cheapTx(n, 0)
			for i := range t.Ins {
				if i == at {
					spendOut(x, tx, prev, 1, n%4)
				} else {
					tx.AddInput(libIn(&t.Ins[i]))
				}
			}
			payOut(x, tx, 4, &keys[1], true, 70000)
			tx = signWith(x, tx, n%4, at, o, payFlags[n%7])
			g, _, ok := ref.ParseTx(tx.ToBytes())
			if !ok || len(g.Ins) != n || len(g.Outs) != 1 {
				x.Failf("spending transaction", "%d inputs: malformed", n)
			}
			coins(x, g, prev.ToBytes())
			for i := range g.Ins {
				if i != at && !bytes.Equal(g.Ins[i].Script, t.Ins[i].Script) {
					x.Failf("other input", "input %d of %d changed", i, n)
				}
			}
			if why := spendError(g, at); why != "" {
				x.Failf("not spendable", "input %d of %d: %s", at, n, why)
			}
			x.Statef("input %d of %d", at, n)
		})
	case "C32":
		return sc("transactions with n inputs or outputs, n to 20000 (thorough 100000), Sign with the first or last index or SignAuto x 17 signer behaviours: MARKS", func(x *X) {
			n := engine.Pick(x, far(x, 5, 20001, 100001, 1))
			t := cheapTx(n, 2)
			if x.Bool() {
				t = cheapTx(2, n)
			}
			a := x.Choose(3)
			kind := x.Choose(signerKinds)
			if !x.Thorough && n > 2000 && kind%3 != n%3 || n > 20001 && kind == 2 { // 2 takes quadratic space
				x.Prune()
			}
			external(x, libTx(t), t, a == 2, uint32([]int{0, len(t.Ins) - 1, 0}[a]), kind, fmt.Sprintf("%d inputs, %d outputs", len(t.Ins), len(t.Outs)))
			x.Statef("%d %d %d %d", len(t.Ins), len(t.Outs), a, kind)
		})
	case "C33":
		return sc("templates of n transactions, n to 20000 (thorough 140000): MARKS", func(x *X) {
			n := engine.Pick(x, far(x, 500, 20001, 140001, 1))
			mine(x, blockCase{txs: n, height: uint32(n), value: 1, text: "/large/", wallet: n % 3, main: n%2 == 0, e1: n % 13, bits: 0x1b0404cb, version: 4})
		})
	case "C35":
		return sc("one part of each length to 2^18 (thorough 2^20), n parts, n to 5000, x 8 ways of storing (with text to 600): MARKS", func(x *X) {
			way := x.Choose(len(dataWays))
			if x.Bool() {
				n := engine.Pick(x, append(marks(1, tier(x, 1<<18+1, 1<<20+1), 1), 1<<24))
				carry(x, [][]byte{fill(n, n%3)}, way, 1+n%3, n%2)
				return
			}
			n := engine.Pick(x, marks(2, 5001, 1))
			ps := make([][]byte, n)
			for i := range ps {
				ps[i] = pat(1+i%3, i)
			}
			if n > 600 { // the text forms take quadratic time
				if way == 6 {
					x.Prune()
				}
				ps[0] = nil
			}
			carry(x, ps, way, 1+n%3, n%2)
		})
	}
	return nil
}
