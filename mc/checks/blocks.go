package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/utils"

	"verif/mc/engine"
	"verif/mc/ref"
)

// ---- C19, C20: merkle trees ---------------------------------------------------

func display(hs [][]byte) []string {
	r := make([]string, len(hs))
	for i, h := range hs {
		r[i] = hx(ref.Rev(h))
	}
	return r
}

// coinbaseTree checks branches and root for a list of leaves (internal order).
func coinbaseTree(x *X, leaves [][]byte, upper bool) {
	t := display(leaves)
	if upper {
		for i := range t {
			t[i] = strings.ToUpper(t[i])
		}
	}
	lv := ref.MerkleLevels(leaves)
	want := ref.MerklePath(lv, 0)
	root := lv[len(lv)-1][0]
	arg := append([]string{}, t...)
	var br []string
	try(x, "GetMerkleBranches", func() { br = block.GetMerkleBranches(arg) })
	for i := range t {
		if arg[i] != t[i] {
			x.Failf("template changed", "GetMerkleBranches changed its argument")
		}
	}
	if len(br) != len(want) {
		x.Failf("branch count", "%d leaves: %d branches, want %d", len(leaves), len(br), len(want))
	}
	for i := range br {
		if !strings.EqualFold(br[i], hx(want[i])) {
			x.Failf("branch", "%d leaves: branch %d is %s, want %x", len(leaves), i, br[i], want[i])
		}
	}
	g := mkGuard(leaves[0], 40)
	var r, r2 []byte
	keep := append([]string{}, br...)
	try(x, "BuildMerkleRootFromCoinbase", func() {
		r = block.BuildMerkleRootFromCoinbase(g.b(), br)
		r2 = block.BuildMerkleRootFromCoinbase(exact(leaves[0]), br)
	})
	g.check(x, "BuildMerkleRootFromCoinbase")
	if !bytes.Equal(r, root) || !bytes.Equal(r2, root) {
		x.Failf("root", "%d leaves: BuildMerkleRootFromCoinbase gives %x (%x), want %x", len(leaves), r, r2, root)
	}
	for i := range br {
		if br[i] != keep[i] {
			x.Failf("branches changed", "BuildMerkleRootFromCoinbase changed its branches")
		}
	}
	// the root is the same through the generic proof at index 0
	var s string
	var err error
	disp := make([]string, len(want))
	for i := range want {
		disp[i] = hx(ref.Rev(want[i]))
	}
	try(x, "MerkleRootFromBranches", func() { s, err = block.MerkleRootFromBranches(t[0], 0, disp) })
	if err != nil || !strings.EqualFold(s, hx(ref.Rev(root))) {
		x.Failf("generic root", "MerkleRootFromBranches at index 0 of %d leaves gives %s, %v", len(leaves), s, err)
	}
	x.State(bytes.Join(leaves, nil))
	x.Outcome(fmt.Sprintf("%d levels", len(lv)))
}

func leafSet(n, seed int) [][]byte {
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, ref.Sha256(append(pat(4, seed), byte(i), byte(i>>8), byte(i>>16))))
	}
	return r
}

// proof checks MerkleRootFromBranches; want nil: an error is required.
func proof(x *X, leaf string, idx int, path []string, want []byte) {
	arg := append([]string{}, path...)
	var s string
	var err error
	if p := caught(func() { s, err = block.MerkleRootFromBranches(leaf, idx, arg) }); p != "" {
		x.Failf("MerkleRootFromBranches panics", "MerkleRootFromBranches(%s, %d, %d branches) panics: %s", cut(leaf), idx, len(path), p)
	}
	for i := range arg {
		if arg[i] != path[i] {
			x.Failf("branches changed", "MerkleRootFromBranches changed its argument")
		}
	}
	if want == nil && err == nil {
		x.Failf("MerkleRootFromBranches accepts", "MerkleRootFromBranches(%s, %d, %d branches) = %s without error", cut(leaf), idx, len(path), s)
	}
	if want != nil && (err != nil || !strings.EqualFold(s, hx(ref.Rev(want)))) {
		x.Failf("MerkleRootFromBranches", "MerkleRootFromBranches(%s, %d, %d branches) = %s, %v; want %x", cut(leaf), idx, len(path), s, err, ref.Rev(want))
	}
	x.Outcome(fmt.Sprintf("%d branches, error %v", len(path), err != nil))
}

func init() {
	register(engine.Property{ID: "C19", Level: "model_checking",
		Rule:        "every leaf list of the bound is turned into coinbase branches and a root and compared with a full merkle tree; a state is a distinct leaf list",
		Assumptions: []string{baseAssumption, "leaves are 32-byte hex hashes"},
		Scenarios: []engine.Scenario{
			{Name: "sizes", Bound: "every number of transactions 1..600 (thorough 1..5000) of distinct leaves, 2 seeds, lower or upper case", Run: func(x *X) {
				n := 600
				if x.Thorough {
					n = 5000
				}
				coinbaseTree(x, leafSet(1+x.Choose(n), x.Choose(2)), x.Bool())
			}},
			{Name: "equal-leaves", Bound: "every list of 1..9 (thorough 1..14) leaves over 2 values, and of 1..6 (thorough 8) over 3", Run: func(x *X) {
				k, n := 2, 9
				if x.Thorough {
					n = 14
				}
				if x.Bool() {
					k, n = 3, 6
					if x.Thorough {
						n = 8
					}
				}
				pool := [][]byte{pat(32, 1), pat(32, 2), rep(32, 0)}
				n = 1 + x.Choose(n)
				var l [][]byte
				for i := 0; i < n; i++ {
					l = append(l, pool[x.Choose(k)])
				}
				coinbaseTree(x, l, false)
			}},
			{Name: "coinbase-value", Bound: "the branches do not depend on the first entry: 1..40 leaves x first entry out of 4 values; the root uses the hash passed in", Run: func(x *X) {
				l := leafSet(1+x.Choose(40), 3)
				l[0] = [][]byte{rep(32, 0), rep(32, 0xff), pat(32, 5), l[len(l)-1]}[x.Choose(4)]
				coinbaseTree(x, l, false)
			}},
			{Name: "empty", Bound: "an empty template gives no branches", Run: func(x *X) {
				var b []string
				try(x, "GetMerkleBranches", func() { b = block.GetMerkleBranches([][]string{nil, {}}[x.Choose(2)]) })
				if len(b) != 0 {
					x.Failf("branches of nothing", "%d branches of an empty template", len(b))
				}
				x.StateS("empty template")
				x.Outcome("no branches")
			}},
			{Name: "coinbase-root", Bound: "BuildMerkleRootFromCoinbase over every list of 0..6 (thorough 8) branches out of 3 values x 2 hashes x spare capacity {0,1,32,64}", Run: func(x *X) {
				n := 6
				if x.Thorough {
					n = 8
				}
				n = x.Choose(n + 1)
				h := [][]byte{pat(32, 7), rep(32, 0)}[x.Choose(2)]
				var path [][]byte
				var br []string
				for i := 0; i < n; i++ {
					p := [][]byte{pat(32, 8), h, rep(32, 0xff)}[x.Choose(3)]
					path, br = append(path, p), append(br, hx(p))
				}
				g := mkGuard(h, []int{0, 1, 32, 64}[x.Choose(4)])
				var r []byte
				try(x, "BuildMerkleRootFromCoinbase", func() { r = block.BuildMerkleRootFromCoinbase(g.b(), br) })
				g.check(x, "BuildMerkleRootFromCoinbase")
				if w := ref.MerkleFold(h, 0, path); !bytes.Equal(r, w) {
					x.Failf("root", "BuildMerkleRootFromCoinbase over %d branches gives %x, want %x", n, r, w)
				}
				x.State(cat(h, bytes.Join(path, nil)))
			}},
		}})

	register(engine.Property{ID: "C20", Level: "model_checking",
		Rule:        "the root computed for every leaf, index and path of the bound is compared with a full merkle tree or an independent fold; a state is a distinct (leaf, index, path)",
		Assumptions: []string{baseAssumption, "hashes of other lengths than 32 bytes are not judged (no panic)"},
		Scenarios: []engine.Scenario{
			{Name: "trees", Bound: "every leaf of every tree of 1..130 (thorough 1..600) leaves; the same path at every other index of the tree gives the folded value", Run: func(x *X) {
				n := 130
				if x.Thorough {
					n = 600
				}
				n = 1 + x.Choose(n)
				l := leafSet(n, 1)
				lv := ref.MerkleLevels(l)
				for i := 0; i < n; i++ {
					p := ref.MerklePath(lv, i)
					proof(x, hx(ref.Rev(l[i])), i, display(p), lv[len(lv)-1][0])
					j := (i + 1 + n/3) % (1 << uint(len(p)))
					proof(x, hx(ref.Rev(l[i])), j, display(p), ref.MerkleFold(l[i], j, p))
					x.Validated(2)
				}
				x.Distinct(2 * n)
			}},
			{Name: "folds", Bound: "path lengths 0..5 (thorough 7), every path over 2 hashes equal or different from the leaf, every index, upper or lower case", Run: func(x *X) {
				n := 6
				if x.Thorough {
					n = 8
				}
				n = x.Choose(n)
				leaf := pat(32, 1)
				var p [][]byte
				for i := 0; i < n; i++ {
					p = append(p, [][]byte{leaf, pat(32, 2)}[x.Choose(2)])
				}
				idx := x.Choose(1 << uint(n))
				s, d := hx(ref.Rev(leaf)), display(p)
				if x.Bool() {
					s = strings.ToUpper(s)
					for i := range d {
						d[i] = strings.ToUpper(d[i])
					}
				}
				proof(x, s, idx, d, ref.MerkleFold(leaf, idx, p))
				x.Statef("%d %x", idx, bytes.Join(p, nil))
			}},
			{Name: "index-range", Bound: "path lengths 0..20 x indexes at both ends of the range +-3, powers of two, +-2^31, +-2^62, -1..-40", Run: func(x *X) {
				n := x.Choose(21)
				p := leafSet(n, 4)
				leaf := pat(32, 1)
				idxs := []int{0, 1, 2, 3, -1, -2, -3, 1<<n - 1, 1 << n, 1<<n + 1, 1<<n + 3, 1<<(n+1) - 1, 1 << (n + 1), -(1 << n), -(1 << n) - 1, -(1 << n) + 1, math.MaxInt, math.MinInt, math.MinInt + 1, 1 << 31, 1 << 32, -1 << 31, -1 << 32, 1 << 62, -1 << 62, 1<<n | 1<<40, math.MaxInt - 1<<n + 1}
				for i := 4; i <= 40; i++ {
					idxs = append(idxs, -i)
				}
				idx := engine.Pick(x, idxs)
				var want []byte
				if idx >= 0 && idx < 1<<n {
					want = ref.MerkleFold(leaf, idx, p)
				}
				proof(x, hx(ref.Rev(leaf)), idx, display(p), want)
				x.Statef("%d of %d", idx, n)
			}},
			{Name: "bad-hex", Bound: "paths of 0..4: the leaf or one branch with a character replaced by each of 7 others at each of 64 positions, or cut by one character: an error", Run: func(x *X) {
				n := x.Choose(5)
				leaf, p := hx(pat(32, 1)), display(leafSet(n, 2))
				k := x.Choose(n + 1)
				s := leaf
				if k > 0 {
					s = p[k-1]
				}
				if x.Bool() {
					b := []byte(s)
					b[x.Choose(64)] = "gx \n\x00-:"[x.Choose(7)]
					s = string(b)
				} else {
					s = s[:63]
				}
				if k > 0 {
					p[k-1] = s
				} else {
					leaf = s
				}
				proof(x, leaf, x.Choose(1<<uint(n)), p, nil)
				x.Statef("%d %s", n, s)
			}},
			{Name: "odd-lengths", Bound: "leaf and branches of 0..80 bytes: no panic", Run: func(x *X) {
				a, b := hx(pat(x.Choose(81), 1)), hx(pat(x.Choose(81), 2))
				x.StateS(a + " " + b)
				try(x, "MerkleRootFromBranches", func() { block.MerkleRootFromBranches(a, x.Choose(2), []string{b}) })
			}},
		}})

	register(engine.Property{ID: "C21", Level: "model_checking",
		Rule:        "every parameter tuple of the bound is turned into coinbase parts, recombined, parsed by an independent parser and by the library, and compared field by field; a state is a distinct coinbase transaction",
		Assumptions: []string{baseAssumption, "the two extra nonces are 12 bytes together"},
		Scenarios: []engine.Scenario{
			{Name: "heights", Bound: "every height 0..70000 (thorough 0..17000000 and the last 2^20 below 2^32), +-300 around every power of two, x text lengths {0, 5} quick", Run: func(x *X) {
				n := 70000
				if x.Thorough {
					n = 17000000
				}
				hi, base := n/1000, uint32(0)
				k := x.Choose(hi + 32)
				if k < hi {
					base = uint32(k) * 1000
				} else {
					base = uint32(1)<<uint(k-hi) - 300
				}
				for i := uint32(0); i < 1000; i++ {
					if k >= hi && i > 600 {
						break
					}
					coinbase(x, cbArgs{height: base + i, value: 5000000000, text: "/x/x/"[:5*int(i&1)], wallet: mainAddr, e1: 6})
					x.Validated(1)
				}
			}},
			{Name: "last-heights", ThoroughOnly: true, Bound: "the 2^20 heights below 2^32", Run: func(x *X) {
				b := uint32(x.Choose(1024)) << 10
				for i := uint32(0); i < 1024; i++ {
					coinbase(x, cbArgs{height: math.MaxUint32 - b - i, value: 1, text: "t", wallet: testAddr, e1: 4})
					x.Validated(1)
				}
			}},
			{Name: "texts", Bound: "text of every length 0..400 x heights {0,16,17,127,128,32767,32768,8388607,8388608,2^32-1} x extra nonce split 0..12; text of every length 0..400 x 12 contents", Run: func(x *X) {
				n := x.Choose(401)
				if x.Bool() {
					coinbase(x, cbArgs{height: 812345, value: 625000000, text: string(fill(n, x.Choose(nFills))), wallet: testAddr, e1: 8})
					return
				}
				h := engine.Pick(x, []uint32{0, 16, 17, 127, 128, 32767, 32768, 700000, 8388607, 8388608, math.MaxUint32})
				coinbase(x, cbArgs{height: h, value: 1, text: string(pat(n, n)), wallet: mainAddr, e1: x.Choose(13)})
			}},
			{Name: "outputs", Bound: "value(8) x witness commitment {none, length 0, 1, 38, 252, 253, 300} x miner id length {nil, 0, 1, 75, 76, 252, 253, 300, 65535, 65536} x 2 wallets x upper-case hex", Run: func(x *X) {
				a := cbArgs{height: 600000, value: engine.Pick(x, u64s), text: "text", wallet: []string{mainAddr, testAddr}[x.Choose(2)], e1: 6}
				if k := x.Choose(6); k > 0 {
					a.witness = pat([]int{1, 38, 252, 253, 300}[k-1], k)
				}
				if k := x.Choose(10); k > 0 {
					a.miner = pat([]int{0, 1, 75, 76, 252, 253, 300, 65535, 65536}[k-1], 50+k)
				}
				a.upper = x.Bool()
				coinbase(x, a)
			}},
			{Name: "long-outputs", Bound: "witness commitment or miner id of every length 0..600 x 12 contents", Run: func(x *X) {
				n := x.Choose(601)
				a := cbArgs{height: 600000, value: 3, text: "text", wallet: mainAddr, e1: 6}
				k := x.Choose(nFills)
				if x.Bool() {
					a.miner = fill(n, k)
				} else {
					a.witness = fill(n, k)
				}
				coinbase(x, a)
			}},
			{Name: "errors", Bound: "14 wallets which are no P2PKH address; witness commitments with one bad character at each of 20 positions or an odd length", Run: func(x *X) {
				w, wc := mainAddr, ""
				if x.Bool() {
					w = engine.Pick(x, []string{"", "1", "1E7ucTTWRTahCyViPhxSMor2pj4VGQdFM", "1E7ucTTWRTahCyViPhxSMor2pj4VGQdFMs", "1E7ucTTWRTahCyViPhxSMor2pj4VGQdFMrr", " " + mainAddr, mainAddr + "\n", ref.B58Check(append([]byte{5}, pat(20, 1)...)), ref.B58Check(append([]byte{0xc4}, pat(20, 1)...)), ref.B58Check(append([]byte{1}, pat(20, 1)...)), ref.B58Check(append([]byte{0}, pat(19, 1)...)), ref.B58Check(append([]byte{0}, pat(21, 1)...)), ref.BIP276("bitcoin-script", 1, 1, pat(25, 1)), "0" + mainAddr[1:]})
				} else {
					b := []byte(hx(pat(10, 3)))
					if p := x.Choose(21); p < 20 {
						b[p] = "gz \x00:"[x.Choose(5)]
					} else {
						b = b[:1+2*x.Choose(10)]
					}
					wc = string(b)
				}
				var err error
				try(x, "GetCoinbaseParts", func() { _, _, err = block.GetCoinbaseParts(1, 2, wc, "t", w, nil) })
				if err == nil {
					x.Failf("GetCoinbaseParts accepts", "GetCoinbaseParts with wallet %q and commitment %q gives no error", w, wc)
				}
				x.Statef("%s %s", w, wc)
			}},
			{Name: "recombine", Bound: "BuildCoinbase over part lengths {0,1,60,300}^2 with spare capacity {0,8,64} x nonce lengths {0,1,4,6,12}^2", Run: func(x *X) {
				ls, ns := []int{0, 1, 60, 300}, []int{0, 1, 4, 6, 12}
				a, b := mkGuard(pat(engine.Pick(x, ls), 1), []int{0, 8, 64}[x.Choose(3)]), mkGuard(pat(engine.Pick(x, ls), 2), 8)
				e1, e2 := pat(engine.Pick(x, ns), 3), pat(engine.Pick(x, ns), 4)
				var r []byte
				try(x, "BuildCoinbase", func() { r = block.BuildCoinbase(a.b(), b.b(), hx(e1), strings.ToUpper(hx(e2))) })
				if w := cat(a.orig[:a.n], e1, e2, b.orig[:b.n]); !bytes.Equal(r, w) {
					x.Failf("BuildCoinbase", "BuildCoinbase gives %s, want %s", short(r), short(w))
				}
				a.check(x, "BuildCoinbase")
				b.check(x, "BuildCoinbase")
				for i := range r {
					r[i] ^= 0xff
				}
				a.check(x, "the result of BuildCoinbase shares memory with its argument")
				b.check(x, "the result of BuildCoinbase shares memory with its argument")
				x.Statef("%d %d %d %d", a.n, b.n, len(e1), len(e2))
			}},
		}})

	register(engine.Property{ID: "C22", Level: "model_checking",
		Rule:        "every header field combination of the bound is compared with the 80-byte layout; a state is a distinct header",
		Assumptions: []string{baseAssumption, "time, bits, nonce and merkle root are given in wire order, as the function documents by passing them through"},
		Scenarios: []engine.Scenario{
			{Name: "fields", Bound: "version(8+7) x previous hash(4) x merkle root(3) x time, bits, nonce (3 values each), upper or lower case, spare capacity {0,32}", Run: func(x *X) {
				v := engine.Pick(x, append(append([]uint32{}, u32s...), versions...))
				prev := engine.Pick(x, txids)
				root := [][]byte{pat(32, 2), rep(32, 0), rep(32, 0xff)}[x.Choose(3)]
				var f [3][]byte
				for i := range f {
					f[i] = [][]byte{pat(4, 10+i), rep(4, 0), rep(4, 0xff)}[x.Choose(3)]
				}
				header(x, v, prev, root, f, x.Bool(), 32*x.Choose(2))
			}},
			{Name: "every-byte", Bound: "every byte position of the 80 set to every value over a zero or patterned background", Run: func(x *X) {
				p, v := x.Choose(80), x.Choose(256)
				h := [][]byte{rep(80, 0), pat(80, 1)}[x.Choose(2)]
				h[p] = byte(v)
				header(x, uint32(ref.GetLE(h[:4])), ref.Rev(h[4:36]), h[36:68], [3][]byte{h[68:72], h[72:76], h[76:]}, false, 8)
			}},
		}})

	register(engine.Property{ID: "C23", Level: "model_checking",
		Rule:        "every compact target of the bound is expanded and compared with big-integer arithmetic; a state is a distinct bits text",
		Assumptions: []string{baseAssumption, "difficulty is compared within a relative error of 1e-12; not judged: the text form of negative targets, the difficulty of zero and negative targets and of targets above 2^1000"},
		Scenarios: []engine.Scenario{
			{Name: "targets", Bound: "every exponent 0..255 x both signs x 3000 mantissas (all of 0..255, 256-step, boundaries, all one- and two-bit values); thorough: every mantissa for 16 exponents", Run: func(x *X) {
				e := x.Choose(256)
				blk := x.Choose(16)
				for i, m := range mantissas() {
					if i&15 == blk {
						bits(x, uint32(e)<<24|m)
						bits(x, uint32(e)<<24|m|0x800000)
						x.Validated(2)
					}
				}
			}},
			{Name: "every-mantissa", ThoroughOnly: true, Bound: "every 24-bit mantissa with sign for exponents 0,1,2,3,4,5,16,23,24,28,29,30,31,32,33,34", Run: func(x *X) {
				e := engine.Pick(x, []uint32{0, 1, 2, 3, 4, 5, 16, 23, 24, 28, 29, 30, 31, 32, 33, 34})
				b := uint32(x.Choose(4096)) << 12
				for i := uint32(0); i < 4096; i++ {
					bits(x, e<<24|b|i)
				}
				x.Validated(4096)
			}},
			{Name: "malformed", Bound: "hex texts of 0..9 bytes over 5 patterns and odd lengths; each position of 8 replaced by each of 12 characters: an error and no panic unless 4 bytes of hex", Run: func(x *X) {
				s := ""
				switch x.Choose(3) {
				case 0:
					n := x.Choose(20)
					s = strings.Repeat([]string{"1d00ffff", "ffffffff", "00000000", "20", "0"}[x.Choose(5)], 5)
					if n > len(s) {
						n = len(s)
					}
					s = s[:n]
				case 1:
					b := []byte("1d00ffff")
					b[x.Choose(8)] = "gG xz\x00-+.:/@"[x.Choose(12)]
					s = string(b)
				default:
					b := []byte("1d00ffff")
					s = []string{" 1d00ffff", "0x1d00ffff", "1d00ffff ", "1D00FFFF", "1d00 ffff", "0x1d00ff", string(b[:7]), "\n", "１d00ffff"}[x.Choose(9)]
				}
				raw, err := hex.DecodeString(s)
				ok := err == nil && len(raw) == 4
				if ok {
					bits(x, uint32(raw[0])<<24|uint32(raw[1])<<16|uint32(raw[2])<<8|uint32(raw[3]))
				} else {
					for _, f := range []string{"ExpandTargetFrom", "ExpandTargetFromAsInt", "DifficultyFromBits"} {
						var e error
						if p := caught(func() {
							switch f {
							case "ExpandTargetFrom":
								_, e = block.ExpandTargetFrom(s)
							case "ExpandTargetFromAsInt":
								_, e = block.ExpandTargetFromAsInt(s)
							default:
								_, e = block.DifficultyFromBits(s)
							}
						}); p != "" {
							x.Failf(f+" panics", "%s(%q) panics: %s", f, s, p)
						}
						if e == nil {
							x.Failf(f+" accepts", "%s(%q) gives no error", f, s)
						}
					}
				}
				x.StateS("text " + s)
				x.Outcome(fmt.Sprintf("valid %v", ok))
			}},
		}})

	register(engine.Property{ID: "C24", Level: "model_checking",
		Rule:        "every (coin, difficulty, interval) and every rate of the bound is compared with exact rational arithmetic; a state is a distinct input",
		Assumptions: []string{baseAssumption, "hashrates are compared within a relative error of 1e-9; negative, infinite and NaN rates and an empty coin name are not judged; the coin is regtest exactly when its name starts with R"},
		Scenarios: []engine.Scenario{
			{Name: "hashrate", Bound: "10 coin names x difficulties (0,1, every power of two and ten +-1, 22000) x 12 intervals", Run: func(x *X) {
				coin := engine.Pick(x, []string{"BSV", "RSV", "BTC", "BCH", "R", "TSV", "b", "SR", "RBSV", "r"})
				ds := []uint64{0, 22000}
				for i := 0; i < 64; i++ {
					ds = append(ds, 1<<uint(i), 1<<uint(i)-1, 1<<uint(i)+1)
				}
				for p := uint64(10); p < 1e19; p *= 10 {
					ds = append(ds, p-1, p, p+1)
				}
				d := engine.Pick(x, ds)
				sec := engine.Pick(x, []float64{1, 600, 7, 0.5, 0.001, 1e-9, 3600, 86400, 1e9, 1.0 / 3, 599.99, 150})
				var g float64
				try(x, "DifficultyToHashrate", func() { g = block.DifficultyToHashrate(coin, d, sec) })
				b := uint32(0x1d00ffff)
				if coin[0] == 'R' {
					b = 0x207fffff
				}
				two := new(big.Float).SetInt(new(big.Int).Lsh(big.NewInt(1), 256))
				w := new(big.Float).SetPrec(200).Quo(two, new(big.Float).SetInt(ref.Target(b)))
				w.Mul(w, new(big.Float).SetUint64(d))
				w.Quo(w, new(big.Float).SetFloat64(sec))
				f, _ := w.Float64()
				if math.Abs(g-f) > 1e-9*f {
					x.Failf("DifficultyToHashrate", "DifficultyToHashrate(%s, %d, %g) = %g, want %g", coin, d, sec, g, f)
				}
				human(x, g)
				x.Statef("%s %d %g", coin, d, sec)
			}},
			{Name: "human", Bound: "mantissas 1.000..9.999 (step 0.001) x exponents -3..24; the 3 floats on each side of every power of ten", Run: func(x *X) {
				e := x.Choose(28) - 3
				if x.Bool() {
					v, _ := strconv.ParseFloat(fmt.Sprintf("1e%d", e), 64)
					k := x.Choose(7) - 3
					for ; k < 0; k++ {
						v = math.Nextafter(v, 0)
					}
					for ; k > 0; k-- {
						v = math.Nextafter(v, math.Inf(1))
					}
					human(x, v)
					x.Statef("%x", math.Float64bits(v))
					return
				}
				a := x.Choose(90)
				for b := 0; b < 100; b++ {
					v, _ := strconv.ParseFloat(fmt.Sprintf("%d.%03de%d", 1+a/10, a%10*100+b, e), 64)
					human(x, v)
					x.Statef("%x", math.Float64bits(v))
					x.Validated(1)
				}
			}},
			{Name: "human-small", Bound: "0, 0.001..2 (step 0.001) and the integers 0..2000000 (step 7)", Run: func(x *X) {
				if x.Bool() {
					human(x, float64(x.Choose(2001))/1000)
					return
				}
				b := x.Choose(300) * 7000
				for i := 0; i < 7000; i += 7 {
					human(x, float64(b+i))
					x.Validated(1)
				}
				x.Distinct(1000)
			}},
		}})
}

var mantCache []uint32

func mantissas() []uint32 { return mantCache }

func init() {
	seen := map[uint32]bool{}
	add := func(v uint32) {
		v &= 0x7fffff
		if !seen[v] {
			seen[v] = true
			mantCache = append(mantCache, v)
		}
	}
	for i := uint32(0); i < 256; i++ {
		add(i)
		add(i << 8)
		add(i << 16)
		add(0x7fffff - i)
		add(i<<8 | i)
		add(i<<15 | 0xff)
	}
	for i := uint32(0); i < 23; i++ {
		for j := uint32(0); j < 23; j++ {
			add(1<<i | 1<<j)
			add(1<<i - 1<<j)
			add(^(1<<i | 1<<j))
		}
	}
	add(0x00ffff)
	add(0x2815ee)
	add(0x45fb53)
}

func header(x *X, v uint32, prev, root []byte, f [3][]byte, upper bool, spare int) {
	p := hx(prev)
	if upper {
		p = strings.ToUpper(p)
	}
	gs := []*guard{mkGuard(root, spare), mkGuard(f[0], spare), mkGuard(f[1], spare), mkGuard(f[2], spare)}
	var h []byte
	try(x, "BuildBlockHeader", func() { h = block.BuildBlockHeader(v, p, gs[0].b(), gs[1].b(), gs[2].b(), gs[3].b()) })
	w := cat(ref.LE(uint64(v), 4), ref.Rev(prev), root, f[0], f[1], f[2])
	if !bytes.Equal(h, w) {
		x.Failf("BuildBlockHeader", "BuildBlockHeader gives %x, want %x", h, w)
	}
	for i := range h {
		h[i] ^= 0xff
	}
	for _, g := range gs {
		g.check(x, "BuildBlockHeader")
	}
	x.State(w)
	x.Outcome(fmt.Sprintf("upper %v spare %d", upper, spare))
}

func bits(x *X, b uint32) {
	s := fmt.Sprintf("%08x", b)
	t := ref.Target(b)
	var n *big.Int
	var txt string
	var d float64
	var err, err2, err3 error
	if p := caught(func() {
		n, err = block.ExpandTargetFromAsInt(s)
		txt, err2 = block.ExpandTargetFrom(s)
		d, err3 = block.DifficultyFromBits(s)
	}); p != "" {
		x.Failf("bits panic", "expanding bits %s panics: %s", s, p)
	}
	if err != nil || n.Cmp(t) != 0 {
		x.Failf("ExpandTargetFromAsInt", "ExpandTargetFromAsInt(%s) = %v, %v; want %v", s, n, err, t)
	}
	if t.Sign() >= 0 {
		if t.BitLen() <= 256 {
			w := fmt.Sprintf("%064x", t)
			if err2 != nil || !strings.EqualFold(txt, w) {
				x.Failf("ExpandTargetFrom", "ExpandTargetFrom(%s) = %s, %v; want %s", s, txt, err2, w)
			}
		} else if err2 == nil {
			x.Failf("ExpandTargetFrom accepts", "ExpandTargetFrom(%s) = %s although the target needs %d bits", s, txt, t.BitLen())
		}
	}
	if t.Sign() > 0 && b&0x800000 == 0 && t.BitLen() < 1000 {
		w, _ := new(big.Float).SetPrec(300).Quo(new(big.Float).SetInt(ref.Target(0x1d00ffff)), new(big.Float).SetInt(t)).Float64()
		if err3 != nil || math.Abs(d-w) > 1e-12*w {
			x.Failf("DifficultyFromBits", "DifficultyFromBits(%s) = %g, %v; want %g", s, d, err3, w)
		}
	}
	x.StateS(s)
}

var units = []struct {
	v float64
	u string
}{{1, "H/s"}, {1e3, "kH/s"}, {1e6, "MH/s"}, {1e9, "GH/s"}, {1e12, "TH/s"}, {1e15, "PH/s"}, {1e18, "EH/s"}, {1e21, "ZH/s"}}

// human: the unit is the largest not above the value, the number is the value
// in that unit with two decimals.
func human(x *X, v float64) {
	var s string
	try(x, "HumanHash", func() { s = utils.HumanHash(v) })
	u := units[0]
	for _, c := range units {
		if v >= c.v {
			u = c
		}
	}
	f := strings.Fields(s)
	ok := len(f) == 2 && f[1] == u.u && len(f[0]) > 3 && f[0][len(f[0])-3] == '.'
	if ok {
		n, err := strconv.ParseFloat(f[0], 64)
		ok = err == nil && math.Abs(n-v/u.v) <= 0.00500001+1e-12*n
	}
	if !ok {
		x.Failf("HumanHash", "HumanHash(%v) = %q", v, s)
	}
	x.Outcome(u.u)
}

type cbArgs struct {
	height  uint32
	value   uint64
	text    string
	wallet  string
	witness []byte
	miner   []byte
	e1      int
	upper   bool
}

func coinbase(x *X, a cbArgs) {
	var c1, c2, all []byte
	var err error
	e := pat(12, 77)
	var g *guard
	if a.miner != nil {
		g = mkGuard(a.miner, 16)
	}
	wc := hx(a.witness)
	if a.upper {
		wc = strings.ToUpper(wc)
	}
	try(x, "GetCoinbaseParts", func() {
		var m []byte
		if g != nil {
			m = g.b()
		}
		c1, c2, err = block.GetCoinbaseParts(a.height, a.value, wc, a.text, a.wallet, m)
		if err == nil {
			all = block.BuildCoinbase(c1, c2, hx(e[:a.e1]), hx(e[a.e1:]))
		}
	})
	if err != nil {
		x.Failf("GetCoinbaseParts fails", "GetCoinbaseParts(%+v): %v", a, err)
	}
	if g != nil {
		g.check(x, "GetCoinbaseParts")
	}
	sc := append(ref.HeightPush(a.height), a.text...)
	if len(sc) > 88 {
		sc = sc[:88]
	}
	sc = append(cp(sc), e...)
	h, _, _ := ref.ParseAddress(a.wallet)
	t := &ref.Tx{Version: 1, Ins: []ref.In{{TxID: rep(32, 0), Vout: 0xffffffff, Seq: 0xffffffff, Script: sc}}, Outs: []ref.Out{{Sats: a.value, Script: ref.P2PKH(h)}}}
	if len(a.witness) > 0 {
		t.Outs = append(t.Outs, ref.Out{Script: a.witness})
	}
	if len(a.miner) > 0 {
		t.Outs = append(t.Outs, ref.Out{Script: a.miner})
	}
	want := t.Bytes()
	if !bytes.Equal(all, want) {
		x.Failf("coinbase", "coinbase for height %d, text length %d is %s, want %s", a.height, len(a.text), short(all), short(want))
	}
	try(x, "parsing the coinbase", func() {
		tx, err := transaction.NewFromBytes(all)
		if err != nil || diffTx(tx, t, false) != "" {
			x.Failf("coinbase does not parse", "the recombined coinbase does not parse back: %v", err)
		}
		if !tx.IsCoinbase() {
			x.Failf("not a coinbase", "IsCoinbase is false for the recombined coinbase")
		}
	})
	// a second recombination from the same parts with other nonces
	if b := block.BuildCoinbase(c1, c2, strings.Repeat("00", 12), ""); len(b) != len(want) || !bytes.Equal(cat(c1, rep(12, 0), c2), b) {
		x.Failf("recombining twice", "a second BuildCoinbase from the same parts differs")
	}
	x.State(want)
	x.Outcome(fmt.Sprintf("%d outputs, height push %d bytes, truncated %v", len(t.Outs), len(ref.HeightPush(a.height)), len(sc) == 100))
}
