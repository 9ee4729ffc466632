package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction/output"

	"verif/mc/engine"
	"verif/mc/ref"
)

// ---- opcode names (from the wiki's opcode list, not from the library) -------

var opName [256]string
var opAlias = map[string]byte{"OP_0": 0, "OP_ZERO": 0, "OP_RESERVED": 0x50, "OP_1": 0x51, "OP_ONE": 0x51}

func init() {
	opName[0] = "OP_FALSE"
	for i := 1; i <= 75; i++ {
		opName[i] = fmt.Sprintf("OP_DATA_%d", i)
	}
	opName[0x4c], opName[0x4d], opName[0x4e] = "OP_PUSHDATA1", "OP_PUSHDATA2", "OP_PUSHDATA4"
	opName[0x4f], opName[0x50], opName[0x51] = "OP_1NEGATE", "OP_BASE", "OP_TRUE"
	for i := 2; i <= 16; i++ {
		opName[0x50+i] = fmt.Sprintf("OP_%d", i)
	}
	for i, n := range strings.Fields(`NOP VER IF NOTIF VERIF VERNOTIF ELSE ENDIF VERIFY RETURN TOALTSTACK FROMALTSTACK
		2DROP 2DUP 3DUP 2OVER 2ROT 2SWAP IFDUP DEPTH DROP DUP NIP OVER PICK ROLL ROT SWAP TUCK CAT SPLIT NUM2BIN BIN2NUM SIZE
		INVERT AND OR XOR EQUAL EQUALVERIFY RESERVED1 RESERVED2 1ADD 1SUB 2MUL 2DIV NEGATE ABS NOT 0NOTEQUAL ADD SUB MUL DIV
		MOD LSHIFT RSHIFT BOOLAND BOOLOR NUMEQUAL NUMEQUALVERIFY NUMNOTEQUAL LESSTHAN GREATERTHAN LESSTHANOREQUAL
		GREATERTHANOREQUAL MIN MAX WITHIN RIPEMD160 SHA1 SHA256 HASH160 HASH256 CODESEPARATOR CHECKSIG CHECKSIGVERIFY
		CHECKMULTISIG CHECKMULTISIGVERIFY NOP1 NOP2 NOP3 NOP4 NOP5 NOP6 NOP7 NOP8 NOP9 NOP10`) {
		opName[0x61+i] = "OP_" + n
	}
	for i := 0xba; i <= 0xf9; i++ {
		opName[i] = fmt.Sprintf("OP_UNKNOWN%d", i)
	}
	opName[0xfa], opName[0xfb], opName[0xfc], opName[0xfd], opName[0xfe], opName[0xff] =
		"OP_SMALLINTEGER", "OP_PUBKEYS", "OP_UNKNOWN252", "OP_PUBKEYHASH", "OP_PUBKEY", "OP_INVALIDOPCODE"
	for i, n := range opName {
		if n == "" {
			panic(fmt.Sprintf("opcode %02x has no name", i))
		}
	}
}

func isOpByte(c byte) bool { return c == 0 || c > 0x4e }

// ---- C09 ----------------------------------------------------------------------

func checkPush(x *X, d []byte, full bool) {
	want := ref.Push(d)
	pl := len(want) - len(d)
	g := d
	try(x, "encoding a push", func() {
		p, err := script.GetPushDataPrefix(g)
		if err != nil || !bytes.Equal(p, want[:pl]) {
			x.Failf("GetPushDataPrefix", "GetPushDataPrefix of %d bytes = %x, %v; want %x", len(d), p, err, want[:pl])
		}
		e, err := script.EncodeParts([][]byte{g})
		if err != nil || !bytes.Equal(e, want) {
			x.Failf("EncodeParts", "EncodeParts of one %d-byte part = %s, %v; want prefix %x", len(d), short(e), err, want[:pl])
		}
		if !full {
			return
		}
		check := func(what string, f func(s *script.Script) error) {
			for _, start := range [][]byte{nil, {0x6a}} {
				s := scr(start)
				if err := f(s); err != nil {
					x.Failf(what+" fails", "%s of %d bytes fails: %v", what, len(d), err)
				}
				if !bytes.Equal(*s, cat(start, want)) {
					x.Failf(what, "%s of %d bytes onto %x gives %s, want prefix %x", what, len(d), start, short(*s), want[:pl])
				}
			}
		}
		check("AppendPushData", func(s *script.Script) error { return s.AppendPushData(d) })
		check("AppendPushDataHexString", func(s *script.Script) error { return s.AppendPushDataHexString(hx(d)) })
		check("AppendPushDataString", func(s *script.Script) error { return s.AppendPushDataString(string(d)) })
		check("AppendPushDataArray", func(s *script.Script) error { return s.AppendPushDataArray([][]byte{d}) })
		check("AppendPushDataStrings", func(s *script.Script) error { return s.AppendPushDataStrings([]string{string(d)}) })
		parts, err := script.DecodeParts(want)
		if err != nil {
			x.Failf("decode of encode fails", "DecodeParts of the push of %d bytes fails: %v", len(d), err)
		}
		if len(d) > 0 && (len(parts) != 1 || !bytes.Equal(parts[0], d)) {
			x.Failf("round trip", "DecodeParts(EncodeParts) of %d bytes gives %d parts", len(d), len(parts))
		}
	})
}

func init() {
	register(engine.Property{ID: "C09", Level: "model_checking",
		Rule:        "every push length of the bound is encoded through every entry point and compared with the script rules; every append history is compared with a list model; a state is a distinct script",
		Assumptions: []string{baseAssumption, "pushes longer than 2^24 bytes are not exercised (4 GiB lengths do not fit the sandbox)"},
		Scenarios: []engine.Scenario{
			{Name: "lengths", Bound: "every length 0..3000 and 65280..66000 through 7 entry points (thorough: 0..70000 and around 2^17..2^24); prefix function for every length 0..200000", Run: func(x *X) {
				lens := lensAround(3000, 360, 65640)
				if x.Thorough {
					lens = lensAround(70000, 2, 1<<17, 1<<20, 1<<24)
				}
				n := engine.Pick(x, lens)
				checkPush(x, pat(n, 3), true)
				x.Statef("%d", n)
			}},
			{Name: "prefixes", Bound: "GetPushDataPrefix for every length 0..200000 and 2^24 -2..+2", Run: func(x *X) {
				b := x.Choose(51)
				if b == 50 {
					big := make([]byte, 1<<24+3)
					for n := 1<<24 - 2; n <= 1<<24+2; n++ {
						prefix1(x, big[:n])
					}
					x.Distinct(5)
					x.Validated(4)
					return
				}
				buf := make([]byte, 4000*(b+1))
				for n := 4000 * b; n < 4000*(b+1); n++ {
					prefix1(x, buf[:n])
				}
				x.Step(4000)
				x.Distinct(4000)
				x.Validated(3999)
			}},
			{Name: "length-contents", Bound: "every length 0..600 and 65534..65537 x 12 contents (zeros, ones, leading or trailing 00, 0f, 80, text, ...) through 7 entry points", Run: func(x *X) {
				n := engine.Pick(x, lensAround(600, 2, 65535))
				k := x.Choose(nFills)
				checkPush(x, fill(n, k), true)
				x.Statef("%d %d", n, k)
				x.Outcome(fmt.Sprintf("prefix %d bytes", len(ref.Push(pat(n, 1)))-n))
			}},
			{Name: "many-parts", Bound: "1..1200 and 5000 parts of each of 5 lengths through EncodeParts, DecodeParts and the append functions", Run: func(x *X) {
				n := 1 + x.Choose(1201)
				if n > 1200 {
					n = 5000
				}
				l := []int{0, 1, 2, 33, 76}[x.Choose(5)]
				var parts [][]byte
				var strs []string
				var want []byte
				for i := 0; i < n; i++ {
					d := pat(l, i)
					parts, strs, want = append(parts, d), append(strs, string(d)), append(want, ref.Push(d)...)
				}
				try(x, "many parts", func() {
					e, err := script.EncodeParts(parts)
					if err != nil || !bytes.Equal(e, want) {
						x.Failf("EncodeParts many", "EncodeParts of %d parts of %d bytes is wrong (err %v)", n, l, err)
					}
					s := scr([]byte{0x51})
					if err := s.AppendPushDataArray(parts); err != nil || !bytes.Equal(*s, cat([]byte{0x51}, want)) {
						x.Failf("AppendPushDataArray many", "%d parts of %d bytes (err %v)", n, l, err)
					}
					s = scr([]byte{0x51})
					if err := s.AppendPushDataStrings(strs); err != nil || !bytes.Equal(*s, cat([]byte{0x51}, want)) {
						x.Failf("AppendPushDataStrings many", "%d parts of %d bytes (err %v)", n, l, err)
					}
					s = scr(nil)
					for _, d := range parts {
						if s.AppendPushData(d) != nil {
							x.Failf("AppendPushData many", "fails")
						}
					}
					if !bytes.Equal(*s, want) {
						x.Failf("AppendPushData many", "%d parts of %d bytes one after another", n, l)
					}
				})
				decodeOne(x, want)
				x.Statef("%d %d", n, l)
				x.Outcome(fmt.Sprintf("part length %d", l))
			}},
			{Name: "contents", Bound: "every 1-byte push; every 2-byte push; 75, 76, 255, 256-byte pushes of each byte value; contents that look like opcodes and prefixes", Run: func(x *X) {
				v := x.Choose(256)
				checkPush(x, []byte{byte(v)}, true)
				for _, n := range []int{75, 76, 255, 256} {
					checkPush(x, rep(n, byte(v)), true)
				}
				for w := 0; w < 256; w++ {
					checkPush(x, []byte{byte(v), byte(w)}, w%16 == 0)
				}
				x.Step(260)
				x.Distinct(261)
				x.Validated(260)
			}},
			{Name: "part-lists", Bound: "every list of 0..4 (thorough 5) parts with lengths in {0,1,2,75,76,255,256,65535,65536 (at most one of the last two)}", Run: func(x *X) {
				ls := []int{0, 1, 2, 75, 76, 255, 256, 65535, 65536}
				n := x.Choose(5)
				if x.Thorough {
					n = x.Choose(6)
				}
				var parts, ne [][]byte
				var gs []*guard
				var want []byte
				var strs []string
				bigs := 0
				for i := 0; i < n; i++ {
					l := engine.Pick(x, ls)
					if l > 60000 {
						bigs++
					}
					if bigs > 1 {
						x.Prune()
					}
					d := pat(l, 40+i)
					g := mkGuard(d, 16)
					gs = append(gs, g)
					parts = append(parts, g.b())
					strs = append(strs, string(d))
					want = append(want, ref.Push(d)...)
					if l == 0 {
						d = []byte{0}
					}
					ne = append(ne, d)
				}
				try(x, "part lists", func() {
					e, err := script.EncodeParts(parts)
					if err != nil || !bytes.Equal(e, want) {
						x.Failf("EncodeParts list", "EncodeParts of lengths %v is wrong (err %v): %s", lensOf(parts), err, short(e))
					}
					dec, err := script.DecodeParts(e)
					if err != nil || !samePartList(dec, ne) {
						x.Failf("list round trip", "DecodeParts(EncodeParts) of lengths %v gives lengths %v, err %v", lensOf(parts), lensOf(dec), err)
					}
					s := scr([]byte{0x51})
					if err := s.AppendPushDataArray(parts); err != nil || !bytes.Equal(*s, cat([]byte{0x51}, want)) {
						x.Failf("AppendPushDataArray list", "AppendPushDataArray of lengths %v is wrong (err %v)", lensOf(parts), err)
					}
					s = scr([]byte{0x51})
					if err := s.AppendPushDataStrings(strs); err != nil || !bytes.Equal(*s, cat([]byte{0x51}, want)) {
						x.Failf("AppendPushDataStrings list", "AppendPushDataStrings of lengths %v is wrong (err %v)", lensOf(parts), err)
					}
				})
				for _, g := range gs {
					g.check(x, "part")
				}
				x.Statef("%v", lensOf(parts))
			}},
			{Name: "append-histories", Bound: "all histories of 4 (thorough 5) appends out of 12 (good and bad hex, empty, multi, opcodes) with the caller's data overwritten after each call", Run: func(x *X) {
				n := 4
				if x.Thorough {
					n = 5
				}
				s := &script.Script{}
				var m []byte
				h := ""
				for i := 0; i < n; i++ {
					op := x.Choose(12)
					h += fmt.Sprintf("%d ", op)
					d := pat([]int{3, 76, 0, 20}[op%4], 10*i+op)
					arg := cp(d)
					var err error
					bad := false
					try(x, "append", func() {
						switch op {
						case 0, 1, 2:
							err = s.AppendPushData(arg)
							m = append(m, ref.Push(d)...)
						case 3:
							err = s.AppendPushDataHexString(hx(arg))
							m = append(m, ref.Push(d)...)
						case 4:
							err = s.AppendPushDataString(string(arg))
							m = append(m, ref.Push(d)...)
						case 5:
							err = s.AppendPushDataArray([][]byte{arg, {1}})
							m = append(append(m, ref.Push(d)...), 1, 1)
						case 6:
							err = s.AppendPushDataStrings([]string{"x", string(arg), "yz"})
							m = append(append(append(m, 1, 'x'), ref.Push(d)...), 2, 'y', 'z')
						case 7:
							s.AppendOpCode(0x4c + byte(i))
							m = append(m, 0x4c+byte(i))
						case 8:
							s.AppendOpCode(byte(i))
							m = append(m, byte(i))
						case 9:
							err = s.AppendPushDataHexString("0g")
							bad = true
						case 10:
							err = s.AppendPushDataHexString("abc")
							bad = true
						case 11:
							err = s.AppendPushDataArray(nil)
						}
					})
					if bad != (err != nil) {
						x.Failf("append error", "history [%s]: error %v, want error %v", h, err, bad)
					}
					for j := range arg {
						arg[j] = 0xEE
					}
					if !bytes.Equal(*s, m) {
						x.Failf("append history", "history [%s]: script %s, want %s", h, short(*s), short(m))
					}
					if s.ToString() != hx(m) {
						x.Failf("ToString", "history [%s]: ToString is wrong", h)
					}
				}
				x.State(m)
			}},
			{Name: "hex-constructors", Bound: "NewFromHexString/NewFromBytes/ToString for every length 0..600 and each kind of bad hex", Run: func(x *X) {
				n := x.Choose(601)
				d := pat(n, 8)
				try(x, "constructors", func() {
					s, err := script.NewFromHexString(hx(d))
					if err != nil || !bytes.Equal(*s, d) || s.ToString() != hx(d) {
						x.Failf("NewFromHexString", "length %d, err %v", n, err)
					}
					s, err = script.NewFromHexString(strings.ToUpper(hx(d)))
					if err != nil || !bytes.Equal(*s, d) {
						x.Failf("NewFromHexString upper case", "length %d, err %v", n, err)
					}
					s = script.NewFromBytes(cp(d))
					if !bytes.Equal(*s, d) || s.ToString() != hx(d) {
						x.Failf("NewFromBytes", "length %d", n)
					}
					for _, bad := range []string{hx(d) + "0", hx(d) + "zz", "g" + hx(d), hx(d) + " ", "0x" + hx(d)} {
						if _, err := script.NewFromHexString(bad); err == nil {
							x.Failf("NewFromHexString accepts", "%q", bad)
						}
					}
				})
				x.Statef("%d", n)
			}},
		}})

	register(engine.Property{ID: "C10", Level: "model_checking",
		Rule:        "every byte string of the bound is decoded and compared, instruction by instruction, with an independent script parser; a state is a distinct script",
		Assumptions: []string{baseAssumption, "parts returned together with an error are not compared"},
		Scenarios: []engine.Scenario{
			{Name: "all-short", Bound: "every byte string of length 0..3, with exact capacity and (length 0..2) with junk beyond the length", Run: func(x *X) {
				a := x.Choose(256)
				decode10(x, []byte{byte(a)})
				if a == 0 {
					decode10(x, nil)
				}
				var buf [3]byte
				buf[0] = byte(a)
				for b := 0; b < 256; b++ {
					buf[1] = byte(b)
					decode10(x, buf[:2])
					for c := 0; c < 256; c++ {
						buf[2] = byte(c)
						decodeOne(x, buf[:3:3])
					}
				}
				x.Step(65792)
				x.Distinct(65793)
				x.Validated(65792)
			}},
			{Name: "direct-pushes", Bound: "every first byte x every total length 0..300, and followed by 1..3 other instructions", Run: func(x *X) {
				a := x.Choose(256)
				full := cat([]byte{byte(a)}, pat(302, a))
				for n := 1; n <= 300; n++ {
					decodeOne(x, full[:n:n])
					decodeOne(x, full[:n]) // the rest beyond the length
				}
				x.Step(600)
				x.Distinct(300)
				x.Validated(599)
			}},
			{Name: "pushdata1", Bound: "every PUSHDATA1 length 0..255 with 0..length+2 data bytes", Run: func(x *X) {
				l := x.Choose(256)
				full := cat([]byte{0x4c, byte(l)}, pat(260, l))
				for n := 0; n <= l+2; n++ {
					decodeOne(x, full[:n+2:n+2])
				}
				decodeOne(x, full[:l+1])
				x.Step(l + 3)
				x.Distinct(l + 3)
				x.Validated(l + 2)
			}},
			{Name: "pushdata2", Bound: "every PUSHDATA2 length 0..65535 with length-1, length, length+1, length+2 data bytes and 2 cut prefixes", Run: func(x *X) {
				hi := x.Choose(256)
				full := pat(65545, 1)
				full[0] = 0x4d
				for lo := 0; lo < 256; lo++ {
					l := hi<<8 | lo
					full[1], full[2] = byte(lo), byte(hi)
					for d := -1; d <= 2; d++ {
						if n := 3 + l + d; n >= 0 {
							full := full
							if d > 0 {
								full = cp(full[:n])
								full[n-1] = 0x51
								if d == 2 {
									full[n-2] = 0x52
								}
							}
							decodeOne(x, full[:n:n])
						}
					}
					decodeOne(x, full[:3+l-1+b2i(l == 0)])
				}
				x.Step(5 * 256)
				x.Distinct(4 * 256)
				x.Validated(5*256 - 1)
			}},
			{Name: "pushdata4", Bound: "PUSHDATA4 lengths 0..300, around 2^8, 2^16, 2^31, 2^32 (-40..+40) and 2^24, with length-1, length, length+1 data bytes when below 2^17 and 0..40 bytes otherwise", Run: func(x *X) {
				cs := []uint64{0, 1 << 8, 1 << 16, 1 << 24, 1 << 31, 1 << 32}
				c := engine.Pick(x, cs)
				hi := int64(40)
				if c == 0 {
					hi = 300
				}
				for d := int64(-40); d <= hi; d++ {
					l := uint32(c + uint64(d))
					h := cat([]byte{0x4e}, ref.LE(uint64(l), 4))
					if l < 1<<17 {
						full := cat(h, pat(int(l)+3, 2))
						for _, n := range []int{-1, 0, 1, 2} {
							if m := 5 + int(l) + n; m >= 5 {
								decodeOne(x, full[:m:m])
							}
						}
					} else {
						for n := 0; n <= 40; n++ {
							decodeOne(x, exact(cat(h, pat(n, 3))))
							decodeOne(x, mkGuard(cat(h, pat(n, 3)), 64).b())
						}
					}
					for n := 0; n < 5; n++ {
						decodeOne(x, exact(h[:n]))
						decodeOne(x, h[:n])
					}
					x.Step(10)
				}
				x.Statef("%d", c)
			}},
			{Name: "token-strings", Bound: "every sequence of up to 6 (thorough 7) tokens out of 13 (opcodes, complete pushes of every form, cut pushes)", Run: func(x *X) {
				toks := [][]byte{{0}, {0x4f}, {0x50}, {0x51}, {0xff}, {1, 0x4c}, {3, 0x4d, 0x4e, 0x4f}, {0x4c, 1, 0x6a}, {0x4c, 0}, {0x4d, 2, 0, 1, 2}, {0x4e, 1, 0, 0, 0, 9}, {0x4d, 3}, {2}}
				n := 6
				if x.Thorough {
					n = 7
				}
				var b []byte
				for i := 0; i < n; i++ {
					c := x.Choose(len(toks) + 1)
					if c == len(toks) {
						break
					}
					b = append(b, toks[c]...)
				}
				decode10(x, b)
				x.State(b)
			}},
			{Name: "push-contents", Bound: "a push of every length 1..600 and 65535..65537 x 12 contents in every push form that can hold it, alone, after and before each of 6 instructions", Run: func(x *X) {
				n := engine.Pick(x, lensAround(600, 1, 65536))
				d := fill(n, x.Choose(nFills))
				var forms [][]byte
				if n > 0 && n <= 75 {
					forms = append(forms, cat([]byte{byte(n)}, d))
				}
				if n <= 255 {
					forms = append(forms, cat([]byte{0x4c, byte(n)}, d))
				}
				if n <= 65535 {
					forms = append(forms, cat([]byte{0x4d}, ref.LE(uint64(n), 2), d))
				}
				forms = append(forms, cat([]byte{0x4e}, ref.LE(uint64(n), 4), d))
				for _, f := range forms {
					decodeOne(x, f)
					for _, o := range [][]byte{{0}, {0x6a}, {0x51}, {1, 0xff}, {0x4c, 0}, {0x4d, 1, 0, 7}} {
						decodeOne(x, cat(o, f))
						decodeOne(x, cat(f, o))
						decodeOne(x, exact(cat(o, f)[:len(f)+len(o)-1]))
					}
				}
				x.Step(19*len(forms) - 1)
				x.Validated(19*len(forms) - 1)
				x.State(d)
				x.Outcome(fmt.Sprintf("%d forms", len(forms)))
			}},
			{Name: "many-instructions", Bound: "1..1200 and 20000 repetitions of each of 9 instructions, complete or with the last byte missing", Run: func(x *X) {
				n := 1 + x.Choose(1201)
				if n > 1200 {
					n = 20000
				}
				t := [][]byte{{0}, {0x51}, {0x6a}, {0xac}, {1, 7}, {2, 1, 2}, {0x4c, 1, 5}, {0x4d, 1, 0, 6}, {0x4e, 1, 0, 0, 0, 8}}[x.Choose(9)]
				b := bytes.Repeat(t, n)
				decodeOne(x, b)
				decodeOne(x, exact(b[:len(b)-1]))
				decodeOne(x, b[:len(b)-1])
				x.Statef("%x %d", t, n)
				x.Outcome(fmt.Sprintf("%x", t))
			}},
			{Name: "strings", Bound: "DecodeStringParts for every hex text of up to 2 bytes, 1..3-character prefixes and 6 kinds of bad text at every position of a script", Run: func(x *X) {
				a := x.Choose(256)
				base := cat([]byte{0x76}, ref.Push(pat(20, a)), []byte{byte(a)})
				h := hx(base)
				try(x, "DecodeStringParts", func() {
					for c := 0; c < 256; c++ {
						decStr(x, hx([]byte{byte(a), byte(c)}))
					}
					decStr(x, h)
					decStr(x, strings.ToUpper(h))
					p := a % len(h)
					for _, bad := range []string{h[:p] + "g" + h[p+1:], h[:p] + " " + h[p+1:], h + "0", h[:1+2*(a%20)], "0x" + h, h[:p] + "\x00" + h[p+1:]} {
						if _, err := script.DecodeStringParts(bad); err == nil {
							x.Failf("DecodeStringParts accepts", "%q", bad)
						}
					}
				})
				x.Step(263)
				x.Statef("%d", a)
			}},
		}})

	register(engine.Property{ID: "C11", Level: "model_checking",
		Rule:        "names are compared with an independently written opcode table; every token sequence is converted in both directions; a state is a distinct script or text",
		Assumptions: []string{baseAssumption, "scripts with non-shortest or empty pushes and texts with repeated spaces are not covered"},
		Scenarios: []engine.Scenario{
			{Name: "names", Bound: "all 256 opcode names and 5 aliases, alone and between other opcodes; the name printed for all 178 non-push opcodes", Run: func(x *X) {
				c := byte(x.Choose(256))
				n := opName[c]
				try(x, "names", func() {
					asmParse(x, n, []byte{c})
					asmParse(x, "OP_DUP "+n+" OP_DROP", []byte{0x76, c, 0x75})
					for a, v := range opAlias {
						if v == c {
							asmParse(x, a, []byte{c})
							asmParse(x, a+" "+n, []byte{c, c})
						}
					}
					if isOpByte(c) {
						asmPrint(x, []byte{c}, n)
						asmPrint(x, []byte{0x76, c, 2, c, c, c}, "OP_DUP "+n+" "+hx([]byte{c, c})+" "+n)
					}
				})
				x.Statef("%d", c)
			}},
			{Name: "one-byte-pushes", Bound: "all 256 one-byte pushes and all 65536 two-byte pushes, between opcodes", Run: func(x *X) {
				v := x.Choose(256)
				try(x, "one-byte pushes", func() {
					d := []byte{byte(v)}
					asmBoth(x, cat([]byte{0x76}, ref.Push(d), []byte{0x87}), "OP_DUP "+hx(d)+" OP_EQUAL")
					asmBoth(x, ref.Push(d), hx(d))
					for w := 0; w < 256; w++ {
						d := []byte{byte(v), byte(w)}
						asmBoth(x, ref.Push(d), hx(d))
					}
				})
				x.Step(258)
				x.Distinct(258)
				x.Validated(257)
			}},
			{Name: "push-lengths", Bound: "pushes of every length 1..600 and 65530..65540 (thorough 1..66000), alone and between opcodes", Run: func(x *X) {
				lens := lensAround(600, 5, 65535)
				if x.Thorough {
					lens = lensAround(66000, 1, 1<<17)
				}
				n := engine.Pick(x, lens)
				if n == 0 {
					x.Prune()
				}
				d := pat(n, 5)
				try(x, "push lengths", func() {
					asmBoth(x, ref.Push(d), hx(d))
					asmBoth(x, cat([]byte{0}, ref.Push(d), []byte{0xac}), "OP_FALSE "+hx(d)+" OP_CHECKSIG")
				})
				x.Statef("%d", n)
			}},
			{Name: "push-contents", Bound: "pushes of every length 1..300 and 520, 65535, 65536 x 12 contents, before, between and after opcodes", Run: func(x *X) {
				n := engine.Pick(x, append(lensAround(300, 1, 65536), 520))
				if n == 0 {
					x.Prune()
				}
				d := fill(n, x.Choose(nFills))
				try(x, "push contents", func() {
					p, h := ref.Push(d), hx(d)
					asmBoth(x, p, h)
					asmBoth(x, cat(p, []byte{0x6a}), h+" OP_RETURN")
					asmBoth(x, cat([]byte{0x6a}, p), "OP_RETURN "+h)
					asmBoth(x, cat([]byte{0, 0x6a}, p, p, []byte{0x51}), "OP_FALSE OP_RETURN "+h+" "+h+" OP_TRUE")
				})
				x.Step(3)
				x.Validated(3)
				x.State(d)
				x.Outcome(fmt.Sprintf("prefix %d bytes", len(ref.Push(d))-n))
			}},
			{Name: "many-tokens", Bound: "1..130 and 19 more counts up to 5000 of each of 7 tokens and of pairs of them", Run: func(x *X) {
				n := engine.Pick(x, append(lensAround(130, 1, 200, 256, 500, 512, 1000, 1024), 5000))
				type tk struct {
					b []byte
					s string
				}
				toks := []tk{{[]byte{0}, "OP_FALSE"}, {[]byte{0x76}, "OP_DUP"}, {[]byte{0x6a}, "OP_RETURN"}, {[]byte{1, 0}, "00"}, {[]byte{2, 0xab, 0xcd}, "abcd"}, {ref.Push(pat(33, 1)), hx(pat(33, 1))}, {ref.Push(pat(76, 1)), hx(pat(76, 1))}}
				a, c := toks[x.Choose(7)], toks[x.Choose(7)]
				var b []byte
				var ss []string
				for i := 0; i < n; i++ {
					b, ss = append(b, a.b...), append(ss, a.s)
					if i%2 == 1 {
						b, ss = append(b, c.b...), append(ss, c.s)
					}
				}
				try(x, "many tokens", func() { asmBoth(x, b, strings.Join(ss, " ")) })
				x.Statef("%d %s %s", n, a.s, c.s)
				x.Outcome(a.s)
			}},
			{Name: "opcode-pairs", Bound: "every ordered pair of the non-push opcodes: alone, twice over, after OP_TRUE, and before and after a push (thorough: every ordered triple)", Run: func(x *X) {
				a, c := byte(x.Choose(256)), byte(x.Choose(256))
				if !isOpByte(a) || !isOpByte(c) {
					x.Prune()
				}
				na, nc := opName[a], opName[c]
				try(x, "opcode pairs", func() {
					asmBoth(x, []byte{a, c}, na+" "+nc)
					asmBoth(x, []byte{a, c, a, c}, na+" "+nc+" "+na+" "+nc)
					asmBoth(x, []byte{0x51, a, c}, opName[0x51]+" "+na+" "+nc)
					asmBoth(x, []byte{a, c, 2, 0xab, 0xcd}, na+" "+nc+" abcd")
					asmBoth(x, []byte{2, 0xab, 0xcd, a, c}, "abcd "+na+" "+nc)
					asmBoth(x, []byte{a, 2, 0xab, 0xcd, c}, na+" abcd "+nc)
				})
				x.Step(5)
				x.Validated(5)
				x.State([]byte{a, c})
				if x.Thorough {
					for d := 0; d < 256; d++ {
						if isOpByte(byte(d)) {
							try(x, "opcode triples", func() { asmBoth(x, []byte{a, c, byte(d)}, na+" "+nc+" "+opName[byte(d)]) })
							x.Step(1)
							x.Validated(1)
						}
					}
				}
			}},
			{Name: "sequences", Bound: "every sequence of 0..4 (thorough 5) tokens out of 16 (opcodes, pushes incl. ones that look like opcodes, names or prefixes)", Run: func(x *X) {
				type tk struct {
					b []byte
					s string
				}
				var toks []tk
				for _, c := range []byte{0, 0x4f, 0x50, 0x51, 0x60, 0x6a, 0x76, 0xac, 0xff} {
					toks = append(toks, tk{[]byte{c}, opName[c]})
				}
				for _, d := range [][]byte{{0}, {0x51}, {0x6a}, {0x4c}, {1, 0x51}, pat(75, 1), pat(76, 2)} {
					toks = append(toks, tk{ref.Push(d), hx(d)})
				}
				n := 4
				if x.Thorough {
					n = 5
				}
				var b []byte
				var ss []string
				for i := 0; i < n; i++ {
					c := x.Choose(len(toks) + 1)
					if c == len(toks) {
						break
					}
					b = append(b, toks[c].b...)
					ss = append(ss, toks[c].s)
				}
				try(x, "sequences", func() { asmBoth(x, b, strings.Join(ss, " ")) })
				x.State(b)
			}},
			{Name: "upper-case-data", Bound: "upper- and mixed-case hex data of lengths 1..80", Run: func(x *X) {
				d := pat(1+x.Choose(80), 6)
				try(x, "upper-case data", func() {
					asmParse(x, strings.ToUpper(hx(d)), ref.Push(d))
					asmParse(x, "OP_DUP "+strings.ToUpper(hx(d))+" OP_DROP", cat([]byte{0x76}, ref.Push(d), []byte{0x75}))
				})
				x.Statef("%d", len(d))
			}},
			{Name: "bad-text", Bound: "13 invalid sections at each of 4 positions of a text; every truncated push printed", Run: func(x *X) {
				bad := []string{"OP_FOO", "op_dup", "DUP", "0", "abc", "zz", "0x51", "OP_", "OP_DUP,", "-1", "OP_17", "OP_DATA_76", "12 3"}
				s := strings.Fields("OP_DUP 0102 OP_HASH160 ff")
				p := x.Choose(4)
				s[p] = engine.Pick(x, bad)
				txt := strings.Join(s, " ")
				try(x, "bad text", func() {
					if r, err := script.NewFromASM(txt); err == nil {
						x.Failf("NewFromASM accepts", "NewFromASM(%q) gives %x", txt, []byte(*r))
					}
				})
				x.StateS(txt)
			}},
			{Name: "print-malformed", Bound: "ToASM of every cut of scripts ending in each push form: an error, never a partial text without error", Run: func(x *X) {
				full := engine.Pick(x, [][]byte{cat([]byte{0x76}, ref.Push(pat(20, 1))), cat([]byte{0x76}, ref.Push(pat(80, 1))), cat([]byte{0x76}, ref.Push(pat(300, 1))), {0x51, 0x4e, 5, 0, 0, 0, 1, 2, 3, 4, 5}})
				n := x.Choose(310)
				if n > len(full) {
					x.Prune()
				}
				s := scr(full[:n])
				_, ok := ref.ParseScript(full[:n])
				var err error
				try(x, "ToASM", func() { _, err = s.ToASM() })
				if (err == nil) != ok {
					x.Failf("ToASM malformed", "ToASM(%x): err %v, well-formed %v", full[:n], err, ok)
				}
				x.State(full[:n])
			}},
		}})
}

func prefix1(x *X, d []byte) {
	n := len(d)
	var want []byte
	switch {
	case n <= 75:
		want = []byte{byte(n)}
	case n <= 255:
		want = []byte{0x4c, byte(n)}
	case n <= 65535:
		want = append([]byte{0x4d}, ref.LE(uint64(n), 2)...)
	default:
		want = append([]byte{0x4e}, ref.LE(uint64(n), 4)...)
	}
	p, err := script.GetPushDataPrefix(d)
	if err != nil || !bytes.Equal(p, want) {
		x.Failf("GetPushDataPrefix", "GetPushDataPrefix of %d bytes = %x, %v", n, p, err)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func lensOf(p [][]byte) []int {
	r := []int{}
	for _, b := range p {
		r = append(r, len(b))
	}
	return r
}

func samePartList(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// decodeOne compares DecodeParts(b) with the model.
func decodeOne(x *X, b []byte) {
	ops, ok := ref.ParseScript(b)
	var parts [][]byte
	var err error
	if p := caught(func() { parts, err = script.DecodeParts(b) }); p != "" {
		x.Failf("DecodeParts panics", "DecodeParts(%s) (capacity %d) panics: %s", short(b), cap(b), p)
	}
	if (err == nil) != ok {
		x.Failf("DecodeParts acceptance", "DecodeParts(%s) (capacity %d): err %v, well-formed %v", short(b), cap(b), err, ok)
	}
	if !ok {
		return
	}
	if len(parts) != len(ops) {
		x.Failf("DecodeParts count", "DecodeParts(%s): %d parts, want %d", short(b), len(parts), len(ops))
	}
	for i, o := range ops {
		if o.Push && !bytes.Equal(parts[i], o.Data) || !o.Push && (len(parts[i]) != 1 || parts[i][0] != o.Code) {
			x.Failf("DecodeParts part", "DecodeParts(%s): part %d is %s", short(b), i, short(parts[i]))
		}
	}
}

func decode10(x *X, b []byte) {
	decodeOne(x, exact(b))
	g := mkGuard(b, 32)
	decodeOne(x, g.b())
	g.check(x, "DecodeParts")
}

func decStr(x *X, h string) {
	b := unhex(h)
	ops, ok := ref.ParseScript(b)
	parts, err := script.DecodeStringParts(h)
	if (err == nil) != ok {
		x.Failf("DecodeStringParts acceptance", "%q: err %v, well-formed %v", h, err, ok)
	}
	if ok {
		if len(parts) != len(ops) {
			x.Failf("DecodeStringParts count", "%q", h)
		}
		for i, o := range ops {
			w := o.Data
			if !o.Push {
				w = []byte{o.Code}
			}
			if !bytes.Equal(parts[i], w) {
				x.Failf("DecodeStringParts part", "%q part %d", h, i)
			}
		}
	}
}

func asmParse(x *X, txt string, want []byte) {
	s, err := script.NewFromASM(txt)
	if err != nil || !bytes.Equal(*s, want) {
		var g []byte
		if s != nil {
			g = *s
		}
		x.Failf("NewFromASM", "NewFromASM(%q) = %s, %v; want %s", cut(txt), short(g), err, short(want))
	}
}

func asmPrint(x *X, b []byte, want string) {
	g := mkGuard(b, 8)
	s := script.NewFromBytes(g.b())
	t, err := s.ToASM()
	if err != nil || t != want {
		x.Failf("ToASM", "ToASM(%s) = %q, %v; want %q", short(b), cut(t), err, cut(want))
	}
	g.check(x, "ToASM")
}

func asmBoth(x *X, b []byte, txt string) {
	asmPrint(x, b, txt)
	asmParse(x, txt, b)
}

func cut(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

var _ = output.NewOpReturn
