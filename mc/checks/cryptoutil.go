package checks

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"encoding/base64"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/utils"

	"verif/mc/engine"
	"verif/mc/ref"
)

// ---- C25: encryption ------------------------------------------------------------

// cfb is full-block CFB, written out.
func cfb(b cipher.Block, iv, in []byte, decrypt bool) []byte {
	out := make([]byte, len(in))
	s, o := cp(iv), make([]byte, 16)
	for i := range in {
		if i%16 == 0 {
			b.Encrypt(o, s)
		}
		out[i] = in[i] ^ o[i%16]
		c := out[i]
		if decrypt {
			c = in[i]
		}
		s[i%16] = c
	}
	return out
}

func aesKey(k int) cipher.Block {
	b, err := aes.NewCipher(pat([]int{16, 24, 32}[k%3], 40+k))
	if err != nil {
		panic(err)
	}
	return b
}

// cipherRound encrypts and decrypts one text.
func cipherRound(x *X, k int, text []byte) []byte {
	b := aesKey(k)
	g := mkGuard(text, 20)
	var ct []byte
	var err error
	try(x, "Encrypt", func() { ct, err = crypto.Encrypt(b, g.b()) })
	if err != nil {
		x.Failf("Encrypt fails", "Encrypt of %d bytes: %v", len(text), err)
	}
	g.check(x, "Encrypt")
	if len(ct) < 16 {
		x.Failf("ciphertext size", "Encrypt of %d bytes gives %d bytes", len(text), len(ct))
	}
	plain, derr := base64.StdEncoding.DecodeString(string(cfb(b, ct[:16], ct[16:], true)))
	if derr != nil || !bytes.Equal(plain, text) {
		x.Failf("ciphertext", "the ciphertext of %s is not base64 under AES-CFB with its first 16 bytes as IV: %s", short(text), short(ct))
	}
	decrypts(x, k, ct)
	return ct
}

// decrypts compares Decrypt with the model on one ciphertext.
func decrypts(x *X, k int, ct []byte) {
	b := aesKey(k)
	g := mkGuard(ct, 12)
	var d []byte
	var err error
	if p := caught(func() { d, err = crypto.Decrypt(b, g.b()) }); p != "" {
		x.Failf("Decrypt panics", "Decrypt of %s panics: %s", short(ct), p)
	}
	g.check(x, "Decrypt")
	var want []byte
	bad := len(ct) < 16
	if !bad {
		var e error
		want, e = base64.StdEncoding.DecodeString(string(cfb(b, ct[:16], ct[16:], true)))
		bad = e != nil
	}
	if bad && err == nil {
		x.Failf("Decrypt accepts", "Decrypt of %s (%d bytes) gives %s without error", short(ct), len(ct), short(d))
	}
	if !bad && (err != nil || !bytes.Equal(d, want)) {
		x.Failf("Decrypt", "Decrypt of %s gives %s, %v; want %s", short(ct), short(d), err, short(want))
	}
	x.Outcome(fmt.Sprintf("decryption error %v", bad))
}

// modelCipher builds a ciphertext without the library.
func modelCipher(k int, iv, plain []byte) []byte {
	return cat(iv, cfb(aesKey(k), iv, plain, false))
}

// reader delivers counted bytes in chunks and fails after a limit.
type reader struct {
	given []byte
	chunk int
	limit int
	next  byte
}

var errEntropy = errors.New("no entropy")

func (r *reader) Read(p []byte) (int, error) {
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	if len(r.given)+n > r.limit {
		n = r.limit - len(r.given)
	}
	if n == 0 && len(p) > 0 {
		return 0, errEntropy
	}
	for i := 0; i < n; i++ {
		r.next = r.next*5 + 77
		p[i] = r.next
		r.given = append(r.given, r.next)
	}
	return n, nil
}

func init() {
	register(engine.Property{ID: "C25", Level: "model_checking",
		Rule:        "every (key size, text) of the bound is encrypted, the ciphertext is opened by an independent AES-CFB, and decrypted by the library; every altered ciphertext is judged by the model; a state is a distinct (key, text or ciphertext)",
		Assumptions: []string{baseAssumption, "block ciphers with 16-byte blocks only; entropy comes from crypto/rand.Reader"},
		Scenarios: []engine.Scenario{
			{Name: "round-trips", Bound: "AES-128, 192, 256 (6 keys) x every length 0..700 (thorough 0..6000); every length 0..300 x 12 contents; 1-byte texts of every value, 2-byte texts of every value (thorough)", Run: func(x *X) {
				k := x.Choose(6)
				switch x.Choose(3) {
				case 2:
					n, c := x.Choose(301), x.Choose(nFills)
					cipherRound(x, k, fill(n, c))
					x.Statef("%d fill %d %d", k, n, c)
					return
				case 1:
					n := 700
					if x.Thorough {
						n = 6000
					}
					n = x.Choose(n + 1)
					cipherRound(x, k, pat(n, n+k))
					x.Statef("%d len %d", k, n)
					return
				}
				a := byte(x.Choose(256))
				cipherRound(x, k, []byte{a})
				x.Statef("%d byte %d", k, a)
				if x.Thorough {
					for b := 0; b < 256; b++ {
						cipherRound(x, k, []byte{a, byte(b)})
						x.Validated(1)
					}
					x.Distinct(256)
				}
			}},
			{Name: "model-ciphertexts", Bound: "ciphertexts made by the model: 3 IVs x plain texts: base64 of lengths 0..40, every truncation of it, with line breaks, without padding, url alphabet", Run: func(x *X) {
				k := x.Choose(6)
				iv := [][]byte{rep(16, 0), rep(16, 0xff), pat(16, 9)}[x.Choose(3)]
				n := x.Choose(41)
				s := base64.StdEncoding.EncodeToString(pat(n, n))
				switch x.Choose(4) {
				case 1:
					s = s[:x.Choose(57)%(len(s)+1)]
				case 2:
					s = base64.RawURLEncoding.EncodeToString(pat(n, n))
				case 3:
					p := x.Choose(57) % (len(s) + 1)
					s = s[:p] + "\n" + s[p:]
				}
				ct := modelCipher(k, iv, []byte(s))
				decrypts(x, k, ct)
				x.State(append(ct, byte(k)))
			}},
			{Name: "altered", Bound: "ciphertexts of texts of 0..6 bytes: every byte replaced by every value; every prefix; wrong key", Run: func(x *X) {
				k, n := x.Choose(3), x.Choose(7)
				ct := modelCipher(k, pat(16, 3), []byte(base64.StdEncoding.EncodeToString(pat(n, 5))))
				p := x.Choose(25)
				if p >= len(ct) {
					x.Prune()
				}
				decrypts(x, k, ct[:p])
				decrypts(x, k+3, ct)
				for v := 0; v < 256; v++ {
					c := cp(ct)
					c[p] = byte(v)
					decrypts(x, k, c)
					x.State(append(c, byte(k)))
					x.Validated(1)
				}
			}},
			{Name: "short", Bound: "every length 0..15 over 3 patterns, and every length 16..40: an error for less than 16 bytes, no panic", Run: func(x *X) {
				n := x.Choose(41)
				c := [][]byte{rep(n, 0), rep(n, 0xff), pat(n, n)}[x.Choose(3)]
				if n == 0 && x.Bool() {
					c = nil
				}
				decrypts(x, 2, c)
				x.State(c)
			}},
			{Name: "repeated", Bound: "histories of 1..6 Encrypt and Decrypt calls on the same key object: each result independent of the earlier ones, earlier results unchanged", Run: func(x *X) {
				b := aesKey(1)
				var cts, snap [][]byte
				for i := 0; i < 6; i++ {
					if x.Bool() && len(cts) > 0 {
						j := x.Choose(3)
						ct := cts[j%len(cts)]
						d, err := crypto.Decrypt(b, ct)
						if err != nil || !bytes.Equal(d, pat(5+j%len(cts), j%len(cts))) {
							x.Failf("history Decrypt", "call %d: Decrypt of earlier ciphertext %d gives %x, %v", i, j, d, err)
						}
						for q := range d {
							d[q] = 0
						}
					} else {
						n := len(cts)
						ct, err := crypto.Encrypt(b, pat(5+n, n))
						if err != nil {
							x.Failf("history Encrypt", "%v", err)
						}
						for _, o := range snap {
							if bytes.Equal(o[:16], ct[:16]) {
								x.Failf("repeated IV", "two encryptions used the same IV %x", ct[:16])
							}
						}
						cts, snap = append(cts, ct), append(snap, cp(ct))
					}
					for q := range cts {
						if !bytes.Equal(cts[q], snap[q]) {
							x.Failf("earlier ciphertext changed", "call %d changed the ciphertext of call %d", i, q)
						}
					}
				}
				x.Statef("%d", len(cts))
			}},
			{Name: "entropy-faults", Serial: true, Bound: "entropy source which delivers chunks of 1..17 bytes and fails after 0..40 bytes, over 1..3 encryptions: either the whole IV is fresh entropy, or an error", Run: func(x *X) {
				r := &reader{chunk: 1 + x.Choose(17), limit: x.Choose(41)}
				n := 1 + x.Choose(3)
				old := rand.Reader
				rand.Reader = r
				defer func() { rand.Reader = old }()
				b := aesKey(0)
				var fails int
				var ivs [][]byte
				for i := 0; i < n; i++ {
					at := len(r.given)
					var ct []byte
					var err error
					try(x, "Encrypt", func() { ct, err = crypto.Encrypt(b, []byte("text")) })
					if err != nil {
						if r.limit-at >= 16 {
							x.Failf("Encrypt fails", "Encrypt fails although 16 bytes of entropy are available: %v", err)
						}
						fails++
						continue
					}
					if len(ct) < 16 || len(r.given)-at < 16 || !bytes.Contains(r.given[at:], ct[:16]) {
						x.Failf("IV is not entropy", "encryption %d: IV %x but the entropy delivered was %x", i, ct, r.given[at:])
					}
					ivs = append(ivs, ct[:16])
				}
				x.Statef("%d %d %d", r.chunk, r.limit, n)
				x.Outcome(fmt.Sprintf("%d encrypted, %d failed", len(ivs), fails))
			}},
		}})

	register(engine.Property{ID: "C28", Level: "model_checking",
		Rule:        "every message of the bound is hashed and compared with independent implementations of SHA-256 and RIPEMD-160; a state is a distinct message",
		Assumptions: []string{"values outside the stated alphabets are not covered"},
		Scenarios: []engine.Scenario{
			{Name: "lengths", Bound: "every length 0..1200 (thorough 0..6000) x 3 patterns x spare capacity {0,70}; nil; every length 0..600 x 12 contents; lengths around 2^12..2^20", Run: func(x *X) {
				switch x.Choose(3) {
				case 1:
					hash4(x, fill(x.Choose(601), x.Choose(nFills)), 3)
					return
				case 2:
					n := engine.Pick(x, lensAround(-1, 1, 1<<12, 1<<13, 1<<14, 1<<15, 1<<16, 1<<17, 1<<20))
					hash4(x, fill(n, x.Choose(3)), 0)
					return
				}
				n := 1200
				if x.Thorough {
					n = 6000
				}
				n = x.Choose(n + 1)
				m := [][]byte{pat(n, n), rep(n, 0), rep(n, 0x80)}[x.Choose(3)]
				if n == 0 && x.Bool() {
					m = nil
				}
				hash4(x, m, 70*x.Choose(2))
			}},
			{Name: "short", Bound: "every message of 0..2 bytes (thorough: also every 3-byte message)", Run: func(x *X) {
				a, b := byte(x.Choose(256)), byte(0)
				hash4(x, []byte{a}, 0)
				for i := 0; i < 256; i++ {
					b = byte(i)
					hash4(x, []byte{a, b}, 4)
					if x.Thorough {
						for c := 0; c < 256; c++ {
							hash4(x, []byte{a, b, byte(c)}, 4)
						}
					}
				}
				x.Validated(256)
			}},
			{Name: "bits", Bound: "single set or cleared bits at every position of messages of 20, 32, 55, 56, 64, 65, 119, 120 bytes", Run: func(x *X) {
				n := []int{20, 32, 55, 56, 64, 65, 119, 120}[x.Choose(8)]
				p := x.Choose(960)
				if p >= 8*n {
					x.Prune()
				}
				m := rep(n, []byte{0, 0xff}[x.Choose(2)])
				m[p/8] ^= 1 << uint(p%8)
				hash4(x, m, 0)
			}},
			{Name: "sequences", Bound: "every sequence of 4 calls of the four functions over 3 messages: earlier results unchanged, results not shared", Run: func(x *X) {
				ms := [][]byte{nil, pat(32, 1), pat(100, 2)}
				var got, want [][]byte
				for i := 0; i < 4; i++ {
					f, m := x.Choose(4), engine.Pick(x, ms)
					r := hashFns[f].f(exact(m))
					got, want = append(got, r), append(want, hashFns[f].ref(m))
					for j := range got {
						if !bytes.Equal(got[j], want[j]) {
							x.Failf("sequence of hashes", "after call %d the result of call %d is %x, want %x", i, j, got[j], want[j])
						}
					}
					if i == 1 { // the caller overwrites a result
						for q := range r {
							r[q] ^= 0xff
							want[i] = cp(r)
						}
					}
				}
				x.Statef("%x", bytes.Join(got, nil))
			}},
		}})

	register(engine.Property{ID: "C29", Level: "model_checking",
		Rule:        "every argument of the bound is compared with the definition of the helper; a state is a distinct argument",
		Assumptions: []string{baseAssumption, "not judged: GetLittleEndianBytes with a size below 4, Decode32Byte with more than 32 bytes, ReverseHexString of text which is not ASCII"},
		Scenarios: []engine.Scenario{
			{Name: "reverse", Bound: "ReverseBytes and ReverseHexString of every length 0..600 x 12 contents (odd text lengths too), every text of up to 5 characters over {0,1,a,F}", Run: func(x *X) {
				if x.Bool() {
					n := x.Choose(601)
					b := fill(n, x.Choose(nFills))
					g := mkGuard(b, 8)
					var r, rr []byte
					try(x, "ReverseBytes", func() { r = utils.ReverseBytes(g.b()); rr = utils.ReverseBytes(r) })
					if !bytes.Equal(r, ref.Rev(b)) || !bytes.Equal(rr, b) {
						x.Failf("ReverseBytes", "ReverseBytes(%s) = %s", short(b), short(r))
					}
					for i := range r {
						r[i] ^= 0xff
					}
					g.check(x, "ReverseBytes (or the result shares memory)")
					revHex(x, hx(b))
					revHex(x, strings.ToUpper(hx(b)))
					if n > 0 {
						revHex(x, hx(b)[1:])
					}
					x.State(b)
					return
				}
				s := ""
				for i := 0; i < 5; i++ {
					k := x.Choose(5)
					if k == 4 {
						break
					}
					s += string("01aF"[k])
				}
				revHex(x, s)
				x.StateS("s" + s)
			}},
			{Name: "sort", Bound: "every list of 0..5 (thorough 6) arrays out of 6 (empty, prefixes, equal, 33 bytes), every permutation of 7 keys", Run: func(x *X) {
				pool := [][]byte{nil, {0}, {0, 0}, {1}, {0xff}, pat(33, 1)}
				n := 6
				if x.Thorough {
					n = 7
				}
				var l [][]byte
				if x.Bool() {
					for i := 0; i < n-1; i++ {
						k := x.Choose(7)
						if k == 6 {
							break
						}
						l = append(l, cp(pool[k]))
					}
				} else {
					var left [][]byte
					for i := 0; i < 7; i++ {
						left = append(left, append([]byte{byte(2 + i%2)}, pat(32, i)...))
					}
					for len(left) > 0 {
						k := x.Choose(len(left))
						l = append(l, left[k])
						left = append(append([][]byte{}, left[:k]...), left[k+1:]...)
					}
				}
				want := append([][]byte{}, l...)
				sort.SliceStable(want, func(i, j int) bool { return bytes.Compare(want[i], want[j]) < 0 })
				st := bytes.Join(l, []byte{0xee, 0xdd})
				var g [][]byte
				try(x, "SortByteArrays", func() { g = utils.SortByteArrays(l) })
				if !samePartList(g, want) {
					x.Failf("SortByteArrays", "SortByteArrays gives %x, want %x", g, want)
				}
				x.State(st)
			}},
			{Name: "sort-large", Bound: "lists of every size 0..300 and 1000 in 7 arrangements (random, ascending, descending, equal, two values, common prefix, mixed lengths)", Run: func(x *X) {
				n := x.Choose(302)
				if n == 301 {
					n = 1000
				}
				k := x.Choose(7)
				var l [][]byte
				for i := 0; i < n; i++ {
					c := ref.LE(uint64(i), 4)
					c[0], c[1], c[2], c[3] = c[3], c[2], c[1], c[0]
					switch k {
					case 0:
						c = ref.Sha256(c)
					case 2:
						for j := range c {
							c[j] = ^c[j]
						}
					case 3:
						c = pat(33, 1)
					case 4:
						c = pat(33, 1+int(ref.Sha256(c)[0]&1))
					case 5:
						c = cat(pat(32, 1), ref.Sha256(c)[:1+i%3])
					case 6:
						c = ref.Sha256(c)[:i%33]
					}
					l = append(l, c)
				}
				want := append([][]byte{}, l...)
				sort.SliceStable(want, func(i, j int) bool { return bytes.Compare(want[i], want[j]) < 0 })
				var g [][]byte
				try(x, "SortByteArrays", func() { g = utils.SortByteArrays(l) })
				if !samePartList(g, want) {
					x.Failf("SortByteArrays large", "SortByteArrays of %d arrays, arrangement %d, is not sorted", n, k)
				}
				x.Statef("%d %d", n, k)
				x.Outcome(fmt.Sprintf("arrangement %d", k))
			}},
			{Name: "equals-lengths", Bound: "every pair of lengths 0..540 with one array a prefix of the other (thorough 0..1100), and pairs differing by 2^8, 2^9, 2^16, 2^17 in length", Run: func(x *X) {
				n := 541
				if x.Thorough {
					n = 1101
				}
				n = x.Choose(n)
				full := pat(1101, 4)
				zero := rep(1101, 0)
				cmp := func(a, b []byte) {
					var r bool
					if p := caught(func() { r = utils.Equals(a, b) }); p != "" {
						x.Failf("Equals panics", "Equals of lengths %d and %d panics: %s", len(a), len(b), p)
					}
					if r != bytes.Equal(a, b) {
						x.Failf("Equals lengths", "Equals of lengths %d and %d (common prefix) = %v", len(a), len(b), r)
					}
				}
				for m := 0; m <= n; m++ {
					cmp(full[:n], full[:m])
					cmp(full[:m], full[:n])
					cmp(zero[:n], zero[:m])
				}
				for _, d := range []int{1 << 8, 1 << 9, 1 << 16, 1 << 17} {
					l := pat(n+d, 4)
					cmp(l, l[:n])
					cmp(l[:n], l)
					if n < 8 {
						l[n+d-1] ^= 1
						cmp(l, pat(n+d, 4))
					}
				}
				x.Step(3*n + 8)
				x.Validated(3*n + 8)
				x.Distinct(3 * n)
				x.Statef("%d", n)
				x.Outcome("pairs of lengths")
			}},
			{Name: "little-endian", Bound: "every byte of the value set to every value over 3 backgrounds, sizes 4..12; sizes 4..300 x 8 values", Run: func(x *X) {
				if x.Bool() {
					n, u := 4+x.Choose(297), engine.Pick(x, u32s)
					var b []byte
					try(x, "GetLittleEndianBytes", func() { b = utils.GetLittleEndianBytes(u, uint32(n)) })
					if !bytes.Equal(b, ref.LE(uint64(u), n)) {
						x.Failf("GetLittleEndianBytes", "GetLittleEndianBytes(%#x, %d) = %x", u, n, b)
					}
					x.Statef("%x %d", u, n)
					return
				}
				p, v, n := x.Choose(4), x.Choose(256), 4+x.Choose(9)
				u := []uint32{0, 0xffffffff, 0x12345678}[x.Choose(3)]
				u = u&^(0xff<<uint(8*p)) | uint32(v)<<uint(8*p)
				var b []byte
				try(x, "GetLittleEndianBytes", func() { b = utils.GetLittleEndianBytes(u, uint32(n)) })
				if !bytes.Equal(b, ref.LE(uint64(u), n)) {
					x.Failf("GetLittleEndianBytes", "GetLittleEndianBytes(%#x, %d) = %x", u, n, b)
				}
				x.Statef("%x %d", u, n)
			}},
			{Name: "equals", Bound: "every pair of arrays of length 0..3 over {0,1,ff} and nil; pairs of length 1..80 differing at one position", Run: func(x *X) {
				eq := func(a, b []byte) {
					ga, gb := mkGuard(a, 4), mkGuard(b, 4)
					var r bool
					try(x, "Equals", func() { r = utils.Equals(ga.b(), gb.b()) })
					if r != bytes.Equal(a, b) {
						x.Failf("Equals", "Equals(%x, %x) = %v", a, b, r)
					}
					ga.check(x, "Equals")
					gb.check(x, "Equals")
					x.Statef("%x|%x", a, b)
				}
				if x.Bool() {
					n, p, v := 1+x.Choose(80), x.Choose(80), x.Choose(4)
					a := pat(n, 1)
					b := cp(a)
					b[p%n] ^= []byte{0, 1, 0x80, 0xff}[v]
					eq(a, b)
					eq(b, a)
					return
				}
				mk := func() []byte {
					var r []byte
					for i := 0; i < 3; i++ {
						k := x.Choose(4)
						if k == 3 {
							break
						}
						r = append(r, []byte{0, 1, 0xff}[k])
					}
					return r
				}
				a := mk()
				eq(a, mk())
			}},
			{Name: "decode32", Bound: "hex texts of 0..32 bytes and odd lengths, upper or lower case; every position of 64 replaced by each of 8 characters", Run: func(x *X) {
				s := hx(pat(32, 4))
				switch x.Choose(3) {
				case 0:
					s = s[:x.Choose(65)]
				case 1:
					s = strings.ToUpper(hx(pat(32, 5+x.Choose(50))))
				default:
					b := []byte(s)
					b[x.Choose(64)] = "gG \n\x00-:A"[x.Choose(8)]
					s = string(b)
				}
				var r [32]byte
				var err error
				if p := caught(func() { r, err = utils.Decode32Byte(s) }); p != "" {
					x.Failf("Decode32Byte panics", "Decode32Byte(%q) panics: %s", s, p)
				}
				ok := len(s) == 64 && strings.Trim(s, "0123456789abcdefABCDEF") == ""
				if ok != (err == nil) {
					x.Failf("Decode32Byte error", "Decode32Byte(%q): err = %v", s, err)
				}
				if ok && !bytes.Equal(r[:], unhex(s)) {
					x.Failf("Decode32Byte", "Decode32Byte(%q) = %x", s, r)
				}
				x.StateS(s)
				x.Outcome(fmt.Sprintf("valid %v", ok))
			}},
		}})
}

var hashFns = []struct {
	name   string
	f, ref func([]byte) []byte
}{
	{"Sha256", crypto.Sha256, ref.Sha256},
	{"Sha256d", crypto.Sha256d, func(b []byte) []byte { return ref.Sha256(ref.Sha256(b)) }},
	{"Ripemd160", crypto.Ripemd160, ref.Ripemd160},
	{"Hash160", crypto.Hash160, func(b []byte) []byte { return ref.Ripemd160(ref.Sha256(b)) }},
}

func hash4(x *X, m []byte, spare int) {
	g := mkGuard(m, spare)
	arg := g.b()
	if m == nil && spare == 0 {
		arg = nil
	}
	for _, h := range hashFns {
		var r []byte
		try(x, h.name, func() { r = h.f(arg) })
		if w := h.ref(m); !bytes.Equal(r, w) {
			x.Failf(h.name, "%s(%s) = %x, want %x", h.name, short(m), r, w)
		}
		for i := range r {
			r[i] ^= 0xff
		}
		g.check(x, h.name)
	}
	x.State(m)
	x.Outcome(fmt.Sprintf("%d blocks", min(20, (len(m)+8)/64+1)))
}

func revHex(x *X, s string) {
	var r string
	try(x, "ReverseHexString", func() { r = utils.ReverseHexString(s) })
	e := s
	if len(e)%2 == 1 {
		e = "0" + e
	}
	w := ""
	for i := len(e); i > 0; i -= 2 {
		w += e[i-2 : i]
	}
	if !strings.EqualFold(r, w) {
		x.Failf("ReverseHexString", "ReverseHexString(%q) = %q, want %q", cut(s), cut(r), cut(w))
	}
}
