package ops

import (
	"encoding/hex"
	"fmt"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/utils"

	"verif/mc/ref"
)

// Large lists calls on large arguments, for which a library may start goroutines
// of its own. It is the same in every process.
func Large() []Op {
	var l []Op
	add := func(name string, f func(r *Res)) { l = append(l, Op{Name: name, Big: true, Run: f}) }
	sum := func(b []byte) []byte { return ref.Sha256(b) }
	for _, n := range []int{70, 300, 1100} {
		n := n
		add(fmt.Sprintf("merkle branches, %d hashes", n), func(r *Res) {
			b := block.GetMerkleBranches(hashes(n, 10))
			r.Add(b, block.BuildMerkleRootFromCoinbase(pat(32, 9), b))
		})
		add(fmt.Sprintf("merkle proof, %d branches", n), func(r *Res) {
			s, e := block.MerkleRootFromBranches(hx(pat(32, 4)), 5, hashes(n, 30))
			r.Add(s, e, block.BuildMerkleRootFromCoinbase(pat(32, 9), hashes(n, 30)))
		})
		add(fmt.Sprintf("parse+serialise, %d inputs and outputs", n), func(r *Res) {
			raw := Tx(n, n, 0).Bytes()
			tx, err := transaction.NewFromBytes(append([]byte{}, raw...))
			r.Add(err)
			if err == nil {
				r.Add(sum(tx.ToBytes()), tx.GetTxID(), tx.GetTotalOutputSatoshis(), sum(tx.ToBytesWithClearedInputs(n/2, pat(25, 1))))
			}
			tx, err = transaction.NewFromString(hex.EncodeToString(raw))
			r.Add(err)
			if err == nil {
				r.Add(tx.ToString() == hex.EncodeToString(raw))
			}
		})
		add(fmt.Sprintf("sighash, %d inputs and outputs", n), func(r *Res) {
			h, err := Lib(Tx(n, n, 0)).GetInputSignatureHash(uint32(n/3), 0x41)
			r.Add(h, err)
		})
		add(fmt.Sprintf("script of %d parts", n), func(r *Res) {
			parts := make([][]byte, n)
			for i := range parts {
				parts[i] = pat(1+i%90, i)
			}
			var code []byte
			for _, p := range parts {
				code = append(code, ref.Push(p)...)
			}
			code = append(code, 0x51, 0x75, 0xac)
			b, err := script.EncodeParts(parts)
			r.Add(sum(b), err)
			s := ls(code)
			asm, err := s.ToASM()
			r.Add(sum([]byte(asm)), err)
			back, err := script.NewFromASM(asm)
			r.Add(err, err == nil && s.ToString() == back.ToString())
			p, err := script.DecodeParts(code)
			r.Add(len(p), err)
			for _, x := range p {
				r.Add(x)
			}
			r.Add(s.IsMultisigOut(), s.IsData(), s.IsP2PK())
		})
		add(fmt.Sprintf("sort %d arrays", n), func(r *Res) {
			a := make([][]byte, n)
			for i := range a {
				a[i] = pat(33, (i*7)%n)
			}
			r.Add(utils.SortByteArrays(a))
		})
	}
	for _, n := range []int{5000, 100000} {
		n := n
		add(fmt.Sprintf("hashes of %d bytes", n), func(r *Res) {
			big := pat(n, 5)
			r.Add(crypto.Sha256(big), crypto.Sha256d(big), crypto.Ripemd160(big), crypto.Hash160(big))
		})
		add(fmt.Sprintf("cipher, %d bytes", n), func(r *Res) {
			big := pat(n, 5)
			c := aesOf(16)
			ct, err := crypto.Encrypt(c, big)
			d, err2 := crypto.Decrypt(c, ct)
			r.Add(err, err2, sum(d), len(ct))
		})
		add(fmt.Sprintf("BIP276 of %d bytes", n), func(r *Res) {
			big := pat(n, 5)
			s := address.EncodeBIP276("bitcoin-script", 1, 1, big)
			p, v, w, d, err := address.DecodeBIP276(s)
			r.Add(sum([]byte(s)), p, v, w, sum(d), err)
		})
	}
	add("sign 80 inputs", func(r *Res) {
		tx := Lib(Tx(80, 3, 0))
		e := tx.SignAuto(&signature.InternalSigner{PrivateKey: key(0), SigHashFlag: 0x41})
		r.Add(tx, e)
	})
	add("multisig of 16 keys", func(r *Res) {
		rs, e := script.NewRedeemScript(2)
		r.Add(e)
		for i := 0; i < 16; i++ {
			r.Add(rs.AddPublicKey(xpubs[i%len(xpubs)], []uint32{uint32(i), 3}))
		}
		r.Add(rs.GetRedeemScript(), rs.GetAddress())
	})
	return l
}
