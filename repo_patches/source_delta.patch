From c4a7c91f500fed935095987c0fa294c5025c86d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 01/22] fix: reject truncated and oversized lengths when
 parsing transactions

DecodeVarInt panicked (or read into the spare capacity of the slice) on an
incomplete VarInt, and a huge script length overflowed int in the input and
output parsers, which then panicked.
---
 transaction/Transaction.go   |  6 ++++++
 transaction/input/Input.go   |  4 ++++
 transaction/output/Output.go |  4 ++++
 utils/VarInt.go              | 18 ++++++++++++++++++
 4 files changed, 32 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index b7aa9f8..92dda51 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -77,6 +77,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 
 	inputCount, size := utils.DecodeVarInt(b[offset:])
 	offset += size
+	if size == 0 {
+		return nil, fmt.Errorf("incomplete input count")
+	}
 
 	// create inputs
 	var i uint64
@@ -93,6 +96,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 	// create outputs
 	outputCount, size := utils.DecodeVarInt(b[offset:])
 	offset += size
+	if size == 0 {
+		return nil, fmt.Errorf("incomplete output count")
+	}
 	for i = 0; i < outputCount; i++ {
 		o, size, err := output.NewFromBytes(b[offset:])
 		if err != nil {
diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 170ac29..61ddc36 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -58,6 +58,10 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 	l, size := utils.DecodeVarInt(bytes[offset:])
 	offset += size
 
+	if size == 0 || l > uint64(len(bytes)) {
+		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
+	}
+
 	totalLength := offset + int(l) + 4 // 4 bytes for nSeq
 
 	if len(bytes) < totalLength {
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index c41522b..455a392 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -41,6 +41,10 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 	l, size := utils.DecodeVarInt(bytes[offset:])
 	offset += size
 
+	if size == 0 || l > uint64(len(bytes)) {
+		return nil, 0, fmt.Errorf("output length too short < 8 + script")
+	}
+
 	totalLength := offset + int(l)
 
 	if len(bytes) < totalLength {
diff --git a/utils/VarInt.go b/utils/VarInt.go
index 796aefd..2c62d74 100644
--- a/utils/VarInt.go
+++ b/utils/VarInt.go
@@ -28,7 +28,12 @@ func VarInt(i uint64) []byte {
 // DecodeVarInt takes a byte array in VarInt format and returns the
 // decoded unsigned integer value of the length and it's size in bytes.
 // See http://learnmeabitcoin.com/glossary/varint
+// If b does not hold a complete VarInt then the returned size is 0.
 func DecodeVarInt(b []byte) (result uint64, size int) {
+	if len(b) == 0 || len(b) < varIntSize(b[0]) {
+		return 0, 0
+	}
+
 	switch b[0] {
 	case 0xff:
 		result = binary.LittleEndian.Uint64(b[1:9])
@@ -49,3 +54,16 @@ func DecodeVarInt(b []byte) (result uint64, size int) {
 
 	return
 }
+
+// varIntSize returns the encoded size of a VarInt which starts with the given byte.
+func varIntSize(first byte) int {
+	switch first {
+	case 0xff:
+		return 9
+	case 0xfe:
+		return 5
+	case 0xfd:
+		return 3
+	}
+	return 1
+}
-- 
2.43.0


From e2ecdeac86b8572885fc548c1f6f3d4a19a8248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 02/22] fix: parsed inputs and outputs own their script bytes

The scripts of a parsed transaction were sub-slices of the caller's buffer with
spare capacity, so appending to one script overwrote the fields following it.
---
 transaction/input/Input.go   | 1 +
 transaction/output/Output.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 61ddc36..dbd247a 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -69,6 +69,7 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 	}
 
 	i.UnlockingScript = script.NewFromBytes(bytes[offset : offset+int(l)])
+	*i.UnlockingScript = append(script.Script{}, *i.UnlockingScript...) // own the bytes: do not share the caller's buffer
 
 	i.SequenceNumber = binary.LittleEndian.Uint32(bytes[offset+int(l):])
 
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index 455a392..538f5cd 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -52,6 +52,7 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 	}
 
 	s := script.Script(bytes[offset:totalLength])
+	s = append(script.Script{}, s...) // own the bytes: do not share the caller's buffer
 	o.LockingScript = &s
 
 	return &o, totalLength, nil
-- 
2.43.0


From 0f1b0f1ee2baf7e4b426ddcace95efbf4a42b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 03/22] fix: report an out-of-range input index as an error

GetInputSignatureHash, ApplyUnlockingScript and Sign panicked.
---
 transaction/SignatureHash.go | 4 ++++
 transaction/Transaction.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/transaction/SignatureHash.go b/transaction/SignatureHash.go
index 1be5d06..dcfc2e6 100644
--- a/transaction/SignatureHash.go
+++ b/transaction/SignatureHash.go
@@ -15,6 +15,10 @@ import (
 // GetInputSignatureHash serializes the transaction based on the input index and the SIGHASH flag
 // see https://github.com/bitcoin-sv/bitcoin-sv/blob/master/doc/abc/replay-protected-sighash.md#digest-algorithm
 func (bt *Transaction) GetInputSignatureHash(inputNumber uint32, sigHashFlag sighash.Flag) ([]byte, error) {
+	if uint64(inputNumber) >= uint64(len(bt.Inputs)) {
+		return nil, errors.New("input index out of range")
+	}
+
 	in := bt.Inputs[inputNumber]
 
 	if in.PreviousTxID == "" {
diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 92dda51..524f472 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -294,6 +294,10 @@ func (bt *Transaction) SignAuto(s Signer) error {
 // ApplyUnlockingScript applies a script to the transaction at a specific index in
 // unlocking script field.
 func (bt *Transaction) ApplyUnlockingScript(index uint32, s *script.Script) error {
+	if uint64(index) >= uint64(len(bt.Inputs)) {
+		return fmt.Errorf("no input at index %d", index)
+	}
+
 	if bt.Inputs[index] != nil {
 		bt.Inputs[index].UnlockingScript = s
 		return nil
-- 
2.43.0


From f77cd524f4e4d148ae5ba3d66efc5b4b4da8d816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 04/22] fix: decode PUSHDATA2 and PUSHDATA4 lengths without
 overflow

A PUSHDATA2 length of 65533 or more and a PUSHDATA4 length near 2^32 wrapped
around, so DecodeParts panicked on valid and on malformed scripts.
---
 script/OpPushdata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index f742f92..e40d6cd 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -102,7 +102,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < 3 {
 				return r, errors.New("Not enough data")
 			}
-			l := binary.LittleEndian.Uint16(b[1:])
+			l := uint64(binary.LittleEndian.Uint16(b[1:]))
 			if len(b) < int(3+l) {
 				return r, errors.New("Not enough data")
 			}
@@ -114,7 +114,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < 5 {
 				return r, errors.New("Not enough data")
 			}
-			l := binary.LittleEndian.Uint32(b[1:])
+			l := uint64(binary.LittleEndian.Uint32(b[1:]))
 			if len(b) < int(5+l) {
 				return r, errors.New("Not enough data")
 			}
-- 
2.43.0


From 785d8fd557540d58009c119e5ad9383c13a5bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 05/22] fix: ToASM prints one-byte pushes as data

A one-byte push was printed as the name of the opcode with that value, so the
text did not describe the script and did not parse back to it.
---
 script/OpPushdata.go | 25 +++++++++++++++++++++++++
 script/Script.go     |  6 ++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index e40d6cd..55ccc9c 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -140,3 +140,28 @@ func DecodeParts(b []byte) ([][]byte, error) {
 
 	return r, nil
 }
+
+// opcodeParts tells for each part, as returned by DecodeParts(b), whether
+// it is an opcode (true) or data pushed to the stack (false).
+func opcodeParts(b []byte, parts [][]byte) []bool {
+	r := make([]bool, len(parts))
+	for i, p := range parts {
+		prefix := 1
+		switch b[0] {
+		case OpPUSHDATA1:
+			prefix = 2
+		case OpPUSHDATA2:
+			prefix = 3
+		case OpPUSHDATA4:
+			prefix = 5
+		default:
+			if b[0] == OpZERO || b[0] > OpPUSHDATA4 {
+				r[i] = true
+				prefix = 0
+			}
+		}
+		b = b[prefix+len(p):]
+	}
+
+	return r
+}
diff --git a/script/Script.go b/script/Script.go
index 9504ad5..69d1f38 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -190,9 +190,11 @@ func (s *Script) ToASM() (string, error) {
 		return "", err
 	}
 
+	isOpcode := opcodeParts(*s, parts)
+
 	var asmScript string
-	for _, p := range parts {
-		if len(p) == 1 {
+	for i, p := range parts {
+		if isOpcode[i] {
 			asmScript = asmScript + " " + opCodeValues[p[0]]
 		} else {
 			asmScript = asmScript + " " + hex.EncodeToString(p)
-- 
2.43.0


From 117ec496922ae13cdb72768c469af1625eb7f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 06/22] fix: NewFromASM of the empty text is the empty script

It was OP_0, although ToASM of the empty script is the empty text.
---
 script/Script.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/script/Script.go b/script/Script.go
index 69d1f38..f2a9703 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -34,6 +34,10 @@ func NewFromASM(str string) (*Script, error) {
 
 	s := &Script{}
 
+	if str == "" {
+		return s, nil
+	}
+
 	for _, section := range sections {
 		if val, ok := opCodeStrings[section]; ok {
 			s.AppendOpCode(val)
-- 
2.43.0


From add1082a4d0033600792b35df58485837a34b1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 07/22] fix: classify short scripts without panicking and tell
 opcodes from pushed data

---
 script/Script.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/script/Script.go b/script/Script.go
index f2a9703..397f788 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -226,8 +226,11 @@ func (s *Script) IsP2PK() bool {
 		return false
 	}
 
+	ops := opcodeParts(*s, parts)
+
 	if len(parts) == 2 &&
 		len(parts[0]) > 0 &&
+		ops[1] &&
 		parts[1][0] == OpCHECKSIG {
 
 		pubkey := parts[0]
@@ -257,6 +260,10 @@ func (s *Script) IsP2SH() bool {
 func (s *Script) IsData() bool {
 	b := []byte(*s)
 
+	if len(b) == 0 || (len(b) == 1 && b[0] != 0x6a) {
+		return false
+	}
+
 	return b[0] == 0x6a ||
 		b[0] == 0x00 && b[1] == 0x6a
 }
@@ -272,6 +279,11 @@ func (s *Script) IsMultisigOut() bool {
 		return false
 	}
 
+	ops := opcodeParts(*s, parts)
+	if !ops[0] || !ops[len(parts)-2] || !ops[len(parts)-1] {
+		return false
+	}
+
 	if isSmallIntOp(parts[0][0]) == false {
 		return false
 	}
@@ -296,6 +308,10 @@ func (s *Script) GetPublicKeyHash() ([]byte, error) {
 		return nil, fmt.Errorf("Script is empty")
 	}
 
+	if len(*s) < 2 {
+		return nil, fmt.Errorf("Not a P2PKH")
+	}
+
 	if (*s)[0] != 0x76 || (*s)[1] != 0xa9 {
 		return nil, fmt.Errorf("Not a P2PKH")
 	}
@@ -305,5 +321,9 @@ func (s *Script) GetPublicKeyHash() ([]byte, error) {
 		return nil, err
 	}
 
+	if len(parts) == 0 {
+		return nil, fmt.Errorf("Not a P2PKH")
+	}
+
 	return parts[0], nil
 }
-- 
2.43.0


From 12e0145ff3561f45017c4d5b7935b9ad82e32cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 08/22] fix: refuse a public key hash which is not 20 bytes

---
 script/Script.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/script/Script.go b/script/Script.go
index 397f788..14d0641 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -88,6 +88,9 @@ func NewP2PKHFromPubKeyHashStr(pubKeyHash string) (*Script, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(hash) != 20 {
+		return nil, fmt.Errorf("public key hash must be 20 bytes, got %d", len(hash))
+	}
 
 	b := []byte{
 		OpDUP,
-- 
2.43.0


From 9974edae5122ae7e4edfa64e7c8d08f25d1be7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 09/22] fix: refuse an address whose checksum does not match

---
 script/address/Address.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/script/address/Address.go b/script/address/Address.go
index 382544e..f2c6b73 100644
--- a/script/address/Address.go
+++ b/script/address/Address.go
@@ -1,6 +1,7 @@
 package address
 
 import (
+	"bytes"
 	"encoding/hex"
 	"fmt"
 
@@ -38,6 +39,13 @@ func addressToPubKeyHashStr(address string) (string, error) {
 		return "", fmt.Errorf("invalid address length for '%s'", address)
 	}
 
+	if decoded[0] == 0x00 || decoded[0] == 0x6f {
+		sum := checksum(decoded[:21])
+		if !bytes.Equal(sum[:], decoded[21:]) {
+			return "", fmt.Errorf("invalid address checksum for '%s'", address)
+		}
+	}
+
 	switch decoded[0] {
 	case 0x00: // Pubkey hash (P2PKH address)
 		return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil
-- 
2.43.0


From 2902f6c3e5940052ef478e4b907b736d689d17ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 10/22] fix: refuse an address with missing or surplus leading
 ones

---
 script/address/AddressValidation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/script/address/AddressValidation.go b/script/address/AddressValidation.go
index 6eafa36..dad8f8d 100644
--- a/script/address/AddressValidation.go
+++ b/script/address/AddressValidation.go
@@ -73,6 +73,13 @@ func validA58(a58 []byte) (bool, error) {
 		return false, errors.New("not version 0 or 6f")
 	}
 
+	// every leading '1' stands for exactly one leading zero byte
+	ones := len(a58) - len(bytes.TrimLeft(a58, "1"))
+	zeros := len(a) - len(bytes.TrimLeft(a[:], "\x00"))
+	if ones != zeros {
+		return false, errors.New("wrong length")
+	}
+
 	checksumOK := a.embeddedChecksum() == a.computeChecksum()
 
 	if !checksumOK {
-- 
2.43.0


From 2e65561e0488b0358ebd5dbce7d5be4ea8535152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 11/22] fix: decode every BIP276 text that can be encoded, and
 reject the rest without panicking

---
 script/address/BIP276.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/script/address/BIP276.go b/script/address/BIP276.go
index 0f1a24b..e82d2c1 100644
--- a/script/address/BIP276.go
+++ b/script/address/BIP276.go
@@ -37,6 +37,9 @@ func EncodeBIP276(prefix string, network int, version int, data []byte) string {
 	if version == 0 || version > 255 || network == 0 || network > 255 {
 		return "ERROR"
 	}
+	if version < 0 || network < 0 {
+		return "ERROR"
+	}
 
 	p, c := createBIP276(prefix, network, version, data)
 
@@ -53,17 +56,22 @@ func createBIP276(prefix string, network int, version int, data []byte) (string,
 // DecodeBIP276 is used to decode BIP276 formatted data into specific (non-standard) scripts.
 // See https://github.com/moneybutton/bips/blob/master/bip-0276.mediawiki
 func DecodeBIP276(text string) (prefix string, version int, network int, data []byte, err error) {
-	validBIP276 := regexp.MustCompile(`^(.+?):(\d{2})(\d{2})([0-9A-Fa-f]+)([0-9A-Fa-f]{8})$`)
+	validBIP276 := regexp.MustCompile(`^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$`)
 
 	res := validBIP276.FindStringSubmatch(text)
 
+	if res == nil {
+		err = errors.New("Invalid BIP276 format")
+		return
+	}
+
 	prefix = res[1]
 
-	if version, err = strconv.Atoi(res[2]); err != nil {
+	if version, err = parseHexByte(res[3]); err != nil {
 		return
 	}
 
-	if network, err = strconv.Atoi(res[3]); err != nil {
+	if network, err = parseHexByte(res[2]); err != nil {
 		return
 	}
 
@@ -79,3 +87,8 @@ func DecodeBIP276(text string) (prefix string, version int, network int, data []
 
 	return
 }
+
+func parseHexByte(s string) (int, error) {
+	n, err := strconv.ParseUint(s, 16, 8)
+	return int(n), err
+}
-- 
2.43.0


From f397404fc1a4373bce078df4733795856308e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 12/22] fix: keep outpoint and sequence number of the input
 being signed

---
 transaction/Transaction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 524f472..63b8e80 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -245,8 +245,11 @@ func (bt *Transaction) toBytesHelper(index int, scriptPubKey []byte) []byte {
 	for i, in := range bt.GetInputs() {
 		s := in.ToBytes(scriptPubKey != nil)
 		if i == index && scriptPubKey != nil {
+			// s is outpoint, empty script (1 byte) and sequence number (4 bytes)
+			h = append(h, s[:len(s)-5]...)
 			h = append(h, utils.VarInt(uint64(len(scriptPubKey)))...)
 			h = append(h, scriptPubKey...)
+			h = append(h, s[len(s)-4:]...)
 		} else {
 			h = append(h, s...)
 		}
-- 
2.43.0


From 2b7b8c3228e6e037ffd8656f529ace32654192c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 13/22] fix: print an unsigned input without panicking

---
 transaction/input/Input.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index dbd247a..d49d377 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -95,6 +95,12 @@ func NewFromUTXO(prevTxID string, prevTxIndex uint32, prevTxSats uint64, prevTxS
 }
 
 func (i *Input) String() string {
+	if i.UnlockingScript == nil {
+		unsigned := *i
+		unsigned.UnlockingScript = &script.Script{}
+		return unsigned.String()
+	}
+
 	return fmt.Sprintf(`prevTxHash:   %x
 prevOutIndex: %d
 scriptLen:    %d
-- 
2.43.0


From 74cb4c06f0a43bcc6536908a3988a1c1f115920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 14/22] fix: reject malformed Electrum redeem scripts without
 panicking

---
 script/RedeemScript.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index 3af2278..dde00c5 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -2,6 +2,7 @@ package script
 
 import (
 	"encoding/binary"
+	"encoding/hex"
 	"errors"
 
 	"github.com/libsv/libsv/crypto"
@@ -47,6 +48,10 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 		return nil, errors.New("There should be 5 parts in this redeemScript")
 	}
 
+	if err := checkMultisigLayout(script, parts); err != nil {
+		return nil, err
+	}
+
 	signaturesRequired := int(parts[0][0] - OpBASE)
 	if signaturesRequired < 2 {
 		return nil, errors.New("Must have 2 or more required signatures for multisig")
@@ -67,6 +72,10 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 	}
 
 	for _, pubkey := range parts[1 : len(parts)-2] {
+		if len(pubkey) != 1+78+4 {
+			return nil, errors.New("All Electrum pubkeys should be 83 bytes long")
+		}
+
 		if pubkey[0] != 0xff {
 			return nil, errors.New("All Electrum pubkeys should start with 0xff")
 		}
@@ -116,6 +125,23 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 	return rs, nil
 }
 
+// checkMultisigLayout checks that the script has the threshold, the number of
+// keys and OP_CHECKMULTISIG as opcodes where they are expected.
+func checkMultisigLayout(script string, parts [][]byte) error {
+	b, err := hex.DecodeString(script)
+	if err != nil {
+		return err
+	}
+
+	n := len(parts)
+	ops := opcodeParts(b, parts)
+	if n < 3 || !ops[0] || !ops[n-2] || !ops[n-1] || !isSmallIntOp(parts[n-2][0]) {
+		return errors.New("Not a multisig redeemScript")
+	}
+
+	return nil
+}
+
 // AddPublicKey appends a public key to the RedeemScript.
 func (rs *RedeemScript) AddPublicKey(pkey string, derivationPath []uint32) error {
 
-- 
2.43.0


From 68dfaa944765e319c127f26163a5ed36f7d6c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 15/22] fix: refuse a seventeenth multisig public key

---
 script/RedeemScript.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index dde00c5..edc5a08 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -149,6 +149,10 @@ func (rs *RedeemScript) AddPublicKey(pkey string, derivationPath []uint32) error
 		return errors.New("We only support derivation paths with exactly 2 levels") // TODO: why only 2?
 	}
 
+	if len(rs.PublicKeys) >= 16 {
+		return errors.New("More than 16 public keys is not supported")
+	}
+
 	pk, err := hdkeychain.NewKeyFromString(pkey)
 	if err != nil {
 		return err
-- 
2.43.0


From 9c2d39a0fdf0ac6c3bd487c6613d2215188ceb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 16/22] fix: refuse a negative index in a merkle proof

---
 block/GetMerkleBranches.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/block/GetMerkleBranches.go b/block/GetMerkleBranches.go
index a92da53..66bb431 100644
--- a/block/GetMerkleBranches.go
+++ b/block/GetMerkleBranches.go
@@ -68,6 +68,10 @@ func MerkleRootFromBranches(txHash string, txIndex int, branches []string) (stri
 
 	hash = utils.ReverseBytes(hash)
 
+	if txIndex < 0 {
+		return "", fmt.Errorf("negative index %d", txIndex)
+	}
+
 	for _, b := range branches {
 		h, err := hex.DecodeString(b)
 		if err != nil {
-- 
2.43.0


From 0c3e4c4a4354bf8e049576ac5e15be1d030fe586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 17/22] fix: do not write behind the coinbase hash passed in

---
 block/BuildMerkleRootFromCoinbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block/BuildMerkleRootFromCoinbase.go b/block/BuildMerkleRootFromCoinbase.go
index 6194581..cc37590 100644
--- a/block/BuildMerkleRootFromCoinbase.go
+++ b/block/BuildMerkleRootFromCoinbase.go
@@ -9,7 +9,7 @@ import (
 // BuildMerkleRootFromCoinbase builds the merkle root of the block from the coinbase transaction hash (txid)
 // and the merkle branches needed to work up the merkle tree and returns the merkle root byte array.
 func BuildMerkleRootFromCoinbase(coinbaseHash []byte, merkleBranches []string) []byte {
-	acc := coinbaseHash
+	acc := append([]byte{}, coinbaseHash...) // appending to acc must not write behind the caller's slice
 
 	for i := 0; i < len(merkleBranches); i++ {
 		branch, _ := hex.DecodeString(merkleBranches[i])
-- 
2.43.0


From 63b741d48ea80833f90d0e968edbdf576480e594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 18/22] fix: push the coinbase height with the size its value
 needs

---
 block/GetCoinbaseParts.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/block/GetCoinbaseParts.go b/block/GetCoinbaseParts.go
index b7ffa31..c9a68c8 100644
--- a/block/GetCoinbaseParts.go
+++ b/block/GetCoinbaseParts.go
@@ -127,12 +127,22 @@ func makeCoinbaseOutputTransactions(coinbaseValue uint64, defaultWitnessCommitme
 func makeCoinbase1(height uint32, coinbaseText string) []byte {
 	spaceForExtraNonce := 12
 
-	blockHeightBytes := make([]byte, 4)
+	blockHeightBytes := make([]byte, 5)
 	binary.LittleEndian.PutUint32(blockHeightBytes, uint32(height)) // Block height
 
 	arbitraryData := []byte{}
-	arbitraryData = append(arbitraryData, 0x03)
-	arbitraryData = append(arbitraryData, blockHeightBytes[:3]...)
+	if height == 0 {
+		arbitraryData = append(arbitraryData, 0x00) // OP_0
+	} else if height <= 16 {
+		arbitraryData = append(arbitraryData, 0x50+byte(height)) // OP_1 to OP_16
+	} else {
+		n := 1 // smallest size which leaves the sign bit clear (BIP34)
+		for uint64(height)>>uint(8*n-1) != 0 {
+			n++
+		}
+		arbitraryData = append(arbitraryData, byte(n))
+		arbitraryData = append(arbitraryData, blockHeightBytes[:n]...)
+	}
 	arbitraryData = append(arbitraryData, []byte(coinbaseText)...)
 
 	// Arbitrary data should leave enough space for the extra nonce
-- 
2.43.0


From dc6d62a03f56cd0df2a5d8ddf88ea790c34d49b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 19/22] fix: reject malformed bits without panicking and expand
 small exponents

---
 block/Difficulty.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 41f5137..f26ef5a 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -3,6 +3,7 @@ package block
 import (
 	"encoding/binary"
 	"encoding/hex"
+	"fmt"
 	"log"
 	"math"
 	"math/big"
@@ -44,6 +45,9 @@ func ExpandTargetFrom(bits string) (string, error) {
 
 	dst := make([]byte, 32)
 	b := bn.Bytes()
+	if len(b) > len(dst) {
+		return "", fmt.Errorf("target of bits %s does not fit in 32 bytes", bits)
+	}
 
 	copy(dst[32-len(b):], b)
 	return hex.EncodeToString(dst), nil
@@ -55,6 +59,10 @@ func ExpandTargetFromAsInt(bits string) (*big.Int, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(binaryBits) != 4 {
+		return nil, fmt.Errorf("bits must be 4 bytes, got %d", len(binaryBits))
+	}
+
 	compact := binary.BigEndian.Uint32(binaryBits)
 
 	// Extract the mantissa, sign bit, and exponent.
@@ -97,13 +105,23 @@ func DifficultyToHashrate(coin string, diff uint64, targetSeconds float64) float
 
 // DifficultyFromBits returns the mining difficulty from the nBits field in the block header.
 func DifficultyFromBits(bits string) (float64, error) {
-	b, _ := hex.DecodeString(bits)
+	b, err := hex.DecodeString(bits)
+	if err != nil {
+		return 0, err
+	}
+	if len(b) != 4 {
+		return 0, fmt.Errorf("bits must be 4 bytes, got %d", len(b))
+	}
+
 	ib := binary.BigEndian.Uint32(b)
 	return targetToDifficulty(toCompactSize(ib))
 }
 
 func toCompactSize(bits uint32) *big.Int {
 	t := big.NewInt(int64(bits % 0x01000000))
+	if e := uint(bits / 0x01000000); e < 3 {
+		return t.Rsh(t, 8*(3-e))
+	}
 	t.Mul(t, big.NewInt(2).Exp(big.NewInt(2), big.NewInt(8*(int64(bits/0x01000000)-3)), nil))
 
 	return t
-- 
2.43.0


From 47dc98007c4979a86826ab8ec790318ecb2db17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 20/22] fix: Decrypt leaves its argument unchanged

---
 crypto/Encryption.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypto/Encryption.go b/crypto/Encryption.go
index 11b1049..e70f9e6 100644
--- a/crypto/Encryption.go
+++ b/crypto/Encryption.go
@@ -30,6 +30,7 @@ func Decrypt(ciph cipher.Block, ciphertext []byte) ([]byte, error) {
 	iv := ciphertext[:aes.BlockSize]
 	cfb := cipher.NewCFBDecrypter(ciph, iv)
 	text := ciphertext[aes.BlockSize:]
+	text = append([]byte{}, text...) // leave the caller's ciphertext as it is
 	cfb.XORKeyStream(text, text)
 	data, err := base64.StdEncoding.DecodeString(string(text))
 	if err != nil {
-- 
2.43.0


From e50c926a8e86f9f4315342e87066349b21d2ab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 21/22] fix: Decode32Byte rejects short input without panicking

---
 utils/ByteManipulation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/ByteManipulation.go b/utils/ByteManipulation.go
index a27fba2..02f6604 100644
--- a/utils/ByteManipulation.go
+++ b/utils/ByteManipulation.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/hex"
+	"fmt"
 	"log"
 	"sort"
 )
@@ -97,6 +98,9 @@ func Decode32Byte(hexStr string) ([32]byte, error) {
 		return b32, err
 	}
 
+	if len(b) < 32 {
+		return b32, fmt.Errorf("expected 32 bytes, got %d", len(b))
+	}
 	copy(b32[:], b[0:32])
 
 	return b32, nil
-- 
2.43.0


From 0428e438c60b40038e4aff200966f54c407cead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 22/22] fix: refuse a previous txid which is not 32 bytes of
 hex

---
 transaction/Transaction.go | 4 ++++
 transaction/input/Input.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 63b8e80..c089de7 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -127,6 +127,10 @@ func (bt *Transaction) AddInput(input *input.Input) {
 
 // From adds a new input to the transaction from the specified UTXO fields.
 func (bt *Transaction) From(txID string, vout uint32, scriptSig string, satoshis uint64) error {
+	if id, err := hex.DecodeString(txID); err != nil || len(id) != 32 {
+		return fmt.Errorf("previous txid %q is not 32 bytes of hex", txID)
+	}
+
 	pts, err := script.NewFromHexString(scriptSig)
 	if err != nil {
 		return err
diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index d49d377..5c065fc 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -78,6 +78,10 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 
 // NewFromUTXO returns a transaction input from the UTXO fields provided.
 func NewFromUTXO(prevTxID string, prevTxIndex uint32, prevTxSats uint64, prevTxScript string, nSeq uint32) (*Input, error) {
+	if id, err := hex.DecodeString(prevTxID); err != nil || len(id) != 32 {
+		return nil, fmt.Errorf("previous txid %q is not 32 bytes of hex", prevTxID)
+	}
+
 	pts, err := script.NewFromHexString(prevTxScript)
 	if err != nil {
 		return nil, err
-- 
2.43.0

