#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in step by construction)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state or []))

SEQ = "bounded exhaustive exploration of the real code (stateless model checking: every choice sequence within the bound) against a reference model"
HIST = "explicit enumeration of all operation histories up to a depth on the real code, compared with a reference model after every step"
NOTE = "Exhaustive within the bounds listed per scenario in the evidence file; every trace runs on the real library built from /repo's working tree. Values outside the alphabets are not covered. Trusted: the reference model in mc/ref, the Go toolchain and standard library"

prop("C01", "Transaction wire format and txid round trip",
 "A transaction built through the API serialises to the standard Bitcoin wire format (version, inputs, outputs, locktime; little-endian integers, shortest counts and lengths, previous txid byte-reversed; an input without an unlocking script has an empty one). Parsing those bytes, or their hex in either letter case, gives back every field, and serialising again gives the same bytes. The txid is the byte-reversed double SHA-256 of those bytes, and serialising or hashing changes nothing.",
 ["inputs"], "every transaction: any version, locktime, number of inputs and outputs, previous outpoint, sequence, amount, and script length",
 "the tests parse a handful of fixed mainnet transactions; length classes of counts and scripts (0xfc/0xfd/0xffff/0x10000), extreme field values and many inputs are never reached",
 ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go", "utils/VarInt.go"],
 [("toBytesHelper / ToBytes write the layout", "transaction/Transaction.go"), ("NewFromBytes walks inputs and outputs by the size each reports", "transaction/Transaction.go"), ("GetTxID reverses the double hash", "transaction/Transaction.go")],
 ["transaction.NewFromBytes", "transaction.NewFromString", "Transaction.ToBytes", "Transaction.ToString", "Transaction.GetTxID"], SEQ, NOTE)

prop("C02", "Malformed transactions, inputs and outputs are refused without panic",
 "Parsing any byte string as a transaction, as one input or as one output either returns an error or returns exactly what the bytes say. Truncated data, lengths or counts larger than what is left, and bytes after the locktime of a transaction are errors; never a panic, an unbounded allocation or a read beyond the given slice. A single input or output reports the number of bytes it used, and what follows it has no influence.",
 ["inputs"], "every byte string and every hex text, including every truncation, every corrupted byte and every length field value up to 2^64-1",
 "the tests check a few too-short strings; the crash space is all cut points times all length-field values",
 ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go", "utils/VarInt.go"],
 [("length checks before slicing", "transaction/input/Input.go"), ("length checks before slicing", "transaction/output/Output.go"), ("whole-data check", "transaction/Transaction.go")],
 ["transaction.NewFromBytes", "transaction.NewFromString", "input.NewFromBytes", "output.NewFromBytes"], SEQ, NOTE)

prop("C03", "Variable-length integer codec",
 "Every 64-bit value encodes to its shortest CompactSize form (1, 3, 5 or 9 bytes, little-endian) and decodes back to the same value and size. Decoding looks only at the bytes the prefix calls for; trailing bytes never matter, and an empty or cut encoding is reported as size 0 rather than read past the end.",
 ["inputs"], "all 2^64 values and all byte strings",
 "the tests use about a dozen values",
 ["utils/VarInt.go"], [("branch per size class", "utils/VarInt.go")], ["utils.VarInt", "utils.DecodeVarInt"], SEQ,
 NOTE + ". Quick covers all values below 2^24 and structured 64-bit values; thorough all below 2^32")

prop("C04", "Signature hash equals the replay-protected (FORKID) algorithm",
 "For every signature-hash flag with the FORKID bit, every input index and every transaction, the digest to be signed is the double SHA-256 of the replay-protected preimage: version, hash of all outpoints, hash of all sequences, the outpoint, script code and amount of this input, its sequence, hash of outputs, locktime, 4-byte flag; with the ALL/NONE/SINGLE/ANYONECANPAY rules deciding which hashes are zero, including SINGLE without a matching output. An index outside the inputs, or an input without previous txid or previous script, is an error. Computing a digest changes nothing, and the digest follows later edits of the transaction.",
 ["inputs", "histories"], "every transaction x input index x FORKID flag byte, and every history of edits and digests",
 "the tests compare a few digests of one or two small transactions with flag ALL|FORKID and one or two others",
 ["transaction/SignatureHash.go", "transaction/signature/sighash/SigHashFlag.go", "transaction/output/Output.go"],
 [("GetInputSignatureHash", "transaction/SignatureHash.go"), ("prevout, sequence and outputs hashes", "transaction/SignatureHash.go"), ("flag predicates", "transaction/signature/sighash/SigHashFlag.go")],
 ["Transaction.GetInputSignatureHash", "Output.GetBytesForSigHash"], SEQ, NOTE)

prop("C05", "Signing one input produces a valid signature and touches nothing else",
 "Signing an input with a private key sets exactly that input's unlocking script to push(DER signature followed by the flag byte) push(compressed public key); an unset flag means ALL|FORKID. The signature is strict DER with low S and verifies under the key for the digest of that input and flag, also after earlier signings and edits. No other part of the transaction changes, and an index outside the inputs or an input without previous data gives an error and leaves the transaction as it was.",
 ["inputs", "histories"], "every transaction, index, key and FORKID flag, and every history of signings and edits",
 "the tests sign one or two inputs with one key and compare fixed results",
 ["transaction/signature/InternalSigner.go", "transaction/Transaction.go", "script/UnlockingScript.go", "transaction/SignatureHash.go"],
 [("InternalSigner.Sign", "transaction/signature/InternalSigner.go"), ("ApplyUnlockingScript", "transaction/Transaction.go"), ("NewP2PKHUnlockingScript", "script/UnlockingScript.go")],
 ["Transaction.Sign", "InternalSigner.Sign", "script.NewP2PKHUnlockingScript"], SEQ, NOTE)

prop("C06", "Automatic signing signs exactly the inputs the key can spend",
 "Automatic signing adds a valid unlocking script to every input whose previous output is a P2PKH script for the signer's public key hash, wherever such inputs stand. It leaves every other input (other keys, other script kinds, missing or malformed previous scripts) exactly as it was, and does not panic. Signers used one after another each sign their own inputs and keep the earlier signatures valid and unchanged.",
 ["inputs", "histories"], "every assignment of input kinds to inputs, every order of signers and every FORKID flag",
 "the tests use one transaction whose inputs all or none match",
 ["transaction/signature/InternalSigner.go", "transaction/Transaction.go", "script/Script.go"],
 [("SignAuto loop comparing public key hashes", "transaction/signature/InternalSigner.go"), ("GetPublicKeyHash", "script/Script.go")],
 ["Transaction.SignAuto", "InternalSigner.SignAuto"], SEQ, NOTE)

prop("C07", "Builder histories: the transaction is exactly what was added",
 "After any sequence of adding inputs, adding outputs and paying to addresses, the transaction holds exactly the accepted inputs and outputs in the order of the calls with their values, and counts, output total (modulo 2^64), serialisation and txid agree with them. A refused call (a previous txid which is not 32 bytes of hex, a script which is not hex, a bad address) returns an error and leaves the transaction unchanged. It is a coinbase when its single input has the null previous txid with index ffffffff, and not with another txid or another number of inputs; two transactions never influence each other.",
 ["histories"], "every sequence of builder calls, from an empty or a parsed transaction, and every interleaving of building two transactions",
 "tests run one fixed sequence each; nothing checks the state after errors or between two transactions",
 ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go"],
 [("AddInput / From / AddOutput / PayTo", "transaction/Transaction.go"), ("NewFromUTXO", "transaction/input/Input.go"), ("IsCoinbase, GetTotalOutputSatoshis", "transaction/Transaction.go")],
 ["Transaction.AddInput", "Transaction.From", "Transaction.AddOutput", "Transaction.PayTo", "Transaction.InputCount", "Transaction.OutputCount", "Transaction.GetTotalOutputSatoshis", "Transaction.IsCoinbase"], HIST, NOTE)

prop("C08", "Parsed transactions own their bytes",
 "After parsing a transaction, input or output, editing one of its scripts (appending included) changes nothing else: no other script, no other field, not the buffer it was parsed from. Overwriting that buffer, or any byte slice the library returned earlier, does not change the parsed object or later results.",
 ["histories"], "every parsed transaction, every history of edits of scripts, source buffer and returned slices, and every spare capacity of the source buffer",
 "aliasing only shows when one object is changed and another is read afterwards; no test does that",
 ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go", "script/Script.go"],
 [("copies or capacity limits when slicing the stream", "transaction/input/Input.go"), ("copies or capacity limits when slicing the stream", "transaction/output/Output.go")],
 ["transaction.NewFromBytes", "input.NewFromBytes", "output.NewFromBytes", "Script.AppendPushData", "Transaction.ToBytes"], HIST, NOTE)

prop("C09", "Push-data encoding",
 "Data of n bytes is pushed as one length byte when n is at most 75, else OP_PUSHDATA1, 2 or 4 with the shortest little-endian length that fits, followed by the data. Every way of building pushes (one, many, hex, text, part lists) gives the same bytes, and a list of parts is the concatenation of its pushes. Appending to a script only ever adds at its end; a refused append leaves the script as it was, and the caller's data is neither changed nor kept.",
 ["inputs", "histories"], "every data length and content, every list of parts and every sequence of appends",
 "tests cover one length per push form",
 ["script/OpPushdata.go", "script/Script.go"], [("GetPushDataPrefix / EncodeParts", "script/OpPushdata.go"), ("AppendPushData and variants", "script/Script.go")],
 ["script.EncodeParts", "script.GetPushDataPrefix", "Script.AppendPushData", "Script.AppendPushDataHexString", "Script.AppendPushDataString", "Script.AppendPushDataArray", "Script.AppendPushDataStrings", "Script.AppendOpCode"], SEQ, NOTE)

prop("C10", "Script decoding is total and faithful",
 "Decoding a script into parts returns, in order, the data of every push and every other opcode as a one-byte part, for every byte string; nothing is dropped, merged or reordered. A push whose declared length exceeds the remaining bytes, or a cut length prefix, gives an error. Decoding never panics, never reads beyond the slice, never loops, and does not change its input; the text form agrees with the byte form and refuses text which is not hex.",
 ["inputs"], "every byte string, including every declared length of every push form against every remaining length",
 "tests decode a few valid scripts and one or two truncations",
 ["script/OpPushdata.go"], [("DecodeParts", "script/OpPushdata.go")], ["script.DecodeParts", "script.DecodeStringParts"], SEQ, NOTE)

prop("C11", "Opcode names and the ASM round trip",
 "Every opcode name stands for its opcode byte, and the printed form of a script names each opcode and prints each push as lower-case hex, parts separated by single spaces. For scripts made of opcodes and shortest non-empty pushes, parsing the printed form gives back the script byte for byte, also when pushed data looks like an opcode. Text that is neither a known name nor hex is refused, as is printing a script with a cut push.",
 ["inputs"], "all opcodes and aliases, all pushes, and every sequence of them",
 "tests convert two or three P2PKH scripts",
 ["script/Script.go", "script/Opcodes.go", "script/OpPushdata.go"], [("NewFromASM / ToASM", "script/Script.go"), ("OpCodeStrings and OpCodeValues tables", "script/Opcodes.go")],
 ["script.NewFromASM", "Script.ToASM"], SEQ, NOTE)

prop("C12", "Script classification agrees with the templates on every byte string",
 "For every byte string: P2PKH means exactly DUP HASH160 push-20 EQUALVERIFY CHECKSIG; P2SH means exactly HASH160 push-20 EQUAL; data means starting with OP_RETURN or OP_FALSE OP_RETURN; P2PK means one push of a 33-byte (02/03) or 65-byte (04, 06, 07) key and CHECKSIG; multisig means a small integer m, n key pushes, the small integer n, CHECKMULTISIG. The public key hash of a P2PKH script is its 20 bytes, and a nil, empty or otherwise starting script (not DUP HASH160) gives an error. Classifying never panics and never changes the script, and data that merely equals an opcode byte does not count as that opcode.",
 ["inputs"], "every byte string",
 "tests classify one positive and one negative example each",
 ["script/Script.go", "script/OpPushdata.go"], [("IsP2PKH, IsP2PK, IsP2SH, IsData, IsMultisigOut, GetPublicKeyHash", "script/Script.go")],
 ["Script.IsP2PKH", "Script.IsP2PK", "Script.IsP2SH", "Script.IsData", "Script.IsMultisigOut", "Script.GetPublicKeyHash"], SEQ, NOTE)

prop("C13", "Standard script and output builders produce exactly their templates",
 "P2PKH builders (from public key, public key hash or address) give DUP HASH160 push(20-byte hash) EQUALVERIFY CHECKSIG with the right hash, and outputs carry the given amount. The hash-puzzle output is HASH160 push(hash of secret) EQUALVERIFY followed by the P2PKH script; the data outputs are OP_FALSE OP_RETURN followed by one push per part, with amount 0. P2PKH builders refuse a public key hash that is not 20 bytes, and all refuse malformed hex; arguments are never changed.",
 ["inputs"], "every key, hash, address, secret and data of every length, and every amount",
 "tests build each template once from one value",
 ["script/Script.go", "transaction/output/Output.go"], [("NewP2PKHFrom*", "script/Script.go"), ("NewHashPuzzle, NewOpReturn, NewOpReturnParts", "transaction/output/Output.go")],
 ["script.NewP2PKHFromPubKeyStr", "script.NewP2PKHFromPubKeyBytes", "script.NewP2PKHFromPubKeyHashStr", "script.NewP2PKHFromAddress", "output.NewP2PkhFromPubKeyHash", "output.NewP2PKHFromAddress", "output.NewHashPuzzle", "output.NewOpReturn", "output.NewOpReturnParts"], SEQ, NOTE)

prop("C14", "Address encoding and decoding",
 "The address of a public key or hash is the Base58Check text of version byte (00 mainnet, 6f testnet) and 20-byte hash, with one leading '1' per leading zero byte. The hash of a public key is that of its compressed form, however the key was given. Reading the address back gives the same hash and text, it validates, and its P2PKH script pays that hash; malformed key texts are refused and arguments are not changed.",
 ["inputs"], "every 20-byte hash (leading zeros included), both networks, every public key",
 "tests use three or four fixed addresses; leading zero bytes and carries in base58 are not reached",
 ["script/address/Address.go", "script/address/AddressValidation.go", "script/Script.go"], [("NewFromPublicKeyHash and Base58EncodeMissingChecksum", "script/address/Address.go"), ("NewFromString", "script/address/Address.go")],
 ["address.NewFromPublicKeyHash", "address.NewFromPublicKey", "address.NewFromPublicKeyString", "address.NewFromString", "address.Base58EncodeMissingChecksum", "address.ValidateAddress"], SEQ, NOTE)

prop("C15", "No wrong address is ever accepted",
 "A text is accepted as an address, by every function that takes one, exactly when it is the Base58Check encoding of version 00 or 6f, 20 bytes and the right 4-byte checksum, with the right number of leading '1's. Any altered, truncated, extended, transposed, over-long, over-large or otherwise different text is refused with an error, without panic. No output or script is ever built from a refused address.",
 ["inputs"], "every text, in particular every small edit of every valid address, and every payload with a correct checksum but a wrong version or length",
 "tests refuse two or three bad addresses; acceptance depends on every character",
 ["script/address/AddressValidation.go", "script/address/Address.go", "script/Script.go"], [("a25 checksum and base58 range checks", "script/address/AddressValidation.go"), ("length, version and checksum checks in NewFromString", "script/address/Address.go"), ("checks in NewP2PKHFromAddress", "script/Script.go")],
 ["address.ValidateAddress", "address.NewFromString", "script.NewP2PKHFromAddress", "output.NewP2PKHFromAddress", "Transaction.PayTo"], SEQ, NOTE + ". Whether script-hash addresses (versions 05, c4) validate is not judged")

prop("C16", "BIP276 text encoding and decoding",
 "Encoding (prefix, network, version, data) gives '<prefix>:' followed by two hex digits of network, two of version, the data in hex and the first 4 bytes of the double SHA-256 of that text as checksum; a network or version outside 1..255 gives no valid text. Decoding such a text returns prefix, version, network and data unchanged. Any text that is not of that form, or whose checksum does not match, is refused without panic.",
 ["inputs"], "every prefix, network 1..255, version 1..255, data of any length, and every altered text",
 "tests round-trip two or three values",
 ["script/address/BIP276.go"], [("EncodeBIP276 / createBIP276", "script/address/BIP276.go"), ("DecodeBIP276 with checksum comparison", "script/address/BIP276.go")],
 ["address.EncodeBIP276", "address.DecodeBIP276"], SEQ, NOTE)

prop("C17", "Multisig redeem scripts: threshold, keys, order, hash and address",
 "A redeem script is OP_m, the compressed public keys derived from the added extended keys along their paths, sorted in byte order, OP_n, CHECKMULTISIG; the same whatever the order of addition, and asking for it any number of times gives the same answer. A threshold outside 2..16 is refused, as are a malformed extended key and a 17th key, which leave the keys as they were. The script hash is its HASH160 and the address is the Base58Check of version 05 and that hash.",
 ["inputs", "histories"], "every threshold, every sequence of added keys and derivation paths, and every order of keys",
 "tests build one 2-of-3 script",
 ["script/RedeemScript.go", "utils/ByteManipulation.go"], [("NewRedeemScript, AddPublicKey, GetRedeemScript", "script/RedeemScript.go"), ("SortByteArrays", "utils/ByteManipulation.go")],
 ["script.NewRedeemScript", "RedeemScript.AddPublicKey", "RedeemScript.GetRedeemScript", "RedeemScript.GetRedeemScriptHash", "RedeemScript.GetAddress"], HIST, NOTE)

prop("C18", "Electrum redeem scripts parse exactly or are refused",
 "An Electrum redeem script (OP_m, pushes each of ff, a 78-byte extended public key and two 2-byte little-endian derivation steps, OP_n, CHECKMULTISIG) parses to the redeem script of threshold m over the keys derived from each extended key by its two steps. Any other byte string - truncated, with a wrong marker, key length, key, count, threshold or closing opcode - is refused with an error. Parsing never panics.",
 ["inputs"], "every text and byte string, every truncation and every changed byte of a well-formed script",
 "one fixed script is parsed in the tests",
 ["script/RedeemScript.go", "script/OpPushdata.go"], [("NewRedeemScriptFromElectrum", "script/RedeemScript.go")], ["script.NewRedeemScriptFromElectrum", "RedeemScript.GetRedeemScript"], SEQ, NOTE)

prop("C19", "Coinbase merkle branches and root",
 "For the transaction hashes of a block template, with the coinbase in the first place, the merkle branches are the hashes needed to fold the coinbase up to the merkle root of the whole tree (last hash duplicated on odd levels), for any number of transactions and whatever their values. Folding a coinbase hash with the branches gives the root of the full tree. The arguments are not changed, nor is memory beyond them.",
 ["inputs"], "every number of transactions and every list of hashes, including equal ones; every coinbase hash and branch list",
 "tests use two fixed templates",
 ["block/GetMerkleBranches.go", "block/BuildMerkleRootFromCoinbase.go"], [("level-by-level hashing in GetMerkleBranches", "block/GetMerkleBranches.go"), ("fold in BuildMerkleRootFromCoinbase", "block/BuildMerkleRootFromCoinbase.go")],
 ["block.GetMerkleBranches", "block.BuildMerkleRootFromCoinbase"], SEQ, NOTE)

prop("C20", "Merkle root from a path equals the tree root for every leaf",
 "For every leaf of every tree, its hash, index and path give the merkle root: at each level the bit of the index decides the side, and the result is the byte-reversed hex of the fold. An index that is negative or too large for the path, or hashes that are not hex, give an error. It never panics.",
 ["inputs"], "every tree size, leaf position, path content and index",
 "tests fold one or two fixed paths",
 ["block/GetMerkleBranches.go"], [("MerkleRootFromBranches", "block/GetMerkleBranches.go")], ["block.MerkleRootFromBranches"], SEQ, NOTE)

prop("C21", "Coinbase parts recombine to a valid coinbase transaction",
 "The two coinbase parts with any 12 bytes of extra nonces between them form one well-formed transaction: version 1, a single input with null outpoint and final sequence, whose script starts with the block height as a minimal script number push and goes on with the given text and the nonces (its length always consistent, cut to 100 bytes); then the reward output of the given value to the wallet, the witness commitment output when given and the miner-id data output when given; locktime 0. A wallet that is no valid address, or a malformed commitment, is an error. Recombining does not change the parts.",
 ["inputs"], "every height 0..2^32-1, value, text, commitment, wallet address, miner id and extra nonce split",
 "tests use one height and one or two texts; the height encoding has a class boundary at every byte width and sign bit",
 ["block/GetCoinbaseParts.go"], [("makeCoinbase1 height push and script length", "block/GetCoinbaseParts.go"), ("makeCoinbaseOutputTransactions", "block/GetCoinbaseParts.go"), ("BuildCoinbase", "block/GetCoinbaseParts.go")],
 ["block.GetCoinbaseParts", "block.BuildCoinbase"], SEQ, NOTE)

prop("C22", "Block header layout",
 "A block header is 80 bytes: version little-endian, previous block hash byte-reversed, then merkle root, time, bits and nonce as given. Building it does not change the arguments or memory beyond them.",
 ["inputs"], "every version, previous hash, merkle root, time, bits and nonce",
 "tests build one header",
 ["block/BuildBlockHeader.go"], [("BuildBlockHeader", "block/BuildBlockHeader.go")], ["block.BuildBlockHeader"], SEQ, NOTE)

prop("C23", "Compact target expansion and difficulty",
 "For every 4-byte bits value the expanded target is mantissa x 256^(exponent-3), truncated for exponents below 3 and with the sign bit taken as sign, both as an integer and as 64 hex digits (an error when it does not fit); for positive targets the difficulty is the difficulty-one target divided by it. Bits that are not 4 bytes of hex are an error, without panic. Results do not depend on earlier calls.",
 ["inputs"], "all 2^32 compact values and every malformed text",
 "tests use three or four bits values",
 ["block/Difficulty.go"], [("ExpandTargetFromAsInt / toCompactSize", "block/Difficulty.go"), ("DifficultyFromBits", "block/Difficulty.go")],
 ["block.ExpandTargetFrom", "block.ExpandTargetFromAsInt", "block.DifficultyFromBits"], SEQ, NOTE)

prop("C24", "Hash rate from difficulty and its human-readable form",
 "The hash rate is difficulty x 2^256 / (difficulty-one target) / seconds, with the main-chain difficulty-one target (bits 1d00ffff), or the regtest one (207fffff) for coins whose name starts with R. Its human form is the value in the largest unit not above it (H/s, kH/s, MH/s, GH/s, TH/s, PH/s, EH/s, ZH/s, each 1000 of the one before; H/s below 1000) with two decimals, for every magnitude including exact unit boundaries.",
 ["inputs"], "every difficulty, interval, coin, and every non-negative rate",
 "tests use one value per unit; boundaries between units are not reached",
 ["block/Difficulty.go", "utils/HumanHash.go"], [("DifficultyToHashrate", "block/Difficulty.go"), ("HumanHash thresholds", "utils/HumanHash.go")], ["block.DifficultyToHashrate", "utils.HumanHash"], SEQ, NOTE)

prop("C25", "Encryption round trip, fresh IVs and untouched arguments",
 "Decrypting what was encrypted under the same AES key returns the text, for every key size and every length from 0 up; the ciphertext is a 16-byte IV taken from the entropy source for that call followed by AES-CFB of the base64 of the text. A ciphertext shorter than the IV or whose plain text is not base64 is an error, as is a failing entropy source; no panic. Neither call changes its arguments, and neither depends on earlier calls.",
 ["inputs", "fault_sequences", "histories"], "every key size, text and ciphertext, every way the entropy source can deliver or fail, and every sequence of calls",
 "tests round-trip one text with one key",
 ["crypto/Encryption.go"], [("Encrypt / Decrypt", "crypto/Encryption.go")], ["crypto.Encrypt", "crypto.Decrypt"],
 SEQ + "; enumerated entropy faults", NOTE)

prop("C26", "Calls have no hidden memory",
 "The result of every call depends only on its arguments (the random IV of encryption aside): not on which calls were made before, how often, or in which order. A result handed out earlier is never changed by a later call, and overwriting it never changes what later calls return.",
 ["histories"], "every sequence of library calls",
 "a test looks at one call at a time in one order; shared buffers, caches and lookup tables changed in passing only show in particular orders",
 ["block/Difficulty.go", "script/Opcodes.go", "script/address/AddressValidation.go", "utils/ByteManipulation.go", "script/RedeemScript.go", "transaction/SignatureHash.go"],
 [("package-level state is written only during initialisation", "block/Difficulty.go"), ("opcode tables are read-only", "script/Opcodes.go"), ("results are freshly allocated", "transaction/Transaction.go")],
 ["every exported function"], "exhaustive enumeration of call sequences (all ordered pairs, thorough all triples, of a call alphabet over the whole API) on the real code, compared with each call's result in a fresh process", NOTE,
 [{"name": "opcode name tables, base58 alphabet, powers and target constants", "meaning": "package-level tables shared by all calls", "where": "script/Opcodes.go, script/address/AddressValidation.go, block/Difficulty.go"}])

prop("C27", "Independent values can be used concurrently",
 "Calls made at the same time on different values, or read-only calls on the same value, give the same results as when made one after the other, under every interleaving. No data race exists between such calls.",
 ["schedules"], "every interleaving of two concurrent calls over the whole API",
 "no test runs anything concurrently, and the failing interleavings of shared scratch state are rare",
 ["block/Difficulty.go", "script/Opcodes.go", "script/Script.go", "transaction/Transaction.go", "transaction/SignatureHash.go", "crypto/Hash.go"],
 [("no package-level mutable state after initialisation", "block/Difficulty.go"), ("read-only methods do not write to the receiver", "transaction/SignatureHash.go")],
 ["every exported function", "read-only methods of Transaction, Script, Input, Output on one shared value"],
 "preemption-bounded exhaustive schedule exploration (controlled scheduler inserted at every statement of the real code) plus happens-before race detection on each schedule", NOTE)

prop("C28", "Hash functions",
 "Sha256, Sha256d, Ripemd160 and Hash160 return SHA-256, double SHA-256, RIPEMD-160 and RIPEMD-160 of SHA-256 of the message, for every message including nil and empty. The argument and memory beyond it are unchanged and every result is a fresh slice.",
 ["inputs", "histories"], "every message and every sequence of calls",
 "tests hash one message per function",
 ["crypto/Hash.go"], [("wrappers over the hash packages", "crypto/Hash.go")], ["crypto.Sha256", "crypto.Sha256d", "crypto.Ripemd160", "crypto.Hash160"], SEQ, NOTE)

prop("C29", "Byte utilities",
 "Reversal returns a new reversed slice (hex text is reversed bytewise, also with an odd number of digits) and is its own inverse. Sorting returns the same multiset in byte order; equality is exact content equality; little-endian encoding is the value padded to the asked size (4 or more); 32-byte decoding returns the bytes or an error for bad or short text. Arguments are not changed except where sorting documents it; nothing panics.",
 ["inputs"], "every byte slice, list of slices, value and text",
 "tests use one or two examples per helper",
 ["utils/ByteManipulation.go"], [("ReverseBytes, ReverseHexString, SortByteArrays, GetLittleEndianBytes, Equals, Decode32Byte", "utils/ByteManipulation.go")],
 ["utils.ReverseBytes", "utils.ReverseHexString", "utils.SortByteArrays", "utils.GetLittleEndianBytes", "utils.Equals", "utils.Decode32Byte"], SEQ, NOTE)

prop("C30", "Serialisation with cleared inputs",
 "Serialising with cleared inputs for one input gives a well-formed transaction equal to the original except that the chosen input carries the given script and every other input an empty one; outpoints, sequences, outputs, version and locktime are all kept. The transaction itself and the given script are not changed, for any script length and any number of inputs, signed or not.",
 ["inputs"], "every transaction, index and script length",
 "tests clear one or two inputs of one transaction",
 ["transaction/Transaction.go", "transaction/input/Input.go"], [("ToBytesWithClearedInputs / toBytesHelper", "transaction/Transaction.go"), ("Input.ToBytes(clear)", "transaction/input/Input.go")],
 ["Transaction.ToBytesWithClearedInputs", "Input.ToBytes"], SEQ, NOTE)

prop("C31", "A payment can be spent by the key it names, end to end, and by no other",
 "Paying a key in any of the offered ways (PayTo or output/script constructors from key, key hash, address, ASM or BIP276 text), on either network, to any output position, then passing the transaction on as bytes or hex, adding the output as an input of a new transaction and signing it with that key, automatically or by index and with any defined FORKID flag, gives a transaction that an independent node accepts as a valid P2PKH spend of that output; another key's spend is not valid and automatic signing leaves it alone. This holds hop after hop, and when several parties complete one transaction in any order over the wire, each knowing only its own previous outputs: a signature stays valid exactly while nothing its flag covers has changed.",
 ["inputs", "histories"], "every key, way of paying, receiving, spending and signing, flag and output position, every chain of payments and every order of parties",
 "the tests check builders, parsing and signing separately against fixed strings; no test carries a payment from one transaction to the next or between parties",
 ["transaction/Transaction.go", "transaction/SignatureHash.go", "transaction/signature/InternalSigner.go", "transaction/output/Output.go", "transaction/input/Input.go", "script/Script.go", "script/UnlockingScript.go", "script/address/Address.go"],
 [("PayTo and the output constructors", "transaction/output/Output.go"), ("From / NewFromUTXO", "transaction/Transaction.go"), ("SignAuto and Sign", "transaction/signature/InternalSigner.go"), ("GetInputSignatureHash", "transaction/SignatureHash.go")],
 ["Transaction.PayTo", "Transaction.From", "Transaction.SignAuto", "Transaction.Sign", "transaction.NewFromBytes", "Transaction.ToBytes"], SEQ, NOTE)

prop("C32", "External signers: asked once, with the right input, and obeyed",
 "Transaction.Sign and Transaction.SignAuto work with any implementation of Signer. The signer's corresponding method is called exactly once, with the given index and a transaction equal to the caller's. When it returns a transaction without error, the caller's transaction becomes equal to that one in every field, whether the signer worked in place, on a copy, or returned something else altogether. When it returns an error, that is reported and the caller's transaction stays as it was, whatever the signer returned besides.",
 ["inputs", "histories"], "every signer behaviour, index and transaction, and every history of such calls",
 "the tests only sign with the built-in signer, which always works in place and never fails in them",
 ["transaction/Transaction.go", "transaction/Signer.go"], [("Sign / SignAuto adopt the result", "transaction/Transaction.go"), ("Signer interface", "transaction/Signer.go")],
 ["Transaction.Sign", "Transaction.SignAuto"], HIST, NOTE)

prop("C33", "A block template becomes a valid header, and the reward is spendable",
 "From a template (transactions, height, reward, text, wallet, optional witness commitment and miner id) the library's pieces fit together: the coinbase built from its parts parses, is a coinbase, starts with the block height, carries the extra nonces and pays exactly the reward to the wallet, followed by the witness commitment and miner id outputs that were given; the root built from its hash and the merkle branches is the merkle root of all transactions, and every transaction's branch proves it; the header holds version, previous hash, that root, time, bits and nonce in 80 bytes, and its bits expand to the right target. The wallet's key can spend the coinbase output.",
 ["inputs"], "every template: number of transactions, height, reward, text, wallet, commitment, miner id, extra nonce split, target and version",
 "the tests check each piece alone against one recorded block or share",
 ["block/GetCoinbaseParts.go", "block/GetMerkleBranches.go", "block/BuildMerkleRootFromCoinbase.go", "block/BuildBlockHeader.go", "block/Difficulty.go", "transaction/Transaction.go"],
 [("GetCoinbaseParts / BuildCoinbase", "block/GetCoinbaseParts.go"), ("GetMerkleBranches / MerkleRootFromBranches", "block/GetMerkleBranches.go"), ("BuildMerkleRootFromCoinbase", "block/BuildMerkleRootFromCoinbase.go"), ("BuildBlockHeader", "block/BuildBlockHeader.go")],
 ["block.GetCoinbaseParts", "block.BuildCoinbase", "block.GetMerkleBranches", "block.BuildMerkleRootFromCoinbase", "block.MerkleRootFromBranches", "block.BuildBlockHeader", "block.ExpandTargetFromAsInt"], SEQ, NOTE)

prop("C34", "All ways to name a recipient agree",
 "A recipient named by public key, key string, key hash or address, on either network, is the same recipient: every address constructor gives the same address and the same key hash, addresses validate and parse back to that hash, every locking script and output constructor gives the same P2PKH script, and the hash read from that script leads back to the same address.",
 ["inputs"], "every public key and every 20-byte hash",
 "the tests compare one or two fixed keys per constructor",
 ["script/address/Address.go", "script/address/AddressValidation.go", "script/Script.go", "transaction/output/Output.go", "crypto/Hash.go"],
 [("address constructors", "script/address/Address.go"), ("script constructors and GetPublicKeyHash", "script/Script.go"), ("output constructors", "transaction/output/Output.go")],
 ["address.NewFromPublicKey", "address.NewFromPublicKeyString", "address.NewFromPublicKeyHash", "address.NewFromString", "address.ValidateAddress", "script.NewP2PKHFromAddress", "script.NewP2PKHFromPubKeyBytes", "Script.GetPublicKeyHash", "Transaction.PayTo"], SEQ, NOTE)

prop("C35", "Data stored in an output can be read back",
 "A list of data parts stored after OP_FALSE OP_RETURN in any of the offered ways (NewOpReturn, NewOpReturnParts, the AppendPushData family, NewFromASM, EncodeParts) gives the same script with shortest pushes and zero satoshis for the output constructors, is recognised as data, survives serialisation of its transaction as bytes or hex at any output position, and reads back part by part unchanged from the script, from its hex form, from its BIP276 form, and through ASM text.",
 ["inputs"], "every list of parts: number, length and content",
 "the tests store a few short texts and compare the hex",
 ["transaction/output/Output.go", "script/OpPushdata.go", "script/Script.go", "script/address/BIP276.go", "transaction/Transaction.go"],
 [("NewOpReturnParts", "transaction/output/Output.go"), ("EncodeParts / DecodeParts", "script/OpPushdata.go"), ("AppendPushData family, ASM", "script/Script.go")],
 ["output.NewOpReturn", "output.NewOpReturnParts", "Script.AppendPushData", "script.EncodeParts", "script.DecodeParts", "script.DecodeStringParts", "Script.ToASM", "script.NewFromASM"], SEQ, NOTE)

CLAIMED = set(os.environ.get("CLAIMED", "").split()) or {p["id"] for p in P}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "state": p["state"],
                      "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                      "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "checks": [{"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
                for p in P if p["id"] in CLAIMED],
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if p["id"] not in CLAIMED],
     "notes": "No hooks in /repo: the harness drives the exported API; C27 instruments a copy of the sources at build time through a go build overlay."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
for p in P: assert len(p["title"]) <= 80, p["id"]
