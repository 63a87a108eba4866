T = "stateless model checking of the real code: exhaustive bounded enumeration of choice sequences, each execution compared with an independent reference model"

prop("C01", "Base58 and Base58Check are exact inverses and reject every corruption",
 "Decoding the Base58 or Base58Check text of any byte string (with any version byte) returns exactly that byte string and version, leading zero bytes included. Base58Check decoding accepts a text only if it is the encoding of the result it returns, so a character outside the alphabet, a missing character, or a payload that does not match its four-byte checksum is rejected.",
 ["inputs"], "every payload up to the bound over an alphabet with leading/trailing/embedded 00 and FF bytes, every version byte, every single-character substitution, deletion, insertion and transposition of valid texts, every short text",
 "the tests use a handful of fixed vectors; bijectivity and rejection must hold for every string",
 ["xbase/base58.go"], [("Base58Encode/Base58Decode", "xbase/base58.go"), ("Base58CheckEncode/Base58CheckDecode", "xbase/base58.go")], tech=T)

prop("C02", "Bech32 segwit addresses follow BIP173 and every corruption is detected",
 "Encoding any human-readable part, witness version and program allowed by BIP173 produces the text BIP173 prescribes, and decoding it returns the same three values. A text is accepted only if BIP173 accepts it (case, separator, alphabet, length, checksum, zero padding, version 0..16, program length), replacing any one to four data characters of a valid text by other alphabet characters is always rejected, and no text makes decoding crash.",
 ["inputs"], "all program lengths 0..42 and versions 0..31, all hrp shapes, all single and double substitutions, all one-character edits and case flips, all structurally invalid texts built with a correct checksum",
 "the tests use the BIP173 vectors; the error-detection guarantee quantifies over all corruptions of all addresses",
 ["xbase/bech32.go", "xbase/witness.go"], [("Bech32Encode/Bech32Decode", "xbase/bech32.go"), ("WitnessEncode/WitnessDecode", "xbase/witness.go")], tech=T)

prop("C03", "Addresses and locking scripts determine each other, per network",
 "For each address kind and each provided network, printing an address and parsing it back on that network gives the same kind and the same hash, and the address's locking script parses back to the same address. Parsing accepts only the text that printing produces for that network (Bech32 also in upper case, as BIP173 requires): another network's address, another version byte, a wrong hash length or altered text is rejected.",
 ["inputs", "configurations"], "4 address kinds x 2 networks (print) x 2 networks (parse) x boundary hashes x every version byte x payload lengths 0..40 x every single-character edit; every standard and near-standard locking script",
 "tests check a few addresses on one or two networks; cross-network separation and canonical text quantify over all pairs",
 ["xcore/address.go", "xcore/address_p2pkh.go", "xcore/address_p2sh.go", "xcore/address_p2wpkh_v0.go", "xcore/address_p2wsh_v0.go", "xcore/script.go", "network/network.go"],
 [("DecodeAddress", "xcore/address.go"), ("ToString", "xcore/address_*.go"), ("ParseLockingScript", "xcore/script.go")], tech=T)

prop("C04", "The wire buffer reads back exactly what was written, and never past the end",
 "For every sequence of typed writes (8/16/32/64-bit little-endian integers, CompactSize integers, raw and length-prefixed bytes and strings) the bytes produced are those the Bitcoin wire format prescribes and the same sequence of reads returns the written values and consumes all of them. For every byte string and every sequence of reads, a read that the remaining bytes cannot satisfy reports an error, never crashes, and never returns bytes that are not in the buffer. What was read stays as it is, whatever is written to the buffer or to the slice it was made over afterwards.",
 ["histories", "inputs"], "all write/read sequences up to the depth bound over all types with boundary values (incl. 252/253/65535/65536/2^32-1/2^32/2^64-1), all read sequences over all truncations and all adversarial length prefixes",
 "tests write one fixed sequence and read it back; the guarantee is over every operation sequence and every input",
 ["xbase/buffer.go"], [("Write*/Read*", "xbase/buffer.go"), ("bounds check", "xbase/buffer.go:check")], tech=T)

prop("C05", "Transactions survive serialization in both wire formats",
 "For every transaction the produced bytes equal the Bitcoin wire encoding (BIP144 form exactly when some input carries witness data, legacy form for the witness-stripped serialization), and parsing them yields a transaction with the same version, inputs, outputs, witnesses and lock time that serializes to the same bytes again. This also holds when the receiving object already held another transaction.",
 ["inputs", "histories"], "every combination of version, lock time, input count, output count, script lengths, witness stack shapes, amounts and sequences drawn from boundary alphabets (counts and lengths across the 252/253/65535/65536 CompactSize boundaries), parse-serialize-parse chains and reuse of the receiver",
 "tests round-trip a few fixed transactions; the witness/no-witness split and CompactSize boundaries need every shape",
 ["xcore/transaction.go", "xbase/buffer.go"], [("Serialize/Deserialize", "xcore/transaction.go"), ("SerializeNoWitness/DeserializeNoWitness", "xcore/transaction.go")], tech=T)

prop("C06", "A transaction id commits to all non-witness data and to nothing else",
 "The transaction id is the byte-reversed double-SHA256 of the witness-stripped encoding, so it never changes when witness data is added, replaced, removed, or when the transaction is signed with witness signatures, while changing any version, outpoint, unlocking script, sequence, amount, locking script or lock time changes it. The witness id is the double-SHA256 of the full encoding, equals the id exactly when there is no witness, and changes with every witness change.",
 ["inputs", "histories"], "every single-field and every pair of field mutations of every transaction shape in the alphabet, before and after signing, after re-parsing, and with id queries interleaved at every point",
 "tests compare ids of fixed transactions; non-malleability quantifies over all field changes and call orders",
 ["xcore/transaction.go", "xbase/hash.go"], [("Hash/ID/WitnessHash/WitnessID", "xcore/transaction.go"), ("NewIDToString/NewIDFromString", "xbase/hash.go")], tech=T)

prop("C07", "Signature hashes match the Bitcoin and BIP143 definitions for every hash type",
 "For every transaction, input index and hash type (ALL, NONE, SINGLE, each with or without ANYONECANPAY) the legacy and the version-0 witness signature hashes equal the values the Bitcoin protocol and BIP143 define. The value depends only on the transaction's current content, never on which signature hashes were computed before or on when inputs and outputs were added.",
 ["inputs", "histories"], "all transactions with up to 3 inputs and 3 outputs over small alphabets x every index x the 6 hash types x both algorithms x all interleavings of hash queries with AddInput/AddOutput/SetTxIn/SetVersion/SetLockTime up to the depth bound",
 "tests only use SIGHASH_ALL on freshly built transactions; the other hash types and query histories are never exercised",
 ["xcore/transaction.go"], [("RawSignatureHash", "xcore/transaction.go"), ("WitnessV0SignatureHash", "xcore/transaction.go")],
 state=[("cached prevouts/sequence/outputs digests", "reused between witness signature hashes", "xcore/transaction.go")], tech=T)

prop("C08", "Signing with the right keys yields a transaction that verifies",
 "For every combination of spend kinds (P2PKH with compressed or uncompressed keys, P2WPKH, P2SH and P2WSH multisig m-of-n) and supported hash types, signing every input with sufficient keys (for a multisig: m of its keys, given in the order of the redeem script) succeeds and the result verifies. It still verifies, with the same id, after serializing, parsing and re-attaching the spent outputs, and regardless of the order in which inputs are signed or verified.",
 ["inputs", "configurations", "histories"], "all input-kind vectors up to length 3, all m-of-n with n<=4 (5 thorough) and every sufficient key subset, boundary m with n up to 20, all 6 hash types, all signing orders, with and without re-parsing",
 "tests cover one example per kind with SIGHASH_ALL",
 ["xcore/transaction.go", "xcore/script_p2pkh.go", "xcore/script_p2sh.go", "xcore/script_p2wpkh_v0.go", "xcore/script_p2wsh_v0.go", "xcore/script_multsig.go", "xvm/engine.go"],
 [("SignIndex/EmbedIdxSignature", "xcore/transaction.go"), ("Verify", "xcore/transaction.go"), ("WitnessToUnlockingScriptBytes", "xcore/script_*.go")], tech=T)

prop("C09", "A transaction that was altered or not properly authorised never verifies",
 "After signing with hash type ALL, changing any committed field (version, lock time, any outpoint, sequence, output amount or script, the spent amount for witness inputs) or any signature, key or redeem script makes verification fail; for the other hash types verification fails exactly when a field that hash type commits to changed. Inputs with no signature, with wrong keys, with fewer than the required signatures, with a redeem script that does not hash to the locking script, or with any unlocking data that is not a valid authorisation never verify.",
 ["inputs", "histories"], "all spend kinds x 6 hash types x every committed/uncommitted field mutation x every insufficient key subset x every signature/key/redeem substitution between inputs x all adversarial unlocking scripts up to the length bound over an alphabet of opcodes and pushes",
 "tests tamper with one or two fields; soundness quantifies over every forgery",
 ["xcore/transaction.go", "xcore/script_p2sh.go", "xcore/script_p2wsh_v0.go", "xvm/engine.go", "xvm/instruction_crypto.go"],
 [("Verify", "xcore/transaction.go"), ("Engine.Verify", "xvm/engine.go"), ("opCheckSig/opCheckMultiSig", "xvm/instruction_crypto.go")], tech=T)

prop("C10", "The script engine executes every program as the Bitcoin script rules define",
 "For every program over the supported opcodes, execution either fails or ends with the same main stack a reference interpreter of the Bitcoin script rules (with minimally encoded numbers and conditions; without the limits on script size, operation count and stack depth) computes, including conditional nesting, alternate stack, arithmetic ranges, byte-string boundaries and verification opcodes. Malformed programs, stack underflow, unbalanced conditionals and unknown opcodes are reported as errors, never as success and never as a crash.",
 ["programs"], "all programs up to the length bound over the full opcode table plus boundary pushes, in single-program and unlocking/locking form",
 "tests run each opcode in one or two fixed programs; interaction of opcodes needs all sequences",
 ["xvm/engine.go", "xvm/stack.go", "xvm/opcode.go", "xvm/instruction_*.go"], [("Execute/Verify", "xvm/engine.go"), ("opcode handlers", "xvm/instruction_*.go"), ("stack", "xvm/stack.go")],
 state=[("data stack, alternate stack, condition stack", "interpreter state", "xvm/engine.go")], tech=T)

prop("C11", "Multisig needs exactly m valid signatures by distinct listed keys in order",
 "An m-of-n multisig check succeeds if and only if the m supplied signatures can be matched, in order, to m distinct keys of the n listed keys that validate them. It never succeeds with fewer signatures, duplicated signatures, signatures out of key order, signatures over another hash or by unlisted keys, and malformed counts are errors.",
 ["inputs", "programs"], "all n<=4 (5 thorough), all m, all assignments of every signature slot to {each key, wrong key, empty, garbage} under an abstract verifier, plus m-of-n scripts with real keys through transactions, plus all malformed counts",
 "tests cover 1-of-1, 2-of-2, 2-of-3 in the happy order; the matching rule needs all assignments",
 ["xvm/instruction_crypto.go", "xcore/script_multsig.go"], [("opCheckMultiSig", "xvm/instruction_crypto.go"), ("multisig script construction", "xcore/script_multsig.go")], tech=T)

prop("C12", "Script numbers encode minimally and round-trip over their whole range",
 "Every 64-bit integer a script can hold encodes to the minimal little-endian sign-magnitude byte string of the Bitcoin script rules and decodes back to itself. Decoding with a length limit (up to eight bytes) rejects strings that are too long or not minimally encoded, decodes every other string to its defined value, and narrowing to 32 bits saturates.",
 ["inputs"], "all byte strings up to 3 bytes (every one), all boundary strings up to 9 bytes, all integers with |n| <= 2^17 (2^24 thorough) and all integers within 300 of every power of two",
 "tests use a table of about 100 values",
 ["xvm/scriptnum.go"], [("ScriptNum.Bytes / MakeScriptNum", "xvm/scriptnum.go")], tech=T)

prop("C13", "Scripts built from pushes and opcodes read back as exactly those",
 "A script built from any sequence of opcodes, data pushes and integers is read back as exactly that sequence, with every data push and integer using the shortest push form, and a script's text form (opcode names, decimal integers, 0x raw hex, quoted hex pushes) loads to the script it denotes. The disassembly names the same opcodes and data. Reading any truncated or malformed script reports an error and never returns bytes beyond the script.",
 ["inputs", "programs"], "all build sequences up to the depth bound over all opcodes and pushes of boundary lengths (0,1,75,76,77,255,256,257,520), all small integers, every truncation, and all byte strings up to length 3 as raw scripts",
 "tests build a few scripts; the push-form boundaries and truncations need enumeration",
 ["xvm/scriptbuilder.go", "xvm/scriptreader.go", "xvm/instruction.go"], [("ScriptBuilder", "xvm/scriptbuilder.go"), ("ScriptReader", "xvm/scriptreader.go")], tech=T)

prop("C14", "A built transaction never creates, loses or misdirects money",
 "Whenever building succeeds, every requested payment appears with its exact amount and script, every added coin (one per group) is spent exactly once, inputs equal outputs plus fees exactly, and all change beyond the stated or rate-derived fee goes to the chosen change address. If the coins cannot cover payments plus fees, if fees exceed the maximum, or if any amount would overflow, building fails instead. A setting made for a group counts for that group alone; building changes nothing of the builder, and no later call changes a transaction that was built. Adding an id of other than 32 bytes fails.",
 ["inputs", "configurations"], "all builder call sequences over 0..3 coins, 0..3 payments, change or none, explicit fee or fee rate, maximum fee, data output, one or two groups, with amounts from a boundary alphabet (0, 1, dust, 2^31, 21e14, 2^53, 2^63-1, 2^63, 2^64-1)",
 "tests check two or three scenarios; conservation quantifies over all amounts and call combinations",
 ["xcore/transactionbuilder.go", "xcore/estimate.go", "xcore/transaction.go"], [("BuildTransaction", "xcore/transactionbuilder.go"), ("Fees", "xcore/transaction.go")], tech=T)

prop("C15", "Reported sizes equal the serialized sizes, and fee estimates never fall short",
 "For every transaction, unsigned or signed, the reported base size equals the length of the witness-stripped encoding, the size equals the length of the full encoding, the witness size is their difference, the weight is three times the base size plus the size, and the virtual size is a quarter of the weight rounded up. The estimated size of the transaction a builder is about to sign is at least the virtual size of the signed result, so the fee rate asked for is reached.",
 ["inputs", "configurations"], "all transaction shapes of C05, all signed shapes of C08, and all builder shapes of C14 with signing",
 "tests check internal consistency for P2PKH only",
 ["xcore/transaction.go", "xcore/estimate.go"], [("BaseSize/WitnessSize/Size/Weight/Vsize", "xcore/transaction.go"), ("EstimateSize/EstimateFees", "xcore/estimate.go")], tech=T)

prop("C16", "HD keys follow BIP32 and public and private derivation commute",
 "For every seed and path, derived keys and chain codes equal those BIP32 defines, and deriving a non-hardened child and taking its public key equals deriving that child from the public key; hardened children of a public key are refused. Serialized extended keys are the BIP32 text for the network and parse back to the same key on the next derivation, malformed texts are rejected, and a path text derives the same key as its steps one by one while invalid path texts are rejected.",
 ["inputs", "histories"], "all seeds of the alphabet (incl. ones giving leading-zero keys) x all paths up to the depth bound over boundary indices, each step in private and public form with a string round trip possibly inserted at every step; all path texts up to the length bound over the path alphabet; all field and single-byte mutations of serialized keys re-checksummed",
 "tests follow the BIP32 vectors; commutation and round trips must hold along every path",
 ["xcore/bip32/hdkey.go"], [("Derive/DeriveByPath", "xcore/bip32/hdkey.go"), ("ToString/NewHDKeyFromString", "xcore/bip32/hdkey.go")], tech=T)

prop("C17", "BIP39 mnemonics and entropy determine each other and bad checksums are rejected",
 "Texts are taken in their normalized form. For every allowed entropy size and content the mnemonic is the one BIP39 defines, and recovering entropy from it returns the same bytes, leading zeros included. A mnemonic is accepted only if its word count, words and checksum are valid, and the seed is PBKDF2-HMAC-SHA512 of the mnemonic and passphrase as BIP39 defines.",
 ["inputs"], "all five sizes x boundary entropies x every single-bit flip, every last word (all 2048) for each size, every single-word substitution for chosen mnemonics, word counts 0..27, each word list",
 "tests use the reference vectors",
 ["xcore/bip39/bip39.go", "xcrypto/pbkdf2/pbkdf2.go"], [("NewMnemonic/EntropyFromMnemonic/MnemonicToByteArray", "xcore/bip39/bip39.go"), ("NewSeed", "xcore/bip39/bip39.go")], tech=T)

prop("C18", "Generated secrets come from the system's secure randomness only",
 "Fresh entropy, mnemonics and random HD keys are drawn from the operating system's cryptographic random source: with the clock and every other environment input held fixed, two draws differ, and no draw can be reproduced from the time at which it was made. Requested sizes are honoured exactly, and unsupported sizes are refused.",
 ["inputs", "fault_sequences"], "all sizes 0..300 bits; every pair among repeated draws under a frozen and under a repeated clock; every answer of the random source up to the deviation bound (deterministic byte streams, failures at each read)",
 "tests only check the length of one draw",
 ["xcore/bip39/bip39.go", "xcore/bip32/hdkey.go"], [("NewEntropy", "xcore/bip39/bip39.go"), ("NewHDKeyRand", "xcore/bip32/hdkey.go")], tech=T)

prop("C19", "ECDSA signatures are valid, low-S, deterministic, and verification is exact",
 "For every private key and non-empty message hash the signature verifies under the matching public key, equals the RFC 6979 low-S signature, and is the same every time. Verification accepts a pair (r,s) exactly when the ECDSA equation holds with 1<=r,s<N, and signature encodings are strict DER that decode back to the same pair.",
 ["inputs"], "on small prime-order curves installed in the real code: every key x every hash x every (r,s) pair; on secp256k1: boundary keys x boundary hashes against an independent implementation, every single-bit mutation, boundary r and s, all malformed encodings",
 "tests sign a few messages; the accept-iff equation quantifies over all keys, hashes and pairs",
 ["xcrypto/ecdsa/ecdsa.go", "xcrypto/ecdsa/rfc6979.go", "xcrypto/signature_ecdsa.go"], [("Sign/Verify", "xcrypto/ecdsa/ecdsa.go"), ("NonceRFC6979", "xcrypto/ecdsa/rfc6979.go"), ("DER codec", "xcrypto/signature_ecdsa.go")], tech=T)

prop("C20", "Schnorr signatures verify exactly when the Schnorr equation holds",
 "For every private key and 32-byte message the Schnorr signature verifies under the matching public key, is deterministic, and is encoded in 64 bytes that decode back to it. Verification accepts a signature exactly when r and s are in range and the curve point s*G - e*P has x-coordinate r and a quadratic-residue y, and rejects malformed encodings without crashing.",
 ["inputs"], "on small prime-order curves installed in the real code: every key x message class x every (r,s); on secp256k1: boundary keys and messages against an independent implementation, every single-bit mutation, boundary r and s, all encoding lengths 0..130",
 "tests use the published vectors only",
 ["xcrypto/schnorr/schnorr.go", "xcrypto/signature_schnorr.go"], [("Sign/Verify", "xcrypto/schnorr/schnorr.go"), ("codec", "xcrypto/signature_schnorr.go")], tech=T)

prop("C21", "Curve arithmetic is the secp256k1 group and key encodings are exact",
 "Point addition, doubling and scalar multiplication agree with the group law for every pair of points and every scalar, the point at infinity and inverse points included. A public key's compressed, uncompressed and hybrid encodings parse back to the same key, and parsing accepts a byte string only if it is the encoding of a point on the curve; adding private keys and adding public keys commute with taking public keys.",
 ["inputs"], "on small prime-order curves installed in the real code: all pairs of points, all scalars, all encodings with all prefixes; on secp256k1: all pairs of boundary multiples, boundary scalars, leading-zero coordinates, every prefix byte and length 0..66, every single-bit mutation",
 "tests check a few multiples",
 ["xcrypto/secp256k1/secp256k1.go", "xcrypto/secp256k1/sec.go", "xcrypto/secp256k1/scalar.go", "xcrypto/pubkey.go", "xcrypto/prvkey.go"], [("Add/Double/ScalarMult", "xcrypto/secp256k1/secp256k1.go"), ("SecMarshal/SecUnmarshal", "xcrypto/secp256k1/sec.go"), ("PubKeyFromBytes", "xcrypto/pubkey.go")], tech=T)

prop("C22", "Two-party ECDSA produces valid signatures under the joint key, for both parties",
 "For every pair of private keys and message hash, both parties following the protocol compute the same joint public key and nonce point, both obtain a signature that verifies under the joint key in low-S form, and phases may be interleaved between the parties in any order their inputs allow. A party that is sent a message made for another hash, or an altered one (other than a nonce point that was negated), never obtains a signature that verifies for its own hash. A party may be used for any number of hashes in turn, with the same peer or another and also after a run that was given up, and never uses one nonce for two different hashes; closing it changes nothing it has handed out.",
 ["inputs", "schedules"], "on a small prime-order curve installed in the real code: every key pair x every hash x every phase interleaving x every altered message; on secp256k1: boundary keys and hashes",
 "tests run one fixed key pair once in one order",
 ["xcrypto/mpc_ecdsa.go", "xcrypto/paillier/homomorphism.go"], [("Phase1..Phase5", "xcrypto/mpc_ecdsa.go")], state=[("party state", "keys, nonce, Paillier keys", "xcrypto/mpc_ecdsa.go")], tech=T)

prop("C23", "Multi-party Schnorr signing yields a signature valid under the joint key",
 "For every set of two or more private keys that do not sum to zero and every message, all parties compute the same joint public key and the aggregated signature verifies under it. Repeating a phase gives the same result, phases may be interleaved in any order their inputs allow, and an altered share never yields a signature that verifies. A party may be used for any number of messages in turn, with the same peers or others and also after a run that was given up, and never uses one nonce for two different messages; closing it changes nothing it has handed out.",
 ["inputs", "schedules"], "on a small prime-order curve installed in the real code: every key pair x message class x every interleaving and repetition x every altered share; on secp256k1: boundary keys and messages, 2 and 3 parties",
 "tests only compare the two parties' outputs with each other",
 ["xcrypto/mpc_schnorr.go", "xcrypto/schnorr/schnorr.go"], [("Phase1..Phase5", "xcrypto/mpc_schnorr.go")], state=[("party nonce", "k0, R", "xcrypto/mpc_schnorr.go")], tech=T)

prop("C24", "The adaptor signature completes with the secret and reveals exactly the secret",
 "For every pair of keys, secret in 1..N-1 and hash, the party holding the secret obtains a signature that verifies under the joint key, and from that published signature the other party computes exactly that secret (up to sign). Before the secret is applied, what the other party holds does not verify as a signature, and a wrong secret never yields one. Both parties may be used for any number of hashes in turn, also after a run that was given up, and never use one nonce for two different hashes; closing one changes nothing it has handed out.",
 ["inputs", "schedules"], "on a small prime-order curve installed in the real code: every key pair x secret x hash; on secp256k1: boundary keys, secrets and hashes",
 "the test runs one fixed example",
 ["xcrypto/scriptless_ecdsa.go"], [("ScriptlessPhase1..6", "xcrypto/scriptless_ecdsa.go")], tech=T)

prop("C25", "Paillier encryption is additively homomorphic over its whole plaintext range",
 "For every plaintext in range, decryption inverts encryption whatever randomness was used, and adding or subtracting ciphertexts, adding a plaintext and multiplying or dividing by a plaintext decrypt to the corresponding arithmetic modulo the key's modulus. Division is by plaintexts coprime to the modulus and is refused for others. Constants outside the range, negative ones included, count modulo the key's modulus or are refused. Plaintexts to encrypt that are out of range are refused, and the operations refuse ciphertexts that are not positive or not below the square of the modulus (decryption refuses those not positive and takes larger ones modulo the square, or refuses them).",
 ["inputs"], "for every small key (all prime pairs up to the bound): all plaintexts, all pairs, all randomizers; boundary plaintexts for real key sizes; all out-of-range values near the bounds",
 "tests use a few random plaintexts on one key",
 ["xcrypto/paillier/paillier.go", "xcrypto/paillier/homomorphism.go"], [("Encrypt/Decrypt", "xcrypto/paillier/paillier.go"), ("Add/Sub/MultPlaintext/DivPlaintext", "xcrypto/paillier/homomorphism.go")], tech=T)

prop("C26", "Merkle proofs verify for every leaf and for nothing else",
 "For every list of 32-byte leaves the root is the Bitcoin merkle root, and the proof produced for each leaf verifies against that root. A proof verifies for no other leaf, no other root, and no altered, reordered, truncated or extended path, and a leaf that is not in the list has no proof. (As in Bitcoin, an inner node is not told apart from a leaf; a missing sibling in a path stands for the node itself.)",
 ["inputs"], "all list lengths 1..17 (33 thorough), all leaf patterns over {distinct, duplicated}, every leaf x every other leaf's proof, every single-byte and structural path mutation",
 "tests use one or two lists",
 ["xcrypto/merkle.go"], [("Root/Proofs/Verify", "xcrypto/merkle.go")], tech=T)

prop("C27", "The message stream delivers exactly the messages sent, however bytes arrive",
 "Any sequence of messages written to the stream is read back as the same sequence under every fragmentation of the byte stream. A header with another network's magic, a payload that does not match its checksum or length, a truncated stream or an I/O error at any byte is reported as an error instead of a message, and no header causes allocation beyond the protocol's maximum message size. A frame is read as the message its whole command field (the name, zero bytes after it) names, never as another. Payloads over 32 MiB and commands over 12 bytes are refused.",
 ["inputs", "fault_sequences", "histories"], "all sequences of up to 3 message kinds x every split point (1 and 2 splits), one-byte chunks, errors/EOF/short reads at every byte, every single-bit corruption of every header and payload byte",
 "tests read one message from a mock connection in a single chunk",
 ["xprotocol/stream.go", "xprotocol/command.go"], [("ReadMessage/WriteMessage", "xprotocol/stream.go")], observe=["net.Conn stand-in"], tech=T)

prop("C28", "Every protocol message encodes to the wire format and decodes back to itself",
 "For each message kind and every content within its limits, the encoding is the one the Bitcoin protocol prescribes, its reported size is the encoded length, and decoding into a fresh or already used message of that kind gives the same content. Exceeding the limit on inventory entries or headers is refused however the entries are added, and malformed, truncated or over-limit payloads, and counts the payload cannot hold, are errors. An empty locator list is sent as a single zero hash, and a new version message carries the settings of its network.",
 ["inputs", "histories"], "all message kinds x boundary field values x counts across every limit and CompactSize boundary, all batchings of additions, every truncation, every count field value in the adversarial alphabet",
 "tests round-trip one instance per message",
 ["xprotocol/msg*.go", "xprotocol/invvect.go", "xprotocol/blockheader.go"], [("Encode/Decode/Size", "xprotocol/msg*.go")], tech=T)

prop("C29", "A connection is full duplex: sends complete while reading, frames stay whole",
 "Sending never waits for the peer to send something first: whatever the schedule of one reader and several senders, a send completes once the transport accepts its bytes, and the bytes of different messages never mix. Every complete message received is handed to the receive callback exactly once, in order, one at a time however long the callback takes, and the disconnect callback runs, after them, exactly once when the connection ends, with no deadlock if a callback sends or closes. (After a local close, messages received but not yet read may be dropped.) What is sent, and how slowly the peer takes it, changes nothing of what is received and when, nor the reverse, and nothing is sent after a part of a frame.",
 ["schedules", "fault_sequences"], "one read loop, up to 3 senders, a closer, callbacks that send or close, and a transport whose every read and write is a scheduling point and may fail half way: all schedules up to the preemption bound; all pairs of send and receive timings to the second on a virtual clock",
 "the test runs a single favourable schedule",
 ["xprotocol/connection.go", "xprotocol/stream.go"], [("ReadLoop/Send/Close", "xprotocol/connection.go"), ("stream locking", "xprotocol/stream.go")], tech="stateless model checking of the real code under a controlled transport: all schedules up to a preemption bound")

prop("C30", "Verifying and signing concurrently gives the sequential results without races",
 "Independent goroutines may verify, sign, hash, encode, derive and decode at the same time, on separate objects or by reading the same transaction, script, key or curve, and every one gets the result it would get alone. No data is raced on, and no operation modifies the caller's byte slices or keys it was given. (Signing writes to the inputs of the transaction it is called on: it is not a read of it.)",
 ["schedules", "inputs"], "all pairs of read-only operations of the public API on shared objects, in both orders and concurrently under the race detector; all operations x slices with spare capacity and shared backing arrays",
 "tests are single threaded and never look at their inputs again",
 ["xcore/transaction.go", "xvm/engine.go", "xbase/bech32.go", "xcrypto/secp256k1/secp256k1.go"], [("per-call engines and copies", "xcore/transaction.go, xvm/engine.go")], tech="exhaustive enumeration of operation pairs and orders on the real code, plus a free-running race-detector pass over the same pairs")

prop("C31", "Every parser is total and uses memory in proportion to its input",
 "For every byte string or text, each parser of untrusted data (transactions, scripts, addresses, keys, signatures, messages, block headers, extended keys, mnemonics) returns either a value or an error: it never crashes, hangs, or allocates more than a constant plus a fixed multiple of the input size. Whatever it accepts can be inspected, printed, serialized and verified without crashing, and executing a script takes memory in proportion to its size and its number of instructions.",
 ["inputs"], "every byte string up to length 2 (3 thorough), every truncation and every single-byte change of valid encodings, every count/length field replaced by every adversarial CompactSize value, all followed by every accessor",
 "tests feed valid inputs and a few invalid ones",
 ["xbase/buffer.go", "xcore/transaction.go", "xcore/script.go", "xcore/address.go", "xcrypto/pubkey.go", "xprotocol/stream.go", "xcore/bip32/hdkey.go"], [("bounds checks", "xbase/buffer.go"), ("parsers", "anchored files")], tech=T)

prop("C32", "Hash primitives equal their standards however the data is fed in",
 "RIPEMD-160, SHA-256 and their compositions, and PBKDF2, produce the standard's digest for every input length, for every way of splitting the input into writes, after reset, and when a digest is taken in mid-stream and writing continues.",
 ["inputs", "histories"], "all lengths 0..200 (and around 2^k block boundaries), all two-way (three-way thorough) splits, all write/sum/reset sequences up to the depth bound; PBKDF2 for all password/salt lengths around the block size, iteration counts and key lengths, against independent implementations",
 "tests use the published vectors",
 ["xcrypto/ripemd160/ripemd160.go", "xcrypto/ripemd160/ripemd160block.go", "xcrypto/hash.go", "xcrypto/pbkdf2/pbkdf2.go"], [("digest.Write/Sum/Reset", "xcrypto/ripemd160/ripemd160.go"), ("Key", "xcrypto/pbkdf2/pbkdf2.go")], tech=T)

prop("C33", "The RPC client returns the node's answer or an error, never a crash or a guess",
 "For every reply a node (or a faulty proxy) can send, each call returns exactly the values in the node's result (of the fields the client models), or an error when the node reports one, when the transport or HTTP status fails, or when the body is not a well-formed reply with a result. Requests carry the method, parameters and credentials of the call.",
 ["inputs", "fault_sequences"], "all 4 methods x all reply shapes (result present/null/missing/wrong type, error present/null/missing, extra fields, truncation at every byte, empty body) x HTTP statuses x connection failures",
 "tests use one good reply and one bad URL per method",
 ["xrpc/client.go", "xrpc/method.go", "xrpc/models.go"], [("request/response handling", "xrpc/client.go"), ("result decoding", "xrpc/method.go")], tech=T)

prop("C34", "Errors name what failed: code, state, message and values, each on its own",
 "An error made from a table carries that table's code, state and message with the given values filled in, and prints the same text however it is printed (Error, %v, %s, %q, wrapped; %+v adds the calls that led to it). Errors are independent: what a caller does to one changes neither the table nor any other error, made before or after. The failures the library documents with a code (indexes out of range, wrong redeem scripts, missing signatures, wrong script types and addresses, builder refusals, script execution) are reported with that code and with the values that failed.",
 ["inputs", "histories"], "every table x every code (listed or not) x argument lists; histories of making, changing and printing errors; every documented failure x positions, counts, amounts",
 "tests make one error and look at one field; the failing calls are tested for err != nil",
 ["xerror/error.go", "xerror/stack.go", "xcore/error.go", "xvm/error.go"], [("error construction and printing", "xerror/error.go"), ("error tables", "xcore/error.go"), ("execution errors", "xvm/engine.go"), ("failing calls", "xcore/transaction.go")], tech=T)

prop("C35", "A call that returns an error leaves everything as it was",
 "When a call is refused with an error it has changed nothing: a transaction serializes, hashes, signs and verifies as before the refused call (signing, embedding, attaching, parsing), a builder put right after a refused build gives the transaction it would have given without it, a message refused more entries keeps those it has, a stream writes nothing of a message it refuses, the script stack keeps its items when an operation is refused for want of items or for its count, and two signing parties that refused a bad message still complete with the good one.",
 ["histories", "inputs"], "all pairs of refused calls, at every position, over transaction shapes and stages of signing; all truncations and count corruptions of a parse; all subsets of builder faults; all stack operation sequences to a depth; refused messages at every phase",
 "tests stop at the error; none goes on using the object",
 ["xcore/transaction.go", "xcore/transactionbuilder.go", "xvm/stack.go", "xprotocol/stream.go", "xprotocol/msginv.go", "xprotocol/msggetdata.go", "xprotocol/msggetheaders.go", "xprotocol/msgheaders.go", "xcrypto/mpc_ecdsa.go", "xcrypto/scriptless_ecdsa.go"], [("signing and embedding", "xcore/transaction.go"), ("transaction parsing", "xcore/transaction.go"), ("build", "xcore/transactionbuilder.go"), ("stack operations", "xvm/stack.go"), ("message limits", "xprotocol/msginv.go"), ("message stream", "xprotocol/stream.go")], tech=T)

prop("C36", "Debugging an execution shows every step as it happened and changes no verdict",
 "With debugging on, a script execution leaves one record per instruction executed, in order, numbered from 1: the instruction's name, the stack after it, and the script that remains. Debugging on, off, or turned off again changes no verdict and no error. An engine that was used before, for an execution that succeeded, failed or stopped half way, verifies as a new one and records the same steps.",
 ["inputs", "histories"], "all programs to a length over the engine's alphabet, after operand prefixes; every push size and form; all histories of verifications on one engine, with and without debugging, strictness and clean stack",
 "the one test runs three programs and prints the traces",
 ["xvm/engine.go", "xvm/stack.go", "xvm/scriptreader.go"], [("execution loop", "xvm/engine.go"), ("trace records", "xvm/engine.go"), ("remaining script", "xvm/scriptreader.go")], tech=T)

prop("C37", "What a transaction prints as is what it says, and printing changes nothing",
 "The printed form of a transaction states, in order and for every content, of each input the outpoint, value, scripts, signature hash and witness, of each output the amount and script, and the base, witness, virtual and total size, weight, fees, fee per byte and share of the witness, as they are: ids in the usual byte order, scripts by the names of their instructions. Printing changes nothing of the transaction and printing again gives the same text. An inventory entry's type prints as its own name, and unknown types as unknown.",
 ["inputs"], "every transaction of 1..3 inputs over all kinds of coin, signed and unsigned, x outputs x boundary amounts, lock times and versions; all inventory types over the 32-bit boundaries",
 "the tests print a transaction without looking at the text",
 ["xcore/transaction.go", "xprotocol/invvect.go"], [("Transaction.ToString", "xcore/transaction.go"), ("InvType.String", "xprotocol/invvect.go")], tech=T)
