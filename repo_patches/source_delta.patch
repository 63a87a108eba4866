From 3e99f628419f92f86336b7bff0dc53172ea6612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 01/69] fix: segwit address decoding panicked on a text without
 data and accepted versions above 16 and program lengths BIP173 forbids

---
 xbase/witness.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xbase/witness.go b/xbase/witness.go
index a868b18..0f700ef 100644
--- a/xbase/witness.go
+++ b/xbase/witness.go
@@ -15,10 +15,22 @@ func WitnessDecode(addr string) (string, byte, []byte, error) {
 	if err != nil {
 		return "", 0, nil, err
 	}
+	if len(data) < 1 {
+		return "", 0, nil, fmt.Errorf("missing witness version")
+	}
+	if data[0] > 16 {
+		return "", 0, nil, fmt.Errorf("invalid witness version: %v", data[0])
+	}
 	res, err := convertBits(data[1:], 5, 8, false)
 	if err != nil {
 		return "", 0, nil, err
 	}
+	if len(res) < 2 || len(res) > 40 {
+		return "", 0, nil, fmt.Errorf("invalid witness program length: %v", len(res))
+	}
+	if data[0] == 0 && len(res) != 20 && len(res) != 32 {
+		return "", 0, nil, fmt.Errorf("invalid version 0 witness program length: %v", len(res))
+	}
 	return hrp, data[0], res, nil
 }
 
-- 
2.43.0


From 4552e5a5a11d2ae8a05d4a2b48717edb4079070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 02/69] fix: an upper-case segwit address, which BIP173
 requires decoders to accept, was rejected

---
 xcore/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/address.go b/xcore/address.go
index 16cf908..ee09967 100644
--- a/xcore/address.go
+++ b/xcore/address.go
@@ -35,7 +35,7 @@ func DecodeAddress(addr string, net *network.Network) (Address, error) {
 	oneIndex := strings.IndexByte(addr, '1')
 	if oneIndex == 2 {
 		prefix := addr[:oneIndex]
-		if prefix == net.Bech32HRPSegwit {
+		if strings.ToLower(prefix) == net.Bech32HRPSegwit {
 			_, version, witnessProgram, err := xbase.WitnessDecode(addr)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From c45fc0ae2154ca252c2f17a19c64363ba2b8e3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 03/69] fix: reading a length-prefixed field whose length
 exceeds the int range crashed instead of reporting an error

---
 xbase/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index 806d153..e6274bb 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -30,7 +30,7 @@ func NewBufferReader(data []byte) *Buffer {
 }
 
 func (b *Buffer) check(l int) error {
-	if (b.seek + l) > b.length {
+	if l < 0 || l > b.length-b.seek {
 		return fmt.Errorf("error.seek[%v].required[%v].length[%v]", b.seek, l, b.length)
 	}
 	return nil
-- 
2.43.0


From cdbc8878e430c48d0dc29a6ba446025f3da8df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 04/69] fix: the witness form was produced for inputs without
 witness data and dropped for parsed witness data, legacy bytes did not parse,
 a reused receiver kept old inputs, and huge counts crashed

---
 xcore/transaction.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index b2c8b11..b27a22c 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -434,7 +434,7 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 // HasWitness -- returns whether the inputs contain witness datas.
 func (tx *Transaction) HasWitness() bool {
 	for _, in := range tx.inputs {
-		if in.HasWitness() {
+		if len(in.Witness) > 0 {
 			return true
 		}
 	}
@@ -505,8 +505,9 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	if marker, err = buffer.ReadU8(); err != nil {
 		return err
 	}
+	// No marker, the transaction is in the format without witness datas(BIP0144).
 	if marker != witnessMarker {
-		return fmt.Errorf("witness.marker.error.want:%x.got:%x", witnessMarker, marker)
+		return tx.DeserializeNoWitness(data)
 	}
 
 	var flag byte
@@ -522,6 +523,10 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	if ins, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	if ins > uint64(len(data)) {
+		return fmt.Errorf("transaction.inputs.count[%v].exceeds.data.size[%v]", ins, len(data))
+	}
+	tx.inputs = nil
 	if ins > 0 {
 		tx.inputs = make([]*TxIn, ins)
 		for i := 0; i < int(ins); i++ {
@@ -547,6 +552,10 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	if outs, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	if outs > uint64(len(data)) {
+		return fmt.Errorf("transaction.outputs.count[%v].exceeds.data.size[%v]", outs, len(data))
+	}
+	tx.outputs = nil
 	if outs > 0 {
 		tx.outputs = make([]*TxOut, outs)
 		for i := 0; i < int(outs); i++ {
@@ -570,6 +579,9 @@ func (tx *Transaction) Deserialize(data []byte) error {
 				return err
 			}
 
+			if witCount > uint64(len(data)) {
+				return fmt.Errorf("transaction.witness.count[%v].exceeds.data.size[%v]", witCount, len(data))
+			}
 			in.Witness = make([][]byte, witCount)
 			for j := uint64(0); j < witCount; j++ {
 				if in.Witness[j], err = buffer.ReadVarBytes(); err != nil {
@@ -634,6 +646,10 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	if ins, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	if ins > uint64(len(data)) {
+		return fmt.Errorf("transaction.inputs.count[%v].exceeds.data.size[%v]", ins, len(data))
+	}
+	tx.inputs = nil
 	if ins > 0 {
 		tx.inputs = make([]*TxIn, ins)
 		for i := 0; i < int(ins); i++ {
@@ -659,6 +675,10 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	if outs, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	if outs > uint64(len(data)) {
+		return fmt.Errorf("transaction.outputs.count[%v].exceeds.data.size[%v]", outs, len(data))
+	}
+	tx.outputs = nil
 	if outs > 0 {
 		tx.outputs = make([]*TxOut, outs)
 		for i := 0; i < int(outs); i++ {
-- 
2.43.0


From 30dc68578c33ccc99b4c74e1e27e2f6706fffd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 05/69] fix: legacy signature hashes were wrong for every hash
 type but ALL, BIP143 hashes for SINGLE ignored the matching output, and
 cached BIP143 digests went stale across hash types and edits

---
 xcore/transaction.go | 145 +++++++++++++++++++++++++------------------
 1 file changed, 84 insertions(+), 61 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index b27a22c..741cd9b 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -7,6 +7,7 @@ package xcore
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/keyfuse/tokucore/xbase"
@@ -111,13 +112,10 @@ func NewTxOut(value uint64, script []byte) *TxOut {
 
 // Transaction -- the bitcoin transaction.
 type Transaction struct {
-	version      uint32
-	lockTime     uint32
-	inputs       []*TxIn
-	outputs      []*TxOut
-	hashPrevouts []byte
-	hashSequence []byte
-	hashOutputs  []byte
+	version  uint32
+	lockTime uint32
+	inputs   []*TxIn
+	outputs  []*TxOut
 }
 
 // NewTransaction -- creates a new Transaction.
@@ -280,28 +278,61 @@ func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, e
 // RawSignatureHash -- returns transaction hash used to get signed/verified.
 func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 	buffer := xbase.NewBuffer()
+	baseType := hashType & sigHashMask
+	anyOneCanPay := (hashType & SigHashAnyOneCanPay) != 0
+
+	// SINGLE without the matching output, the hash is the number one.
+	if baseType == SigHashSingle && idx >= len(tx.outputs) {
+		one := make([]byte, hashSize)
+		one[0] = 0x01
+		return one
+	}
 
 	// version
 	buffer.WriteU32(tx.version)
-	switch hashType {
-	case SigHashAll:
+
+	// inputs
+	if anyOneCanPay {
+		buffer.WriteVarInt(1)
+	} else {
 		buffer.WriteVarInt(uint64(len(tx.inputs)))
-		for i, in := range tx.inputs {
-			buffer.WriteBytes(in.Hash)
-			buffer.WriteU32(in.Index)
-			if i == idx {
-				if in.RedeemScript != nil {
-					buffer.WriteVarBytes(in.RedeemScript)
-				} else {
-					script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
-					buffer.WriteVarBytes(script)
-				}
+	}
+	for i, in := range tx.inputs {
+		if anyOneCanPay && i != idx {
+			continue
+		}
+		buffer.WriteBytes(in.Hash)
+		buffer.WriteU32(in.Index)
+		if i == idx {
+			if in.RedeemScript != nil {
+				buffer.WriteVarBytes(in.RedeemScript)
 			} else {
-				buffer.WriteVarBytes(nil)
+				script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
+				buffer.WriteVarBytes(script)
 			}
+		} else {
+			buffer.WriteVarBytes(nil)
+		}
+		if i != idx && (baseType == SigHashNone || baseType == SigHashSingle) {
+			buffer.WriteU32(0)
+		} else {
 			buffer.WriteU32(in.Sequence)
 		}
+	}
 
+	// outputs
+	switch baseType {
+	case SigHashNone:
+		buffer.WriteVarInt(0)
+	case SigHashSingle:
+		buffer.WriteVarInt(uint64(idx + 1))
+		for i := 0; i < idx; i++ {
+			buffer.WriteU64(math.MaxUint64)
+			buffer.WriteVarBytes(nil)
+		}
+		buffer.WriteU64(tx.outputs[idx].Value)
+		buffer.WriteVarBytes(tx.outputs[idx].Script)
+	default:
 		buffer.WriteVarInt(uint64(len(tx.outputs)))
 		for _, out := range tx.outputs {
 			buffer.WriteU64(out.Value)
@@ -319,65 +350,57 @@ func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []byte {
 	var zeroHash [32]byte
 	txIn := tx.inputs[idx]
+	hashPrevouts := zeroHash[:]
+	hashSequence := zeroHash[:]
+	hashOutputs := zeroHash[:]
 
 	// hashPrevouts.
-	// If anyone can pay isn't active, then we can use the cached
-	// hashPrevOuts, otherwise we just write zeroes for the prev outs.
+	// If anyone can pay is active, we just write zeroes for the prev outs.
 	if (hashType & SigHashAnyOneCanPay) == 0 {
-		if tx.hashPrevouts == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteBytes(in.Hash[:])
-				hashBuffer.WriteU32(in.Index)
-			}
-			tx.hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteBytes(in.Hash[:])
+			hashBuffer.WriteU32(in.Index)
 		}
-	} else {
-		tx.hashPrevouts = zeroHash[:]
+		hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
-	// If the sighash isn't anyone can pay, single, or none, the use the
-	// cached hash sequences, otherwise write all zeroes for the
-	// hashSequence.
+	// If the sighash is anyone can pay, single, or none, write all zeroes
+	// for the hashSequence.
 	if (hashType&SigHashAnyOneCanPay) == 0 && (hashType&sigHashMask) != SigHashSingle && (hashType&sigHashMask) != SigHashNone {
-		if tx.hashSequence == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteU32(in.Sequence)
-			}
-			tx.hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteU32(in.Sequence)
 		}
-	} else {
-		tx.hashSequence = zeroHash[:]
-	}
-
-	// If the current signature mode isn't single, or none, then we can
-	// re-use the pre-generated hashoutputs sighash fragment. Otherwise,
-	// we'll serialize and add only the target output index to the signature
-	// pre-image.
-	if hashType&SigHashSingle != SigHashSingle && hashType&SigHashNone != SigHashNone {
-		if tx.hashOutputs == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, out := range tx.outputs {
-				hashBuffer.WriteU64(out.Value)
-				hashBuffer.WriteVarBytes(out.Script)
-			}
-			tx.hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
+		hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	}
+
+	// If the current signature mode is single, only the output with the
+	// same index is hashed, and with none no output is.
+	if (hashType&sigHashMask) != SigHashSingle && (hashType&sigHashMask) != SigHashNone {
+		hashBuffer := xbase.NewBuffer()
+		for _, out := range tx.outputs {
+			hashBuffer.WriteU64(out.Value)
+			hashBuffer.WriteVarBytes(out.Script)
 		}
-	} else {
-		tx.hashOutputs = zeroHash[:]
+		hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	} else if (hashType&sigHashMask) == SigHashSingle && idx < len(tx.outputs) {
+		hashBuffer := xbase.NewBuffer()
+		hashBuffer.WriteU64(tx.outputs[idx].Value)
+		hashBuffer.WriteVarBytes(tx.outputs[idx].Script)
+		hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
 	buffer := xbase.NewBuffer()
 	buffer.WriteU32(tx.version)
-	buffer.WriteBytes(tx.hashPrevouts)
-	buffer.WriteBytes(tx.hashSequence)
+	buffer.WriteBytes(hashPrevouts)
+	buffer.WriteBytes(hashSequence)
 	buffer.WriteBytes(txIn.Hash)
 	buffer.WriteU32(txIn.Index)
 	buffer.WriteVarBytes(txIn.WitnessScriptCode)
 	buffer.WriteU64(txIn.Value)
 	buffer.WriteU32(txIn.Sequence)
-	buffer.WriteBytes(tx.hashOutputs)
+	buffer.WriteBytes(hashOutputs)
 	buffer.WriteU32(tx.lockTime)
 	buffer.WriteU32(uint32(hashType))
 	return xcrypto.DoubleSha256(buffer.Bytes())
-- 
2.43.0


From ff8cfa9d8d42a94940bc494e54e784e9e409fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 06/69] fix: a script with an unterminated conditional was
 accepted (any output could be spent with OP_1 OP_0 OP_IF), a
 pay-to-script-hash redeem script was not executed when the unlocking script
 left fewer than two other items, and the caller's unlocking bytes could be
 overwritten

---
 xvm/engine.go | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index b6f20b6..a6d6261 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -87,6 +87,8 @@ func (vm *Engine) Execute(program []byte) error {
 
 // Verify -- verify the unlocking and locking.
 func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
+	vm.reset()
+
 	// Unlocking.
 	if err := vm.execute(unlocking, false); err != nil {
 		return err
@@ -95,13 +97,18 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 
 	// Reset.
 	vm.reset()
-	script := append(unlocking, locking...)
+	script := make([]byte, 0, len(unlocking)+len(locking))
+	script = append(script, unlocking...)
+	script = append(script, locking...)
 	if err := vm.execute(script, true); err != nil {
 		return err
 	}
 
-	// P2SH.
-	if vm.dstack.Depth() > 1 {
+	// P2SH(BIP0016).
+	if isPayToScriptHash(locking) {
+		if !isPushOnly(unlocking) {
+			return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "p2sh.unlocking.is.not.push.only")
+		}
 		vm.dstack = copyStk
 		redeem, err := vm.dstack.PopByteArray()
 		if err != nil {
@@ -112,6 +119,28 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 	return nil
 }
 
+// isPayToScriptHash -- returns true if the script is OP_HASH160 OP_DATA_20 <20 bytes> OP_EQUAL.
+func isPayToScriptHash(script []byte) bool {
+	return len(script) == 23 &&
+		script[0] == OP_HASH160 &&
+		script[1] == OP_DATA_20 &&
+		script[22] == OP_EQUAL
+}
+
+// isPushOnly -- returns true if the script only pushes data.
+func isPushOnly(script []byte) bool {
+	instrs, err := NewScriptReader(script).AllInstructions()
+	if err != nil {
+		return false
+	}
+	for _, instr := range instrs {
+		if instr.OpCode() > OP_16 {
+			return false
+		}
+	}
+	return true
+}
+
 // Traces -- returns the trace records.
 func (vm *Engine) Traces() []Trace {
 	return vm.traces
@@ -156,6 +185,10 @@ func (vm *Engine) execute(program []byte, final bool) error {
 		vm.lastOp = vm.instruction.op.name
 	}
 
+	if len(vm.cstack) > 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "unbalanced.conditional.at.end.of.script.execution")
+	}
+
 	if final {
 		if vm.dstack.Depth() > 0 {
 			v, err := vm.dstack.PopBool()
@@ -184,5 +217,6 @@ func (vm *Engine) branchShouldSkip() bool {
 
 func (vm *Engine) reset() {
 	vm.pc = 0
+	vm.cstack = nil
 	vm.dstack.Clean()
 }
-- 
2.43.0


From 7385931737c4221e22051eeee0f018de3600e085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 07/69] fix: a multisig check with an empty signature, a
 negative or huge count, or without a verifier crashed

---
 xvm/instruction_crypto.go | 40 ++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/xvm/instruction_crypto.go b/xvm/instruction_crypto.go
index 43901c1..b945f64 100644
--- a/xvm/instruction_crypto.go
+++ b/xvm/instruction_crypto.go
@@ -12,6 +12,9 @@ import (
 	"github.com/keyfuse/tokucore/xerror"
 )
 
+// maxPubKeysPerMultiSig -- the maximum number of pubkeys of a multisig.
+const maxPubKeysPerMultiSig = 20
+
 // Stack:
 // [... signature pubkey] -> [... bool]
 func opHash160(vm *Engine) error {
@@ -74,12 +77,22 @@ func opCheckSigVerify(vm *Engine) error {
 // Stack:
 // [... dummy [sig ...] numsigs [pubkey ...] numpubkeys] -> [... bool]
 func opCheckMultiSig(vm *Engine) error {
+	if vm.sigHasher == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.hasher.func.is.nil")
+	}
+	if vm.sigVerifier == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.verifier.func.is.nil")
+	}
+
 	// pubkeys.
 	numKeys, err := vm.dstack.PopInt()
 	if err != nil {
 		return err
 	}
 	n := int(numKeys.Int32())
+	if n < 0 || n > maxPubKeysPerMultiSig {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:pubkeys.count[%v].invalid", n))
+	}
 	pubKeys := make([][]byte, n)
 	for i := 0; i < n; i++ {
 		pubKey, err := vm.dstack.PopByteArray()
@@ -95,6 +108,9 @@ func opCheckMultiSig(vm *Engine) error {
 		return err
 	}
 	m := int(numSignatures.Int32())
+	if m < 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:signatures.count[%v].invalid", m))
+	}
 	if m > n {
 		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:more.signatures[%v].than.pubkeys[%v]", m, n))
 	}
@@ -121,17 +137,19 @@ func opCheckMultiSig(vm *Engine) error {
 	// Signature verify.
 	success := true
 	for sigIdx, pubKeyIdx := 0, 0; success && (sigIdx < m) && (pubKeyIdx < n); {
-		sig := signatures[sigIdx]
-		hashType := sig[len(sig)-1]
-		sigDER := sig[:len(sig)-1]
-
-		hash, err := vm.sigHasher(hashType)
-		if err != nil {
-			return err
-		}
-
-		if err := vm.sigVerifier(hash, sigDER, pubKeys[pubKeyIdx]); err == nil {
-			sigIdx++
+		// An empty signature is valid for no pubkey.
+		if sig := signatures[sigIdx]; len(sig) > 0 {
+			hashType := sig[len(sig)-1]
+			sigDER := sig[:len(sig)-1]
+
+			hash, err := vm.sigHasher(hashType)
+			if err != nil {
+				return err
+			}
+
+			if err := vm.sigVerifier(hash, sigDER, pubKeys[pubKeyIdx]); err == nil {
+				sigIdx++
+			}
 		}
 		pubKeyIdx++
 		if (n - pubKeyIdx) < (m - sigIdx) {
-- 
2.43.0


From 139df92bff78253a3bce1a2941e376a015c3e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 08/69] fix: parsed witness inputs kept a stale unlocking
 script, a failed embedding was reported as success, and out-of-range indexes
 or missing signatures crashed

---
 xcore/script_p2pkh.go     |  5 +++++
 xcore/script_p2wpkh_v0.go | 14 ++++++++++++++
 xcore/script_p2wsh_v0.go  | 19 +++++++------------
 xcore/transaction.go      | 25 +++++++++++++++++++------
 4 files changed, 45 insertions(+), 18 deletions(-)

diff --git a/xcore/script_p2pkh.go b/xcore/script_p2pkh.go
index 6925d9a..210b951 100644
--- a/xcore/script_p2pkh.go
+++ b/xcore/script_p2pkh.go
@@ -6,6 +6,8 @@
 package xcore
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -56,6 +58,9 @@ func (s *PayToPubKeyHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byt
 // unlocking: <sig> <pubkey>
 // witness:   (empty)
 func (s *PayToPubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("PayToPubKeyHashScript.GetRawUnlockingScriptBytes.error:signs.is.empty")
+	}
 	builder := xvm.NewScriptBuilder()
 	unlocking, err := builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 	return unlocking, err
diff --git a/xcore/script_p2wpkh_v0.go b/xcore/script_p2wpkh_v0.go
index 335a8a9..4e275aa 100644
--- a/xcore/script_p2wpkh_v0.go
+++ b/xcore/script_p2wpkh_v0.go
@@ -6,6 +6,8 @@
 package xcore
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -50,12 +52,18 @@ func (s *PayToWitnessV0PubKeyHashScript) GetFinalLockingScriptBytes(redeem []byt
 
 // GetRawUnlockingScriptBytes -- used to get raw unlocking script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.GetRawUnlockingScriptBytes.error:signs.is.empty")
+	}
 	builder := xvm.NewScriptBuilder()
 	return builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 }
 
 // GetWitnessUnlockingScriptBytes -- used to get witness script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetWitnessUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([][]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.GetWitnessUnlockingScriptBytes.error:signs.is.empty")
+	}
 	var witness [][]byte
 	witness = append(witness, signs[0].Signature)
 	witness = append(witness, signs[0].PubKey)
@@ -80,6 +88,12 @@ func (s *PayToWitnessV0PubKeyHashScript) GetScriptVersion() ScriptVersion {
 // WitnessToUnlockingScriptBytes -- converts witness slice to unlocking script.
 // For txn deserialize from hex.
 func (s *PayToWitnessV0PubKeyHashScript) WitnessToUnlockingScriptBytes(witness [][]byte) ([]byte, error) {
+	if len(witness) == 0 {
+		return nil, nil
+	}
+	if len(witness) != 2 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.WitnessToUnlockingScriptBytes.error:witness.items[%v]!=2", len(witness))
+	}
 	builder := xvm.NewScriptBuilder()
 	return builder.AddData(witness[0]).AddData(witness[1]).Script()
 }
diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index 4aba5d0..fa79047 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -99,19 +99,14 @@ func (s *PayToWitnessV0ScriptHashScript) GetScriptVersion() ScriptVersion {
 // WitnessToUnlockingScriptBytes -- converts witness slice to unlocking script.
 // For txn deserialize from hex.
 func (s *PayToWitnessV0ScriptHashScript) WitnessToUnlockingScriptBytes(witness [][]byte) ([]byte, error) {
-	l := len(witness)
-	if l > 1 {
-		redeem := witness[len(witness)-1]
-		instrs, _ := xvm.NewScriptReader(redeem).AllInstructions()
-		if isMultiSig(instrs) {
-			builder := xvm.NewScriptBuilder()
-			for i := 0; i < l-1; i++ {
-				builder.AddData(witness[i])
-			}
-			return builder.AddData(redeem).Script()
-		}
+	if len(witness) == 0 {
+		return nil, nil
+	}
+	builder := xvm.NewScriptBuilder()
+	for _, wit := range witness {
+		builder.AddData(wit)
 	}
-	return nil, nil
+	return builder.Script()
 }
 
 // isWitnessV0ScriptHash --
diff --git a/xcore/transaction.go b/xcore/transaction.go
index 741cd9b..e10632d 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -138,6 +138,11 @@ func (tx *Transaction) SetLockTime(time uint32) {
 // SetTxIn -- set the txin tuples.
 // Used for deserialize the transaction and verify.
 func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScript []byte) error {
+	// Sanity check.
+	if idx < 0 || idx >= len(tx.inputs) {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, len(tx.inputs))
+	}
+
 	txIn := tx.inputs[idx]
 	scriptInstance, err := ParseLockingScript(script)
 	if err != nil {
@@ -161,7 +166,11 @@ func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScri
 	if err != nil {
 		return err
 	}
-	if rawUnlocking != nil {
+	if scriptInstance.GetScriptVersion() == WITNESS_V0 {
+		// The scriptSig of a witness program must be empty(BIP0141).
+		if !txIn.HasWitness() && len(txIn.RawUnlockingScript) > 0 {
+			return xerror.NewError(Errors, ER_TRANSACTION_VERIFY_FAILED, idx, xbase.NewIDToString(txIn.Hash), txIn.Index)
+		}
 		txIn.RawUnlockingScript = rawUnlocking
 	}
 
@@ -205,10 +214,12 @@ func (tx *Transaction) WitnessID() string {
 
 // SignIndex -- sign specified transaction input with pubkey format.
 func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType, keys ...*xcrypto.PrvKey) error {
+	// Sanity check.
+	if idx < 0 || idx >= len(tx.inputs) {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, len(tx.inputs))
+	}
 	txIn := tx.inputs[idx]
 	signs := make([]PubKeySign, 0)
-
-	// Sanity check.
 	if len(keys) > 1 && txIn.RedeemScript == nil {
 		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_REDEEM_EMPTY, idx, len(keys))
 	}
@@ -244,9 +255,11 @@ func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType,
 
 // EmbedIdxSignature -- build the unlocking with signs for the idx.
 func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
-	txIn := tx.inputs[idx]
-
 	// Sanity check.
+	if idx < 0 || idx >= len(tx.inputs) {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, len(tx.inputs))
+	}
+	txIn := tx.inputs[idx]
 	if len(signs) > 1 && txIn.RedeemScript == nil {
 		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_REDEEM_EMPTY, idx, len(signs))
 	}
@@ -257,7 +270,7 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 	}
 	// Raw unlocking.
 	if txIn.RawUnlockingScript, err = scriptInstance.GetRawUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
-		return nil
+		return err
 	}
 	// Witness unlocking.
 	if txIn.Witness, err = scriptInstance.GetWitnessUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
-- 
2.43.0


From 0afa875faba65bb361c6f40b1327812369f238e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 09/69] fix: verification ignored the witness data of an input,
 the P2WSH script hash and the rest of the final stack, and accepted nested
 witness programs without any signature

---
 xcore/transaction.go | 19 ++++++++++++++++++-
 xvm/engine.go        | 27 ++++++++++++++++++++++++++-
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index e10632d..1a10db3 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -6,6 +6,7 @@
 package xcore
 
 import (
+	"bytes"
 	"fmt"
 	"math"
 	"strings"
@@ -283,7 +284,9 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, ecdsaSig []byte, hashType SigHashType) error {
 	var signs []PubKeySign
 
-	finalsig := append(ecdsaSig, byte(hashType))
+	finalsig := make([]byte, 0, len(ecdsaSig)+1)
+	finalsig = append(finalsig, ecdsaSig...)
+	finalsig = append(finalsig, byte(hashType))
 	signs = append(signs, PubKeySign{PubKey: pubkey.SerializeCompressed(), Signature: finalsig})
 	return tx.EmbedIdxSignature(idx, signs)
 }
@@ -782,6 +785,20 @@ func (tx *Transaction) Verify() error {
 		// Verify.
 		locking := in.FinalLockingScript
 		unlocking := in.RawUnlockingScript
+		if scriptVersion == WITNESS_V0 {
+			// The unlocking of a witness program is the witness(BIP0141).
+			if unlocking, err = script.WitnessToUnlockingScriptBytes(in.Witness); err != nil {
+				return err
+			}
+			// sha256(redeem) must be the hash of the P2WSH.
+			if wsh, ok := script.(*PayToWitnessV0ScriptHashScript); ok && !bytes.Equal(xcrypto.Sha256(in.RedeemScript), wsh.hash) {
+				return xerror.NewError(Errors, ER_TRANSACTION_VERIFY_FAILED, i, xbase.NewIDToString(in.Hash), in.Index)
+			}
+			engine.EnableCleanStack()
+		} else if len(in.Witness) > 0 {
+			// Unexpected witness(BIP0141).
+			return xerror.NewError(Errors, ER_TRANSACTION_VERIFY_FAILED, i, xbase.NewIDToString(in.Hash), in.Index)
+		}
 		if err := engine.Verify(unlocking, locking); err != nil {
 			return xerror.NewError(Errors, ER_TRANSACTION_VERIFY_FAILED, i, xbase.NewIDToString(in.Hash), in.Index)
 		}
diff --git a/xvm/engine.go b/xvm/engine.go
index a6d6261..4e98536 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -23,6 +23,7 @@ type SigVerifyFn func(pubkey []byte, hash []byte, signature []byte) error
 type Engine struct {
 	pc          uint64 // Program counter.
 	debug       bool
+	cleanStack  bool   // Whether the final stack must only hold the result.
 	dstack      *Stack // Data stack.
 	cstack      []int  // Control stack.
 	sigHasher   SigHashFn
@@ -51,6 +52,11 @@ func (vm *Engine) DisableDebug() {
 	vm.debug = false
 }
 
+// EnableCleanStack -- the verify fails if the final stack holds more than the result.
+func (vm *Engine) EnableCleanStack() {
+	vm.cleanStack = true
+}
+
 // SetSigHashFn -- set hasher function.
 func (vm *Engine) SetSigHashFn(fn SigHashFn) {
 	vm.sigHasher = fn
@@ -114,11 +120,27 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 		if err != nil {
 			return err
 		}
-		return vm.execute(redeem, true)
+		// A nested witness program must be authorised by the witness(BIP0141), which is not supported.
+		if isWitnessProgram(redeem) {
+			return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "p2sh.nested.witness.program.is.not.supported")
+		}
+		if err := vm.execute(redeem, true); err != nil {
+			return err
+		}
+	}
+	if vm.cleanStack && vm.dstack.Depth() != 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "stack.is.not.clean.at.end.of.script.execution")
 	}
 	return nil
 }
 
+// isWitnessProgram -- returns true if the script is a version followed by a push of 2 to 40 bytes.
+func isWitnessProgram(script []byte) bool {
+	return len(script) >= 4 && len(script) <= 42 &&
+		(script[0] == OP_0 || (script[0] >= OP_1 && script[0] <= OP_16)) &&
+		int(script[1])+2 == len(script)
+}
+
 // isPayToScriptHash -- returns true if the script is OP_HASH160 OP_DATA_20 <20 bytes> OP_EQUAL.
 func isPayToScriptHash(script []byte) bool {
 	return len(script) == 23 &&
@@ -190,6 +212,9 @@ func (vm *Engine) execute(program []byte, final bool) error {
 	}
 
 	if final {
+		if vm.cleanStack && vm.dstack.Depth() == 0 {
+			return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "empty.stack.at.end.of.script.execution")
+		}
 		if vm.dstack.Depth() > 0 {
 			v, err := vm.dstack.PopBool()
 			if err != nil {
-- 
2.43.0


From 472776beaa4dda78977062e76ac87402a94b85ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 10/69] fix: a multisig script with a required count below one
 or more than 20 keys was built

---
 xcore/script_multsig.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcore/script_multsig.go b/xcore/script_multsig.go
index 972865e..bb8a583 100644
--- a/xcore/script_multsig.go
+++ b/xcore/script_multsig.go
@@ -11,6 +11,9 @@ import (
 	"github.com/keyfuse/tokucore/xvm"
 )
 
+// maxPubKeysPerMultiSig -- the maximum number of pubkeys of a multisig.
+const maxPubKeysPerMultiSig = 20
+
 // PayToMultiSigScript --
 // returns a valid script for a multi-signature redemption where n-required of
 // keys in pubkeys are required to have signed the transaction for success.
@@ -46,6 +49,9 @@ func GenMultiSigScript(nrequired int, pkDatas ...[]byte) ([]byte, error) {
 	if len(pkDatas) < nrequired {
 		return nil, xerror.NewError(Errors, ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED, len(pkDatas), nrequired)
 	}
+	if nrequired < 1 || len(pkDatas) > maxPubKeysPerMultiSig {
+		return nil, xerror.NewError(Errors, ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED, len(pkDatas), nrequired)
+	}
 	builder := xvm.NewScriptBuilder()
 	builder.AddInt64(int64(nrequired))
 	for _, key := range pkDatas {
-- 
2.43.0


From 920dc06efe8881b27b28e0534a2588a75d4e0d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 11/69] fix: transaction verification accepted an executed
 OP_RETURN in an unlocking script and a script that left an empty stack

---
 xcore/transaction.go           | 1 +
 xvm/engine.go                  | 8 +++++++-
 xvm/instruction_flowcontrol.go | 3 +++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 1a10db3..1edf8ff 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -783,6 +783,7 @@ func (tx *Transaction) Verify() error {
 		}
 
 		// Verify.
+		engine.EnableStrict()
 		locking := in.FinalLockingScript
 		unlocking := in.RawUnlockingScript
 		if scriptVersion == WITNESS_V0 {
diff --git a/xvm/engine.go b/xvm/engine.go
index 4e98536..c48232d 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -23,6 +23,7 @@ type SigVerifyFn func(pubkey []byte, hash []byte, signature []byte) error
 type Engine struct {
 	pc          uint64 // Program counter.
 	debug       bool
+	strict      bool   // Whether OP_RETURN and an empty final stack are errors.
 	cleanStack  bool   // Whether the final stack must only hold the result.
 	dstack      *Stack // Data stack.
 	cstack      []int  // Control stack.
@@ -52,6 +53,11 @@ func (vm *Engine) DisableDebug() {
 	vm.debug = false
 }
 
+// EnableStrict -- an executed OP_RETURN and an empty final stack are errors, as the bitcoin consensus rules define.
+func (vm *Engine) EnableStrict() {
+	vm.strict = true
+}
+
 // EnableCleanStack -- the verify fails if the final stack holds more than the result.
 func (vm *Engine) EnableCleanStack() {
 	vm.cleanStack = true
@@ -212,7 +218,7 @@ func (vm *Engine) execute(program []byte, final bool) error {
 	}
 
 	if final {
-		if vm.cleanStack && vm.dstack.Depth() == 0 {
+		if vm.strict && vm.dstack.Depth() == 0 {
 			return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "empty.stack.at.end.of.script.execution")
 		}
 		if vm.dstack.Depth() > 0 {
diff --git a/xvm/instruction_flowcontrol.go b/xvm/instruction_flowcontrol.go
index 153cb5b..df24574 100644
--- a/xvm/instruction_flowcontrol.go
+++ b/xvm/instruction_flowcontrol.go
@@ -13,6 +13,9 @@ import (
 
 // opReturn --
 func opReturn(vm *Engine) error {
+	if vm.strict {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opReturn")
+	}
 	return nil
 }
 
-- 
2.43.0


From 2b2d56030437ec20d180c80552cbcefd18f0ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 12/69] fix: OP_1NEGATE, which the script builder emits for -1,
 could not be read or executed, and a witness item of one zero byte was
 executed as an empty item

---
 xcore/script_p2wsh_v0.go    | 7 ++++++-
 xvm/instruction_pushdata.go | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index fa79047..8cbd98f 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -104,7 +104,12 @@ func (s *PayToWitnessV0ScriptHashScript) WitnessToUnlockingScriptBytes(witness [
 	}
 	builder := xvm.NewScriptBuilder()
 	for _, wit := range witness {
-		builder.AddData(wit)
+		// A single zero byte must not become OP_0, which pushes the empty item.
+		if len(wit) == 1 && wit[0] == 0x00 {
+			builder.AddOp(xvm.OP_DATA_1).AddOp(0x00)
+		} else {
+			builder.AddData(wit)
+		}
 	}
 	return builder.Script()
 }
diff --git a/xvm/instruction_pushdata.go b/xvm/instruction_pushdata.go
index d8f66a4..ad90e6f 100644
--- a/xvm/instruction_pushdata.go
+++ b/xvm/instruction_pushdata.go
@@ -18,3 +18,9 @@ func opN(vm *Engine) error {
 	vm.dstack.PushInt(ScriptNum((vm.instruction.op.value - (OP_1 - 1))))
 	return nil
 }
+
+// op1Negate -- pushes the number -1 to the data stack.
+func op1Negate(vm *Engine) error {
+	vm.dstack.PushInt(ScriptNum(-1))
+	return nil
+}
-- 
2.43.0


From ad7853d4672f6c73b4ddae25e7050b9bc548059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 13/69] fix: signature hashing used the redeem script of a
 pay-to-pubkey-hash input, and one that does not hash to the
 pay-to-script-hash output

---
 xcore/script_p2pkh.go | 7 +++++++
 xcore/transaction.go  | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/xcore/script_p2pkh.go b/xcore/script_p2pkh.go
index 210b951..63cc52b 100644
--- a/xcore/script_p2pkh.go
+++ b/xcore/script_p2pkh.go
@@ -97,3 +97,10 @@ func isPubkeyHash(instrs []xvm.Instruction) bool {
 		instrs[3].OpCode() == xvm.OP_EQUALVERIFY &&
 		instrs[4].OpCode() == xvm.OP_CHECKSIG
 }
+
+// isPubkeyHashBytes --
+// returns true if the passed script bytes is a pay-to-pubkey-hash transaction, false otherwise.
+func isPubkeyHashBytes(script []byte) bool {
+	instrs, err := xvm.NewScriptReader(script).AllInstructions()
+	return err == nil && isPubkeyHash(instrs)
+}
diff --git a/xcore/transaction.go b/xcore/transaction.go
index 1edf8ff..94ad589 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -320,7 +320,8 @@ func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 		buffer.WriteBytes(in.Hash)
 		buffer.WriteU32(in.Index)
 		if i == idx {
-			if in.RedeemScript != nil {
+			// The redeem script is the script code of P2SH only.
+			if in.RedeemScript != nil && !isPubkeyHashBytes(in.RawLockingScript) {
 				buffer.WriteVarBytes(in.RedeemScript)
 			} else {
 				script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
@@ -800,6 +801,10 @@ func (tx *Transaction) Verify() error {
 			// Unexpected witness(BIP0141).
 			return xerror.NewError(Errors, ER_TRANSACTION_VERIFY_FAILED, i, xbase.NewIDToString(in.Hash), in.Index)
 		}
+		// The redeem script used for the signature hash must be the one of the P2SH.
+		if sh, ok := script.(*PayToScriptHashScript); ok && in.RedeemScript != nil && !bytes.Equal(xcrypto.Hash160(in.RedeemScript), sh.hash) {
+			return xerror.NewError(Errors, ER_TRANSACTION_VERIFY_FAILED, i, xbase.NewIDToString(in.Hash), in.Index)
+		}
 		if err := engine.Verify(unlocking, locking); err != nil {
 			return xerror.NewError(Errors, ER_TRANSACTION_VERIFY_FAILED, i, xbase.NewIDToString(in.Hash), in.Index)
 		}
-- 
2.43.0


From 66faa44ebd90d91011984ed1cb7a2a967014aa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 14/69] fix: OP_1NEGATE was missing in the opcode table
 (completes 2b2d560)

---
 xvm/instruction.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xvm/instruction.go b/xvm/instruction.go
index fd2a7d4..699777c 100644
--- a/xvm/instruction.go
+++ b/xvm/instruction.go
@@ -172,6 +172,7 @@ var opcodes = map[byte]opcode{
 	OP_PUSHDATA1: {OP_PUSHDATA1, "OP_PUSHDATA1", -1, opPushData},
 	OP_PUSHDATA2: {OP_PUSHDATA2, "OP_PUSHDATA2", -2, opPushData},
 	OP_PUSHDATA4: {OP_PUSHDATA4, "OP_PUSHDATA4", -4, opPushData},
+	OP_1NEGATE:   {OP_1NEGATE, "OP_1NEGATE", 1, op1Negate},
 	OP_TRUE:      {OP_TRUE, "OP_1", 1, opN},
 	OP_2:         {OP_2, "OP_2", 1, opN},
 	OP_3:         {OP_3, "OP_3", 1, opN},
-- 
2.43.0


From e99f6333279ea68c77fa007a2fae0c8729d2b1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 15/69] fix: encoding the lowest 64-bit integer as a script
 number crashed

---
 xvm/scriptnum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xvm/scriptnum.go b/xvm/scriptnum.go
index 3ee6217..a292c7d 100644
--- a/xvm/scriptnum.go
+++ b/xvm/scriptnum.go
@@ -38,9 +38,9 @@ func (n ScriptNum) Bytes() []byte {
 		return nil
 	}
 	neg := n < 0
-	absvalue := n
+	absvalue := uint64(n)
 	if neg {
-		absvalue = -n
+		absvalue = -absvalue
 	}
 
 	// Encode to little endian.
-- 
2.43.0


From 4e0f474ebdbb67f180fdb3f49ec4a69daf10752c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 16/69] fix: resetting a script builder and building another
 script overwrote the script handed out before

---
 xvm/scriptbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xvm/scriptbuilder.go b/xvm/scriptbuilder.go
index 5eb3531..324fa1e 100644
--- a/xvm/scriptbuilder.go
+++ b/xvm/scriptbuilder.go
@@ -111,7 +111,7 @@ func (b *ScriptBuilder) AddInt64(val int64) *ScriptBuilder {
 
 // Reset -- resets the script so it has no content
 func (b *ScriptBuilder) Reset() *ScriptBuilder {
-	b.buffer.Reset()
+	b.buffer = xbase.NewBuffer()
 	b.err = nil
 	return b
 }
-- 
2.43.0


From 5a19839a68e35717d9088be4293cd9bf63a59b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 17/69] fix: reported sizes of transactions with witness inputs
 counted the unlocking twice and not the marker, and the virtual size was
 rounded down

---
 xcore/transaction.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 94ad589..dca9c87 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -825,8 +825,13 @@ func (tx *Transaction) BaseSize() int {
 	for _, in := range tx.inputs {
 		size += len(in.Hash)
 		size += 4
-		size += xbase.VarIntSerializeSize(uint64(len(in.RawUnlockingScript)))
-		size += len(in.RawUnlockingScript)
+		if in.HasWitness() {
+			// The unlocking of the witness input is not serialized.
+			size += xbase.VarIntSerializeSize(0)
+		} else {
+			size += xbase.VarIntSerializeSize(uint64(len(in.RawUnlockingScript)))
+			size += len(in.RawUnlockingScript)
+		}
 		size += 4
 	}
 
@@ -848,6 +853,8 @@ func (tx *Transaction) WitnessSize() int {
 	size := 0
 
 	if tx.HasWitness() {
+		// Marker and flag.
+		size += 2
 		for _, in := range tx.inputs {
 			wits := in.Witness
 			size += xbase.VarIntSerializeSize(uint64(len(wits)))
@@ -869,7 +876,7 @@ func (tx *Transaction) Weight() int {
 
 // Vsize -- defined as Transaction weight / 4 (rounded up to the next integer).
 func (tx *Transaction) Vsize() int {
-	return tx.Weight() / witnessScaleFactor
+	return (tx.Weight() + witnessScaleFactor - 1) / witnessScaleFactor
 }
 
 // Size -- size in bytes serialized as described in BIP144, including base data and witness data.
-- 
2.43.0


From 62aadb13b9fdfaffb12dfa6b7e8bfc07d932d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 18/69] fix: fees estimated from a rate were rounded down below
 the rate and overflowed for high rates

---
 xcore/estimate.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/xcore/estimate.go b/xcore/estimate.go
index bc27edf..109e3cd 100644
--- a/xcore/estimate.go
+++ b/xcore/estimate.go
@@ -6,6 +6,9 @@
 package xcore
 
 import (
+	"math"
+	"math/bits"
+
 	"github.com/keyfuse/tokucore/xbase"
 )
 
@@ -127,9 +130,18 @@ func EstimateNormalSize(ins int, outs int) int64 {
 
 // EstimateFees -- estimate the fee.
 func EstimateFees(estimateSize int64, relayFeePerKb int64) int64 {
-	fees := 0.0
-	if relayFeePerKb > 0 {
-		fees = (float64(relayFeePerKb) / float64(1000)) * float64(estimateSize)
+	if estimateSize <= 0 || relayFeePerKb <= 0 {
+		return 0
+	}
+	// Round up, so that the relay fee is reached.
+	hi, lo := bits.Mul64(uint64(estimateSize), uint64(relayFeePerKb))
+	lo, carry := bits.Add64(lo, 999, 0)
+	if hi += carry; hi >= 1000 {
+		return math.MaxInt64
+	}
+	fees, _ := bits.Div64(hi, lo, 1000)
+	if fees > math.MaxInt64 {
+		return math.MaxInt64
 	}
 	return int64(fees)
 }
-- 
2.43.0


From c205807a26b1e197505a05b6185412464d887df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 19/69] fix: the transaction builder let amounts and fees wrap
 around, spent one coin twice and crashed on nil addresses

---
 xcore/error.go              |  4 ++++
 xcore/transactionbuilder.go | 31 +++++++++++++++++++++++++++----
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/xcore/error.go b/xcore/error.go
index 8a8e250..d689c2c 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -31,6 +31,8 @@ const (
 	ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY          int = 5105
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH      int = 5106
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH            int = 5107
+	ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW         int = 5108
+	ER_TRANSACTION_BUILDER_COIN_DUPLICATE          int = 5109
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH        int = 5201
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH              int = 5301
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH           int = 5302
@@ -58,6 +60,8 @@ var Errors = map[int]*xerror.Error{
 	ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY:          {Num: ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY, State: "TTB00", Message: "transaction.builder.sign.but.key.is.empty.at.input.idx[%v]"},
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH:      {Num: ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, State: "TTB00", Message: "transaction.builder.min.fee[%v].not.enough.from.change.value[%v]"},
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH:            {Num: ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, State: "TTB00", Message: "transaction.builder.fee[%v].too.high.than.max.fee[%v]"},
+	ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW:         {Num: ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW, State: "TTB00", Message: "transaction.builder.amount[%v].overflow"},
+	ER_TRANSACTION_BUILDER_COIN_DUPLICATE:          {Num: ER_TRANSACTION_BUILDER_COIN_DUPLICATE, State: "TTB00", Message: "transaction.builder.coin[%v:%v].is.duplicate"},
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH:        {Num: ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH, State: "TTP00", Message: "transaction.partially.request.magic.mismatch.want[%x].got[%x]"},
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH:              {Num: ER_MICROPAYMENT_LOCKTIME_MISMATCH, State: "TM000", Message: "micropayment.locktime.mismatch.want[%v].got[%v]"},
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH:           {Num: ER_MICROPAYMENT_REFUND_BOND_MISMATCH, State: "TM000", Message: "micropayment.refund.bond.mismatch"},
diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 31d5a01..3c54782 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -7,6 +7,8 @@ package xcore
 
 import (
 	"encoding/hex"
+	"fmt"
+	"math"
 
 	"github.com/keyfuse/tokucore/xbase"
 	"github.com/keyfuse/tokucore/xcrypto"
@@ -50,7 +52,7 @@ type TransactionBuilder struct {
 	idx           int
 	sign          bool
 	maxFees       int64
-	sendFees      int64
+	sendFees      uint64
 	relayFeePerKb int64
 	lockTime      uint32
 	change        *change
@@ -118,7 +120,7 @@ func (b *TransactionBuilder) SetChange(addr Address) *TransactionBuilder {
 
 // SendFees -- set the amount fee of this send.
 func (b *TransactionBuilder) SendFees(fees uint64) *TransactionBuilder {
-	b.sendFees = int64(fees)
+	b.sendFees = fees
 	return b
 }
 
@@ -173,6 +175,7 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	var txouts []*TxOut
 	var changeTxOut *TxOut
 
+	spent := make(map[string]bool)
 	for _, group := range b.groups {
 		grpinput := group.coin
 		grpoutput := group.output
@@ -194,7 +197,16 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				if err != nil {
 					return nil, err
 				}
+				// A coin is spent once.
+				outpoint := fmt.Sprintf("%x:%d", txid, grpinput.n)
+				if spent[outpoint] {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_COIN_DUPLICATE, grpinput.txID, grpinput.n)
+				}
+				spent[outpoint] = true
 				txins = append(txins, txin)
+				if grpinput.value > uint64(math.MaxInt64-totalIn) {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW, grpinput.value)
+				}
 				totalIn += int64(grpinput.value)
 
 				// inputs.
@@ -226,8 +238,14 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 						return nil, err
 					}
 				}
+				if script == nil {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_SENDTO_EMPTY)
+				}
 				txout := NewTxOut(grpoutput.value, script)
 				txouts = append(txouts, txout)
+				if grpoutput.value > uint64(math.MaxInt64-totalOut) {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW, grpoutput.value)
+				}
 				totalOut += int64(grpoutput.value)
 			}
 		}
@@ -245,7 +263,7 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	}
 
 	// Estimate fee.
-	fees := b.sendFees
+	var fees int64
 	if b.relayFeePerKb > 0 {
 		// Pushdata size.
 		pushDataSize := 0
@@ -256,6 +274,11 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 		estimateSize = EstimateSize(txins, txouts) + int64(pushDataSize)
 		estimateFees = EstimateFees(estimateSize, b.relayFeePerKb)
 		fees = estimateFees
+	} else {
+		if b.sendFees > math.MaxInt64 {
+			return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, b.sendFees, b.maxFees)
+		}
+		fees = int64(b.sendFees)
 	}
 	if fees > b.maxFees {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, fees, b.maxFees)
@@ -273,7 +296,7 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	// Change.
 	{
 		if changeAmount > 0 {
-			if b.change == nil {
+			if b.change == nil || b.change.addr == nil {
 				return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_CHANGETO_EMPTY)
 			}
 			script, err := b.change.addr.LockingScript()
-- 
2.43.0


From 03f56e00d97137be81c807e7650e439fce2f15b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 20/69] fix: extended keys of the wrong version or kind, out of
 range or with a parent at depth 0 were accepted, the depth wrapped, and path
 texts with an empty step crashed or with a large hardened index wrapped

---
 xcore/bip32/hdkey.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 1203804..5a001a5 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"crypto/rand"
 	"fmt"
+	"math/big"
 	"strconv"
 	"strings"
 
@@ -19,6 +20,7 @@ import (
 	"github.com/keyfuse/tokucore/network"
 	"github.com/keyfuse/tokucore/xbase"
 	"github.com/keyfuse/tokucore/xcrypto"
+	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
 )
 
 // Formulas:
@@ -125,6 +127,11 @@ func (k *HDKey) Derive(childIdx uint32) (*HDKey, error) {
 		return nil, fmt.Errorf("hdkey.derive.a.hardened.key.from.public.key.erro")
 	}
 
+	// The depth is one byte, the child of the deepest key can't be serialized.
+	if k.depth == 0xff {
+		return nil, fmt.Errorf("hdkey.derive.depth.is.too.deep")
+	}
+
 	// Split "I" into two 32-byte sequences Il and Ir where:
 	//   Il = intermediate key used to derive the child
 	//   Ir = child chain code
@@ -178,7 +185,7 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 	for i := 1; i < len(steps); i++ {
 		var isHardened bool
 		step := steps[i]
-		if step[len(step)-1] == '\'' {
+		if strings.HasSuffix(step, "'") {
 			isHardened = true
 			step = step[:len(step)-1]
 		}
@@ -188,6 +195,9 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 			return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
 		}
 		if isHardened {
+			if idx >= HardenedKeyStart {
+				return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
+			}
 			idx += HardenedKeyStart
 		}
 		hd, err = hd.Derive(uint32(idx))
@@ -298,8 +308,21 @@ func NewHDKeyFromString(wif string) (*HDKey, error) {
 	k.childNum = data[9:13]
 	k.chainCode = data[13:45]
 
+	// The version and the kind of the key must match.
+	if !isVersion(data[:4], data[45] == byte(0)) {
+		return nil, fmt.Errorf("hdkey.version[%x].invalid", data[:4])
+	}
+	// The master key has no parent.
+	if k.depth == 0 && !bytes.Equal(data[5:13], make([]byte, 8)) {
+		return nil, fmt.Errorf("hdkey.master.has.parent")
+	}
+
 	if data[45] == byte(0) {
 		k.isPrivate = true
+		d := new(big.Int).SetBytes(data[46:78])
+		if d.Sign() == 0 || d.Cmp(secp256k1.SECP256K1().Params().N) >= 0 {
+			return nil, fmt.Errorf("hdkey.private.key.out.of.range")
+		}
 		k.prvkey = xcrypto.PrvKeyFromBytes(data[46:78])
 	} else {
 		k.isPrivate = false
@@ -321,6 +344,20 @@ func NewHDKeyFromString(wif string) (*HDKey, error) {
 	return k, nil
 }
 
+// isVersion -- whether the version is of an extended key of the kind.
+func isVersion(version []byte, isPrivate bool) bool {
+	for _, net := range []*network.Network{network.MainNet, network.TestNet} {
+		id := net.HDPublicKeyID
+		if isPrivate {
+			id = net.HDPrivateKeyID
+		}
+		if bytes.Equal(version, id) {
+			return true
+		}
+	}
+	return false
+}
+
 func uint32ToBytes(i uint32) []byte {
 	bytes := make([]byte, 4)
 	binary.BigEndian.PutUint32(bytes, i)
-- 
2.43.0


From cc989f24fe714dd54839c87da8a8ddad99d4db91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 21/69] fix: fresh entropy came from a generator seeded with
 the clock

---
 xcore/bip39/bip39.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index 8f3e035..a3c22c2 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -7,15 +7,14 @@
 package bip39
 
 import (
+	"crypto/rand"
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/binary"
 	"errors"
 	"fmt"
 	"math/big"
-	"math/rand"
 	"strings"
-	"time"
 
 	"github.com/keyfuse/tokucore/xcore/bip39/words"
 	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
@@ -106,9 +105,10 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	random := rand.New(rand.NewSource(time.Now().UnixNano()))
-	_, err = random.Read(entropy)
-	return entropy, err
+	if _, err = rand.Read(entropy); err != nil {
+		return nil, err
+	}
+	return entropy, nil
 }
 
 // EntropyFromMnemonic takes a mnemonic generated by this library,
-- 
2.43.0


From e42884357d6b1adbdf12abc3e4f6ebd2ce8efbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 22/69] fix: mnemonics with additional spaces were decoded with
 phantom words

---
 xcore/bip39/bip39.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index a3c22c2..45a2c59 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -211,7 +211,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 // An error is returned if the mnemonic is invalid.
 func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	var (
-		mnemonicSlice    = strings.Split(mnemonic, " ")
+		mnemonicSlice    = strings.Fields(mnemonic)
 		entropyBitSize   = len(mnemonicSlice) * 11
 		checksumBitSize  = entropyBitSize % 32
 		fullByteSize     = (entropyBitSize-checksumBitSize)/8 + 1
-- 
2.43.0


From dc481e62760f57f78455b56c7ca94415a7f6cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 23/69] fix: refuse ECDSA signatures with bytes after the pair

---
 xcrypto/signature_ecdsa.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/xcrypto/signature_ecdsa.go b/xcrypto/signature_ecdsa.go
index 8321685..925d9cc 100644
--- a/xcrypto/signature_ecdsa.go
+++ b/xcrypto/signature_ecdsa.go
@@ -6,6 +6,7 @@
 package xcrypto
 
 import (
+	"bytes"
 	"crypto/ecdsa"
 	"encoding/asn1"
 	"fmt"
@@ -35,9 +36,19 @@ func (sig *SignatureEcdsa) Serialize() ([]byte, error) {
 }
 
 // Deserialize -- used to deserialize the signature to struct.
+// The signature must be the strict DER encoding: no bytes may follow the pair, inside or after the sequence.
 func (sig *SignatureEcdsa) Deserialize(sign []byte) error {
-	_, err := asn1.Unmarshal(sign, sig)
-	return err
+	if _, err := asn1.Unmarshal(sign, sig); err != nil {
+		return err
+	}
+	der, err := sig.Serialize()
+	if err != nil {
+		return err
+	}
+	if !bytes.Equal(der, sign) {
+		return fmt.Errorf("ecdsa.signature.der.invalid")
+	}
+	return nil
 }
 
 // EcdsaSign -- used get the ecdsa signature.
-- 
2.43.0


From 33999f7cf0c932793579d69e42f053165bf163ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 24/69] fix: refuse Schnorr signatures that are not 64 bytes
 instead of crashing

---
 xcrypto/signature_schnorr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcrypto/signature_schnorr.go b/xcrypto/signature_schnorr.go
index dd194c5..6de1dc4 100644
--- a/xcrypto/signature_schnorr.go
+++ b/xcrypto/signature_schnorr.go
@@ -34,6 +34,9 @@ func (sig *SignatureSchnorr) Serialize() ([]byte, error) {
 
 // Deserialize -- used to deserialize the signature to struct.
 func (sig *SignatureSchnorr) Deserialize(sign []byte) error {
+	if len(sign) != 64 {
+		return fmt.Errorf("schnorr.signature.size[%v].invalid", len(sign))
+	}
 	sig.R = new(big.Int).SetBytes(sign[:32])
 	sig.S = new(big.Int).SetBytes(sign[32:])
 	return nil
-- 
2.43.0


From 3bbcbefb3b699dbf643598d650a6784c9afadf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 25/69] fix: Schnorr verification refuses s=N and negative
 values, and handles a zero challenge

---
 xcrypto/schnorr/schnorr.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index f86a4d1..43428e1 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -89,7 +89,7 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 	P := curve.Params().P
 	N := curve.Params().N
 
-	if r.Cmp(P) > 0 || s.Cmp(N) > 0 {
+	if r.Sign() < 0 || s.Sign() < 0 || r.Cmp(P) >= 0 || s.Cmp(N) >= 0 {
 		return false
 	}
 
@@ -97,8 +97,9 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 	sGx, sGy := curve.ScalarBaseMult(IntToByte(s))
 	ePx, ePy := curve.ScalarMult(pub.X, pub.Y, IntToByte(e))
 
-	// eP Inverse.
+	// eP Inverse (the point at infinity, y=0, is its own inverse).
 	ePy.Sub(P, ePy)
+	ePy.Mod(ePy, P)
 
 	// R=sG-eP=sG+(eP inverse)
 	Rx, Ry := curve.Add(sGx, sGy, ePx, ePy)
-- 
2.43.0


From c7a418e216c633114f1665319b1136154811daff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:58 +0000
Subject: [PATCH 26/69] fix: refuse uncompressed public keys with prefix 05

---
 xcrypto/pubkey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcrypto/pubkey.go b/xcrypto/pubkey.go
index 622da2a..aa232c8 100644
--- a/xcrypto/pubkey.go
+++ b/xcrypto/pubkey.go
@@ -49,7 +49,7 @@ func PubKeyFromBytes(key []byte) (*PubKey, error) {
 	switch pkLen {
 	case pubKeyBytesLenUncompressed:
 		// Format invalid.
-		if format != pubkeyUncompressed && format != pubkeyHybrid {
+		if (format != pubkeyUncompressed || ybit) && format != pubkeyHybrid {
 			return nil, fmt.Errorf("pubkey.format.invalid:%v", format)
 		}
 
-- 
2.43.0


From 42eb5a3bde287b969346fc246f4e299e1a1da627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 27/69] fix: SecUnmarshal refuses byte strings that encode no
 point

---
 xcrypto/secp256k1/sec.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xcrypto/secp256k1/sec.go b/xcrypto/secp256k1/sec.go
index 77ee42f..579b097 100644
--- a/xcrypto/secp256k1/sec.go
+++ b/xcrypto/secp256k1/sec.go
@@ -36,17 +36,23 @@ func SecUnmarshal(curve elliptic.Curve, data []byte) (*big.Int, *big.Int) {
 	X := big.NewInt(0)
 	curveParams := curve.Params()
 
-	// Check format.
-	if (data[0] &^ 1) != 2 {
+	// Check size and format.
+	byteLen := (curveParams.BitSize + 7) >> 3
+	if len(data) != 1+byteLen || (data[0]&^1) != 2 {
 		return nil, nil
 	}
 
 	// y^2 = x^3 + b
 	X.SetBytes(data[1:])
+	if X.Cmp(curveParams.P) >= 0 {
+		return nil, nil
+	}
 	ySquared := big.NewInt(0)
 	ySquared.Exp(X, three, nil)
 	ySquared.Add(ySquared, curveParams.B)
-	Y.ModSqrt(ySquared, curveParams.P)
+	if Y.ModSqrt(ySquared, curveParams.P) == nil {
+		return nil, nil
+	}
 
 	// Y is odd or even.
 	if Y.Bit(0) != uint(data[0]&1) {
-- 
2.43.0


From dbc81ebed7af8b5754b777bbe923be1abcb1b8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 28/69] fix: reduce the joint nonce's x modulo the order in
 two-party ECDSA signatures

---
 xcrypto/mpc_ecdsa.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xcrypto/mpc_ecdsa.go b/xcrypto/mpc_ecdsa.go
index 8f6cecc..0dd5eb8 100644
--- a/xcrypto/mpc_ecdsa.go
+++ b/xcrypto/mpc_ecdsa.go
@@ -157,8 +157,12 @@ func (party *EcdsaParty) Phase5(shareR *secp256k1.Scalar, sign2 *big.Int) ([]byt
 	if s.Sign() == 0 {
 		return nil, errors.New("calculated S is zero")
 	}
+	r := new(big.Int).Mod(shareR.X, N)
+	if r.Sign() == 0 {
+		return nil, errors.New("calculated R is zero")
+	}
 	esig := NewSignatureEcdsa()
-	esig.R = shareR.X
+	esig.R = r
 	esig.S = s
 	return esig.Serialize()
 }
-- 
2.43.0


From 1f60d1281a4fcf985c8948d410308fa53ffe4c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 29/69] fix: reduce the joint nonce's x modulo the order in the
 adaptor signature

---
 xcrypto/scriptless_ecdsa.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xcrypto/scriptless_ecdsa.go b/xcrypto/scriptless_ecdsa.go
index 3e3866a..0eb9e77 100644
--- a/xcrypto/scriptless_ecdsa.go
+++ b/xcrypto/scriptless_ecdsa.go
@@ -137,8 +137,12 @@ func (bob *EcdsaBob) ScriptlessPhase6(shareR *secp256k1.Scalar, sig *big.Int) ([
 	if s.Sign() == 0 {
 		return nil, errors.New("calculated S is zero")
 	}
+	r := new(big.Int).Mod(shareR.X, N)
+	if r.Sign() == 0 {
+		return nil, errors.New("calculated R is zero")
+	}
 	esig := NewSignatureEcdsa()
-	esig.R = shareR.X
+	esig.R = r
 	esig.S = s
 	return esig.Serialize()
 }
-- 
2.43.0


From d4971e6aab613bc3f0ef2c0cca5d5663f0b9f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 30/69] fix: computing a Schnorr nonce's sign does not change
 the nonce

---
 xcrypto/schnorr/schnorr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index 43428e1..0d9f798 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -65,6 +65,7 @@ func Sign(prv *ecdsa.PrivateKey, m []byte) (*big.Int, *big.Int, error) {
 	// Clean.
 	zeroSlice(d)
 	k.SetInt64(0)
+	k0.SetInt64(0)
 
 	return Rx, s, nil
 }
@@ -128,7 +129,7 @@ func GetK(curve elliptic.Curve, Ry, k0 *big.Int) *big.Int {
 	if big.Jacobi(Ry, P) == 1 {
 		return k0
 	}
-	return k0.Sub(N, k0)
+	return new(big.Int).Sub(N, k0)
 }
 
 // GetE -- used get e under schnorr BIP.
-- 
2.43.0


From 6e89bc9b871cb2125c5268c39f9efa3bb5fcea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 31/69] fix: multi-party Schnorr shares sign for the joint
 nonce point

---
 xcrypto/mpc_schnorr.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index 584dd33..b8f40eb 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -85,11 +85,10 @@ func (party *SchnorrParty) Phase4(sharePub *PubKey, shareR *secp256k1.Scalar) ([
 	prv := party.prv
 	pub := sharePub
 	curve := party.curve
-	scalarR := party.r
 	shareScalarR := shareR
 
 	// e = int(hash(bytes(x(R)) || bytes(dG) || m)) mod n
-	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(scalarR.X))
+	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(shareScalarR.X))
 
 	// ed
 	ed := new(big.Int)
-- 
2.43.0


From ca67cc82bb5c84d4b9d307960ce943dddc3cdee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 32/69] fix: paillier: a randomizer sharing a factor with N, or
 two equal primes, gave ciphertexts that do not decrypt

---
 xcrypto/paillier/paillier.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index 07f964c..800ddda 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -13,6 +13,9 @@ import (
 	"crypto/rand"
 )
 
+// maxPrimeRetries -- how often to look for a second prime that differs from the first.
+const maxPrimeRetries = 64
+
 var (
 	one  = big.NewInt(1)
 	zero = big.NewInt(0)
@@ -42,6 +45,15 @@ func GenerateKeyPair(bitlen int) (*PubKey, *PrvKey, error) {
 	if err != nil {
 		return nil, nil, err
 	}
+	// The two primes must differ: decryption does not work modulo p^4.
+	for i := 0; p.Cmp(q) == 0; i++ {
+		if i == maxPrimeRetries {
+			return nil, nil, fmt.Errorf("bitlen.too.small[%v]", bitlen)
+		}
+		if q, err = getPrimer(bitlen / 2); err != nil {
+			return nil, nil, err
+		}
+	}
 
 	n := new(big.Int).Mul(p, q)
 	nn := new(big.Int).Mul(n, n)
@@ -118,8 +130,16 @@ func getPrimer(bits int) (*big.Int, error) {
 	return rand.Prime(rand.Reader, bits)
 }
 
-// TODO(BohuTANG): ensure {gcd(r,n)=1}
+// getRandom -- returns a random r in [1,n) with gcd(r,n)=1.
 // https://en.wikipedia.org/wiki/Paillier_cryptosystem#Encryption
 func getRandom(n *big.Int) (*big.Int, error) {
-	return rand.Int(rand.Reader, n)
+	for {
+		r, err := rand.Int(rand.Reader, n)
+		if err != nil {
+			return nil, err
+		}
+		if new(big.Int).GCD(nil, nil, r, n).Cmp(one) == 0 {
+			return r, nil
+		}
+	}
 }
-- 
2.43.0


From f7fd19c50f70aee548498ce8f1f4e8497b479c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:52 +0000
Subject: [PATCH 33/69] fix: paillier: ciphertexts above N^2 were accepted; nil
 and non-invertible operands panicked

---
 xcrypto/paillier/homomorphism.go | 30 +++++++++++++++++++++++-------
 xcrypto/paillier/paillier.go     | 11 ++++++++---
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/xcrypto/paillier/homomorphism.go b/xcrypto/paillier/homomorphism.go
index f0cc373..1d1659d 100644
--- a/xcrypto/paillier/homomorphism.go
+++ b/xcrypto/paillier/homomorphism.go
@@ -14,17 +14,22 @@ import (
 // MultPlaintext -- returns the ciphertext the will decipher to multiplication
 // of the plaintexts (i.e. if ct = Enc(m1), then Dec(MultPlaintext(ct, m2)) = m1 * m2 mod N).
 func (pk *PubKey) MultPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if msg == nil || !inRange(ct, pk.NN) {
 		return nil, fmt.Errorf("input.invalid")
 	}
 	m := new(big.Int).Set(msg)
-	return new(big.Int).Exp(ct, m, pk.NN), nil
+	got := new(big.Int).Exp(ct, m, pk.NN)
+	if got == nil {
+		// A negative power of a ciphertext that is not invertible.
+		return nil, fmt.Errorf("input.invalid")
+	}
+	return got, nil
 }
 
 // AddPlaintext -- returns the ciphertext the will decipher to addition
 // of the plaintexts (i.e if ct = Enc(m1), then Dec(AddPlaintext(ct, m2)) = m1 + m2 mod N)
 func (pk *PubKey) AddPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if msg == nil || !inRange(ct, pk.NN) {
 		return nil, fmt.Errorf("input.invalid")
 	}
 	m := new(big.Int).Set(msg)
@@ -36,18 +41,22 @@ func (pk *PubKey) AddPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
 // DivPlaintext -- returns the ciphertext the will decipher to division of the plaintexts
 // (i.e if ct = Enc(m1), then Dec(DivPlaintext(ct, m2)) = m1 / m2 mod N)
 func (pk *PubKey) DivPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if msg == nil || !inRange(ct, pk.NN) {
 		return nil, fmt.Errorf("input.invalid")
 	}
-	m := new(big.Int).Set(msg)
-	return new(big.Int).Exp(ct, m.ModInverse(m, pk.NN), pk.NN), nil
+	m := new(big.Int).ModInverse(msg, pk.NN)
+	if m == nil {
+		// The division is only defined for plaintexts coprime to N.
+		return nil, fmt.Errorf("input.invalid")
+	}
+	return new(big.Int).Exp(ct, m, pk.NN), nil
 }
 
 // Add -- returns a ciphertext `ct3` that will decipher to the sum of
 // the corresponding plaintext messages (`m1`, `m2`) ciphered to (`ct1`, `ct2`)
 // (i.e if ct1 = Enc(m1) and ct2 = Enc(m2), then Dec(Add(ct1, ct2)) = m1 + m2 mod N)
 func (pk *PubKey) Add(ct1, ct2 *big.Int) (*big.Int, error) {
-	if ct1 == nil || ct2 == nil || ct1.Cmp(zero) != 1 || ct2.Cmp(zero) != 1 {
+	if !inRange(ct1, pk.NN) || !inRange(ct2, pk.NN) {
 		return nil, fmt.Errorf("input.invalid")
 	}
 	z := new(big.Int).Mul(ct1, ct2)
@@ -59,8 +68,15 @@ func (pk *PubKey) Add(ct1, ct2 *big.Int) (*big.Int, error) {
 // decipher to the subtration of the corresponding plaintexts. So, if ct1 = Enc(m1)
 // and ct2 = Enc(m2), and m1 > m2, then Dec(Sub(ct1, ct2)) = ct1 - ct2 mod N.
 // Note that the ciphertext produced by this operation will only make sense if m1>m2.
+// It returns nil if an input is not a ciphertext.
 func (pk *PubKey) Sub(ct1, ct2 *big.Int) *big.Int {
+	if !inRange(ct1, pk.NN) || !inRange(ct2, pk.NN) {
+		return nil
+	}
 	neg := new(big.Int).ModInverse(ct2, pk.NN)
+	if neg == nil {
+		return nil
+	}
 	neg.Mul(ct1, neg)
 	return neg.Mod(neg, pk.NN)
 }
diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index 800ddda..3aeede4 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -78,10 +78,10 @@ func GenerateKeyPair(bitlen int) (*PubKey, *PrvKey, error) {
 
 // Encrypt -- returns a IND-CPA secure ciphertext for the message `msg`.
 func (pk *PubKey) Encrypt(msg *big.Int) (*big.Int, error) {
-	m := new(big.Int).Set(msg)
-	if m.Cmp(zero) == -1 || m.Cmp(pk.N) != -1 {
+	if msg == nil || msg.Cmp(zero) == -1 || msg.Cmp(pk.N) != -1 {
 		return nil, fmt.Errorf("plaintext.invalid")
 	}
+	m := new(big.Int).Set(msg)
 
 	r, err := getRandom(pk.N)
 	if err != nil {
@@ -97,7 +97,7 @@ func (pk *PubKey) Encrypt(msg *big.Int) (*big.Int, error) {
 
 // Decrypt -- returns the plaintext corresponding to the ciphertext (ct).
 func (sk *PrvKey) Decrypt(ct *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if !inRange(ct, sk.pk.NN) {
 		return nil, fmt.Errorf("ciphertext.invalid")
 	}
 
@@ -126,6 +126,11 @@ func ctlambda(ct, lambda *big.Int, nn *big.Int) *big.Int {
 	return new(big.Int).Exp(ct, lambda, nn)
 }
 
+// inRange -- tells whether ct can be a ciphertext: 0 < ct < n^2.
+func inRange(ct, nn *big.Int) bool {
+	return ct != nil && ct.Cmp(zero) == 1 && ct.Cmp(nn) == -1
+}
+
 func getPrimer(bits int) (*big.Int, error) {
 	return rand.Prime(rand.Reader, bits)
 }
-- 
2.43.0


From 52ff4cdd4f9e98d39c7d4f5d52857450a28b2cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 34/69] fix: NewMerkle panicked on an empty list of leaves

---
 xcrypto/merkle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index de5f23b..616867d 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -41,6 +41,10 @@ type Merkle struct {
 // If the right is nil(the size is not power of 2), hashed with itself.
 func NewMerkle(hashs [][]byte) *Merkle {
 	n := len(hashs)
+	if n == 0 {
+		// No leaves: there is no root and no proof.
+		return &Merkle{levels: [][][]byte{{nil}}}
+	}
 	depth := int(math.Ceil(math.Log2(float64(n))))
 	pow2 := int(math.Pow(2, float64(depth)))
 	levels := make([][][]byte, depth+1)
-- 
2.43.0


From 8eca112bb9869aef90dd8d4d074800b0e11a4a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 35/69] fix: merkle: Proofs(nil) gave a path for the padding of
 the tree, which is no leaf

---
 xcrypto/merkle.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index 616867d..5a51dd8 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -91,7 +91,8 @@ func (m *Merkle) Proofs(leaf []byte) []Node {
 	index := -1
 	depth := len(m.levels) - 1
 	for i, le := range m.levels[depth] {
-		if bytes.Equal(leaf, le) {
+		// A nil entry is padding, not a leaf.
+		if le != nil && bytes.Equal(leaf, le) {
 			index = i
 			break
 		}
-- 
2.43.0


From 7fa365cfcd6a503ba2840e73e9de73755b37f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 36/69] fix: merkle: Verify accepted a leaf or path hash with
 bytes appended to it

---
 xcrypto/merkle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index 5a51dd8..44020a1 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -128,6 +128,10 @@ func (m *Merkle) Proofs(leaf []byte) []Node {
 func (m *Merkle) Verify(leaf []byte, root []byte, path []Node) bool {
 	hash := leaf
 	for _, node := range path {
+		// Only whole hashes are nodes: longer ones would be cut when they are combined.
+		if len(hash) > merkleHashSize || len(node.Hash) > merkleHashSize {
+			return false
+		}
 		switch node.Position {
 		case positionLeft:
 			hash = merkleNode(node.Hash, hash)
-- 
2.43.0


From f6cf6ff14dc87002bb9078530b5ba6d73b5bfb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 37/69] fix: the merkle root and proofs were wrong for 6, 10,
 12, ... leaves: padding was hashed into the tree

---
 xcrypto/merkle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index 44020a1..1d02d74 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -59,6 +59,10 @@ func NewMerkle(hashs [][]byte) *Merkle {
 		for j := 0; j < len(level); j += 2 {
 			left := level[j]
 			right := level[j+1]
+			if left == nil {
+				// Padding only: it has no parent.
+				break
+			}
 			if right == nil {
 				next[offset] = merkleNode(left, left)
 				break
-- 
2.43.0


From 7f5d6a7b554e36c98069438ef0afff2cc1114bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 38/69] fix: ping and pong were read as unhandled messages,
 without their nonce

---
 xprotocol/message.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xprotocol/message.go b/xprotocol/message.go
index d475a4e..3bbaa23 100644
--- a/xprotocol/message.go
+++ b/xprotocol/message.go
@@ -29,6 +29,10 @@ func makeEmptyMessage(command string) Message {
 		return &MsgTx{}
 	case CommandHeaders:
 		return &MsgHeaders{}
+	case CommandPing:
+		return &MsgPing{}
+	case CommandPong:
+		return &MsgPong{}
 	case CommandReject:
 		return &MsgReject{}
 	}
-- 
2.43.0


From 68a71be71032ed37e24a0c4e008c90d8f9611d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 39/69] fix: ReadMessage accepted messages with another
 network's magic

---
 xprotocol/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index e5b1ca1..5f54750 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -71,6 +71,9 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if _, err := io.ReadFull(s.reader, magic); err != nil {
 		return nil, err
 	}
+	if !bytes.Equal(magic, s.magic) {
+		return nil, fmt.Errorf("stream.read.magic.mismatch[want:%x, got:%x]", s.magic, magic)
+	}
 	command := make([]byte, 12)
 	if _, err := io.ReadFull(s.reader, command); err != nil {
 		return nil, err
-- 
2.43.0


From 00164846a9911018d0af2352edd2b7389936d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 40/69] fix: a message header could make ReadMessage allocate
 up to 4 GB; payloads are limited to 32 MB

---
 xprotocol/stream.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index 5f54750..b856eac 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -36,6 +36,7 @@ import (
 
 const (
 	bufferSize   = 32 * 1024
+	maxPayload   = 32 * 1024 * 1024 // the largest payload of a message
 	readTimeout  = 30 * time.Second
 	writeTimeout = 20 * time.Second
 )
@@ -82,6 +83,9 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if err := binary.Read(s.reader, binary.LittleEndian, &size); err != nil {
 		return nil, err
 	}
+	if size > maxPayload {
+		return nil, fmt.Errorf("stream.read.payload.too.large[max:%v, got:%v]", maxPayload, size)
+	}
 	check := make([]byte, 4)
 	if _, err := io.ReadFull(s.reader, check); err != nil {
 		return nil, err
@@ -117,6 +121,9 @@ func (s *Stream) WriteMessage(msg Message) error {
 	b.Write(command)
 
 	datas := msg.Encode()
+	if len(datas) > maxPayload {
+		return fmt.Errorf("stream.write.payload.too.large[max:%v, got:%v]", maxPayload, len(datas))
+	}
 	if err := binary.Write(&b, binary.LittleEndian, uint32(len(datas))); err != nil {
 		return err
 	}
-- 
2.43.0


From f7608835d84397b0c4a98c2bab633f9da1369c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 41/69] fix: WriteMessage cut commands of more than 12 bytes,
 so that another message was sent

---
 xprotocol/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index b856eac..5a30c0d 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -117,6 +117,9 @@ func (s *Stream) WriteMessage(msg Message) error {
 	var b bytes.Buffer
 	b.Write(s.magic)
 	command := make([]byte, 12)
+	if len(msg.Command()) > len(command) {
+		return fmt.Errorf("stream.write.command.too.long[max:%v, got:%q]", len(command), msg.Command())
+	}
 	copy(command, []byte(msg.Command()))
 	b.Write(command)
 
-- 
2.43.0


From f95a63f105a6047be3eb9ebced1afa45664ff4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:21 +0000
Subject: [PATCH 42/69] fix: a send waited until the peer had sent a message:
 reading and writing shared one lock

---
 xprotocol/stream.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index 5a30c0d..d2b6cf8 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -45,7 +45,8 @@ const (
 type Stream struct {
 	magic  []byte
 	conn   net.Conn
-	mutex  sync.Mutex
+	rmutex sync.Mutex // guards reader
+	wmutex sync.Mutex // guards writer
 	reader *bufio.Reader
 	writer *bufio.Writer
 }
@@ -62,8 +63,8 @@ func NewStream(conn net.Conn, magic []byte) *Stream {
 
 // ReadMessage -- read a message from the network.
 func (s *Stream) ReadMessage() (Message, error) {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.rmutex.Lock()
+	defer s.rmutex.Unlock()
 	if err := s.conn.SetReadDeadline(time.Now().Add(readTimeout)); err != nil {
 		return nil, err
 	}
@@ -108,8 +109,8 @@ func (s *Stream) ReadMessage() (Message, error) {
 
 // WriteMessage -- write the message to the network.
 func (s *Stream) WriteMessage(msg Message) error {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.wmutex.Lock()
+	defer s.wmutex.Unlock()
 	if err := s.conn.SetWriteDeadline(time.Now().Add(writeTimeout)); err != nil {
 		return err
 	}
-- 
2.43.0


From 84d735b54d42a19595b5afdf7713071ecf25586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 43/69] fix: the limits on inventory entries and headers could
 be passed by adding several at once

---
 xprotocol/msgheaders.go | 2 +-
 xprotocol/msginv.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 66baf0e..3e709bb 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -27,7 +27,7 @@ func NewMsgHeaders() *MsgHeaders {
 
 // AddBlockHeader -- adds a new block header to the message.
 func (m *MsgHeaders) AddBlockHeader(headers ...*BlockHeader) error {
-	if len(m.Headers)+1 > MaxBlockHeadersPerMsg {
+	if len(m.Headers)+len(headers) > MaxBlockHeadersPerMsg {
 		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
 	}
 	m.Headers = append(m.Headers, headers...)
diff --git a/xprotocol/msginv.go b/xprotocol/msginv.go
index f54c3fa..6ba6787 100644
--- a/xprotocol/msginv.go
+++ b/xprotocol/msginv.go
@@ -23,7 +23,7 @@ func NewMsgInv() *MsgInv {
 
 // AddInvVect -- adds an inventory vector to the message.
 func (m *MsgInv) AddInvVect(iv ...*InvVect) error {
-	if len(m.Invs)+1 > MaxInvPerMsg {
+	if len(m.Invs)+len(iv) > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
 	m.Invs = append(m.Invs, iv...)
-- 
2.43.0


From c7c1cddf8e605f47d9560ea31f9bf39a67e69062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 44/69] fix: headers and getheaders messages with over-limit
 counts were accepted, huge ones as an empty list

---
 xprotocol/msggetheaders.go | 5 +++++
 xprotocol/msgheaders.go    | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 78e3125..077cc66 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -6,6 +6,8 @@
 package xprotocol
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/network"
 	"github.com/keyfuse/tokucore/xbase"
 )
@@ -61,6 +63,9 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 	if err != nil {
 		return err
 	}
+	if count > uint64(len(data)/32) {
+		return fmt.Errorf("too.many.locator.hashes.for.the.message[%v]", count)
+	}
 	for i := 0; i < int(count); i++ {
 		var hash []byte
 		if hash, err = buffer.ReadBytes(32); err != nil {
diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 3e709bb..3c3c93a 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -60,6 +60,10 @@ func (m *MsgHeaders) Decode(data []byte) error {
 		return err
 	}
 
+	if count > MaxBlockHeadersPerMsg {
+		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
+	}
+
 	for i := 0; i < int(count); i++ {
 		header := &BlockHeader{}
 		if header.Version, err = buffer.ReadU32(); err != nil {
-- 
2.43.0


From bf6a45c4e72de60ac12dd01e0e60e76f4402913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:19 +0000
Subject: [PATCH 45/69] fix: getheaders: Decode ignored the stop hash

---
 xprotocol/msggetheaders.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 077cc66..662c724 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -75,6 +75,11 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 			return err
 		}
 	}
+	stop, err := buffer.ReadBytes(len(m.blockStopHash))
+	if err != nil {
+		return err
+	}
+	copy(m.blockStopHash[:], stop)
 	return nil
 }
 
-- 
2.43.0


From f9c74a905b8fcb8acf5a4dd9d72bd5486faea1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:21 +0000
Subject: [PATCH 46/69] fix: decoding into a used message kept the entries or
 the hash it had before

---
 xprotocol/msggetdata.go    | 1 +
 xprotocol/msggetheaders.go | 1 +
 xprotocol/msgheaders.go    | 1 +
 xprotocol/msginv.go        | 1 +
 xprotocol/msgreject.go     | 1 +
 5 files changed, 5 insertions(+)

diff --git a/xprotocol/msggetdata.go b/xprotocol/msggetdata.go
index 4253f16..fc070c0 100644
--- a/xprotocol/msggetdata.go
+++ b/xprotocol/msggetdata.go
@@ -44,6 +44,7 @@ func (m *MsgGetData) Encode() []byte {
 // Decode -- decoding data into MsgGetData.
 func (m *MsgGetData) Decode(data []byte) error {
 	buffer := xbase.NewBufferReader(data)
+	m.InvList = nil
 	count, err := buffer.ReadVarInt()
 	if err != nil {
 		return err
diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 662c724..1d89bde 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -56,6 +56,7 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 	var err error
 	buffer := xbase.NewBufferReader(data)
 
+	m.blockLocatorHashes = nil
 	if m.protocolVersion, err = buffer.ReadU32(); err != nil {
 		return err
 	}
diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 3c3c93a..ca2d2fe 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -55,6 +55,7 @@ func (m *MsgHeaders) Decode(data []byte) error {
 	var err error
 	buffer := xbase.NewBufferReader(data)
 
+	m.Headers = nil
 	count, err := buffer.ReadVarInt()
 	if err != nil {
 		return err
diff --git a/xprotocol/msginv.go b/xprotocol/msginv.go
index 6ba6787..d9fad7d 100644
--- a/xprotocol/msginv.go
+++ b/xprotocol/msginv.go
@@ -44,6 +44,7 @@ func (m *MsgInv) Encode() []byte {
 // Decode -- decoding data to MsgInv.
 func (m *MsgInv) Decode(data []byte) error {
 	buffer := xbase.NewBufferReader(data)
+	m.Invs = nil
 	count, err := buffer.ReadVarInt()
 	if err != nil {
 		return err
diff --git a/xprotocol/msgreject.go b/xprotocol/msgreject.go
index 9a50602..232b645 100644
--- a/xprotocol/msgreject.go
+++ b/xprotocol/msgreject.go
@@ -58,6 +58,7 @@ func (m *MsgReject) Decode(data []byte) error {
 	var err error
 	buffer := xbase.NewBufferReader(data)
 
+	m.Hash = nil
 	if m.Cmd, err = buffer.ReadVarString(); err != nil {
 		return err
 	}
-- 
2.43.0


From 63324a0bb00fb59ded3ca94d32e1e8b9418a7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:23 +0000
Subject: [PATCH 47/69] fix: reject, verack and unhandled messages reported
 sizes other than their encoded length

---
 xprotocol/msgreject.go   | 7 ++++++-
 xprotocol/msgunhandle.go | 2 +-
 xprotocol/msgverack.go   | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/xprotocol/msgreject.go b/xprotocol/msgreject.go
index 232b645..d491624 100644
--- a/xprotocol/msgreject.go
+++ b/xprotocol/msgreject.go
@@ -78,7 +78,12 @@ func (m *MsgReject) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgReject) Size() int {
-	return len(m.Cmd) + 1 + len(m.Reason) + len(m.Hash)
+	size := xbase.VarIntSerializeSize(uint64(len(m.Cmd))) + len(m.Cmd) + 1 +
+		xbase.VarIntSerializeSize(uint64(len(m.Reason))) + len(m.Reason)
+	if m.Cmd == CommandBlock || m.Cmd == CommandTx {
+		size += len(m.Hash)
+	}
+	return size
 }
 
 // Command -- returns the protocal command string of this message.
diff --git a/xprotocol/msgunhandle.go b/xprotocol/msgunhandle.go
index d8c31b1..19b7728 100644
--- a/xprotocol/msgunhandle.go
+++ b/xprotocol/msgunhandle.go
@@ -29,7 +29,7 @@ func (m *MsgUnhandle) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgUnhandle) Size() int {
-	return len(m.command)
+	return 0
 }
 
 // Command -- returns the protocol command of this message.
diff --git a/xprotocol/msgverack.go b/xprotocol/msgverack.go
index ceddcf9..d9fb118 100644
--- a/xprotocol/msgverack.go
+++ b/xprotocol/msgverack.go
@@ -25,7 +25,7 @@ func (m *MsgVerAck) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgVerAck) Size() int {
-	return len(CommandVersionAck)
+	return 0
 }
 
 // Command -- returns the protocol command of this message.
-- 
2.43.0


From 4c89de9dec6ff44f6c510eb01a4c8c212e713d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 48/69] fix: getheaders: encoding a message without locators
 added one to it and its size left it out

---
 xprotocol/msggetheaders.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 1d89bde..bc4095f 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -32,19 +32,21 @@ func (m *MsgGetHeaders) AddBlockLocatorHash(hash []byte) error {
 	return nil
 }
 
-// Encode -- encoding MsgGetHeaders.
-func (m *MsgGetHeaders) Encode() []byte {
+// locators -- the locator hashes to send: a single zero hash if there are none.
+func (m *MsgGetHeaders) locators() [][]byte {
 	if len(m.blockLocatorHashes) == 0 {
-		var zero [32]byte
-		if err := m.AddBlockLocatorHash(zero[:]); err != nil {
-			return nil
-		}
+		return [][]byte{make([]byte, 32)}
 	}
+	return m.blockLocatorHashes
+}
 
+// Encode -- encoding MsgGetHeaders.
+func (m *MsgGetHeaders) Encode() []byte {
+	locators := m.locators()
 	buffer := xbase.NewBuffer()
 	buffer.WriteU32(m.protocolVersion)
-	buffer.WriteVarInt(uint64(len(m.blockLocatorHashes)))
-	for _, locator := range m.blockLocatorHashes {
+	buffer.WriteVarInt(uint64(len(locators)))
+	for _, locator := range locators {
 		buffer.WriteBytes(locator[:])
 	}
 	buffer.WriteBytes(m.blockStopHash[:])
@@ -87,8 +89,9 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 // Size -- the size of the message.
 func (m *MsgGetHeaders) Size() int {
 	size := 4
-	size += xbase.VarIntSerializeSize(uint64(len(m.blockLocatorHashes)))
-	for _, hdr := range m.blockLocatorHashes {
+	locators := m.locators()
+	size += xbase.VarIntSerializeSize(uint64(len(locators)))
+	for _, hdr := range locators {
 		size += len(hdr)
 	}
 	size += len(m.blockStopHash)
-- 
2.43.0


From 79de7b83c5ec2bb87488c138b6976fb15e360871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 49/69] fix: version: ports were sent in little-endian byte
 order

---
 xprotocol/msgversion.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/xprotocol/msgversion.go b/xprotocol/msgversion.go
index 7dc8c0e..9e5c454 100644
--- a/xprotocol/msgversion.go
+++ b/xprotocol/msgversion.go
@@ -85,10 +85,10 @@ func (m *MsgVersion) Encode() []byte {
 	buffer.WriteU64(m.Timestamp)
 	buffer.WriteU64(m.ServicesYou)
 	buffer.WriteBytes(m.AddressYou)
-	buffer.WriteU16(m.PortYou)
+	writePort(buffer, m.PortYou)
 	buffer.WriteU64(m.ServicesMe)
 	buffer.WriteBytes(m.AddressMe)
-	buffer.WriteU16(m.PortMe)
+	writePort(buffer, m.PortMe)
 	buffer.WriteU64(m.Nonce)
 	buffer.WriteVarString(m.UserAgent)
 	buffer.WriteU32((m.LastBlock))
@@ -116,7 +116,7 @@ func (m *MsgVersion) Decode(data []byte) error {
 	if m.AddressYou, err = buffer.ReadBytes(16); err != nil {
 		return err
 	}
-	if m.PortYou, err = buffer.ReadU16(); err != nil {
+	if m.PortYou, err = readPort(buffer); err != nil {
 		return err
 	}
 	if m.ServicesMe, err = buffer.ReadU64(); err != nil {
@@ -125,7 +125,7 @@ func (m *MsgVersion) Decode(data []byte) error {
 	if m.AddressMe, err = buffer.ReadBytes(16); err != nil {
 		return err
 	}
-	if m.PortMe, err = buffer.ReadU16(); err != nil {
+	if m.PortMe, err = readPort(buffer); err != nil {
 		return err
 	}
 	if m.Nonce, err = buffer.ReadU64(); err != nil {
@@ -155,3 +155,17 @@ func (m *MsgVersion) Size() int {
 func (m *MsgVersion) Command() string {
 	return CommandVersion
 }
+
+// writePort -- ports are the one field in network byte order.
+func writePort(buffer *xbase.Buffer, port uint32) {
+	buffer.WriteBytes([]byte{byte(port >> 8), byte(port)})
+}
+
+// readPort -- reads a port in network byte order.
+func readPort(buffer *xbase.Buffer) (uint32, error) {
+	port, err := buffer.ReadBytes(2)
+	if err != nil {
+		return 0, err
+	}
+	return uint32(port[0])<<8 | uint32(port[1]), nil
+}
-- 
2.43.0


From f648162f5eabe5656e1d5d27d05781b6a1e4efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:40 +0000
Subject: [PATCH 50/69] fix: version: the loopback address was sent as text
 instead of its 16 bytes

---
 xprotocol/msgversion.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xprotocol/msgversion.go b/xprotocol/msgversion.go
index 9e5c454..7acf354 100644
--- a/xprotocol/msgversion.go
+++ b/xprotocol/msgversion.go
@@ -6,6 +6,7 @@
 package xprotocol
 
 import (
+	"net"
 	"time"
 
 	"github.com/keyfuse/tokucore/network"
@@ -68,9 +69,9 @@ func NewMsgVersion(network *network.Network) *MsgVersion {
 	return &MsgVersion{
 		Version:    network.ProtocolVersion,
 		Timestamp:  uint64(time.Now().Unix()),
-		AddressYou: []byte(ip),
+		AddressYou: net.ParseIP(ip).To16(),
 		PortYou:    network.Port,
-		AddressMe:  []byte(ip),
+		AddressMe:  net.ParseIP(ip).To16(),
 		PortMe:     network.Port,
 		UserAgent:  network.UserAgent,
 		LastBlock:  1,
-- 
2.43.0


From 09550e1a9ddc6f26582616d43147bd4fad6a146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 51/69] fix: version: the last block set for the network was
 not announced

---
 xprotocol/msgversion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xprotocol/msgversion.go b/xprotocol/msgversion.go
index 7acf354..b37a885 100644
--- a/xprotocol/msgversion.go
+++ b/xprotocol/msgversion.go
@@ -74,7 +74,7 @@ func NewMsgVersion(network *network.Network) *MsgVersion {
 		AddressMe:  net.ParseIP(ip).To16(),
 		PortMe:     network.Port,
 		UserAgent:  network.UserAgent,
-		LastBlock:  1,
+		LastBlock:  network.LastBlock,
 	}
 }
 
-- 
2.43.0


From 3ad8958fcb4709c32003e71916a98fa4a5656257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 52/69] fix: xrpc: GetBlockHeader gave base64-decoded garbage
 for previousblockhash and nextblockhash

---
 xrpc/models.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrpc/models.go b/xrpc/models.go
index 55f7c20..1875df4 100644
--- a/xrpc/models.go
+++ b/xrpc/models.go
@@ -19,8 +19,8 @@ type BlockHeaderResult struct {
 	Bits              string  `json:"bits"`
 	Difficulty        float64 `json:"difficulty"`
 	ChainWork         string  `json:"chainwork"`
-	PreviousBlockHash []byte  `json:"previousblockhash"`
-	NextBlockHash     []byte  `json:"nextblockhash"`
+	PreviousBlockHash string  `json:"previousblockhash"`
+	NextBlockHash     string  `json:"nextblockhash"`
 }
 
 // BlockResult --
-- 
2.43.0


From b588c1a517381023a812d21b74b9bb8fbd0d72a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 53/69] fix: xrpc: a reply with a missing or null result
 crashed the client

---
 xrpc/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xrpc/client.go b/xrpc/client.go
index b8b63d4..b41c06f 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -87,5 +87,8 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	if resp.Error != nil {
 		return nil, fmt.Errorf("%v", resp.Error)
 	}
+	if resp.Result == nil {
+		return nil, fmt.Errorf("%v: reply without a result", method)
+	}
 	return resp, nil
 }
-- 
2.43.0


From d3ff0b9845768017333fdfd85093be2367a930f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 54/69] fix: xrpc: a reply with a failing HTTP status was taken
 for the answer

---
 xrpc/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xrpc/client.go b/xrpc/client.go
index b41c06f..746075b 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -87,6 +87,9 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	if resp.Error != nil {
 		return nil, fmt.Errorf("%v", resp.Error)
 	}
+	if rawResp.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("%v: http status %v", method, rawResp.Status)
+	}
 	if resp.Result == nil {
 		return nil, fmt.Errorf("%v: reply without a result", method)
 	}
-- 
2.43.0


From 68b52906df09e5388f1170bf8bf5ecea942951f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 55/69] fix: xrpc: GetBlock failed for a block off the main
 chain (confirmations -1)

---
 xrpc/models.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrpc/models.go b/xrpc/models.go
index 1875df4..3fcbb7f 100644
--- a/xrpc/models.go
+++ b/xrpc/models.go
@@ -26,7 +26,7 @@ type BlockHeaderResult struct {
 // BlockResult --
 type BlockResult struct {
 	Hash          string              `json:"hash"`
-	Confirmations uint64              `json:"confirmations"`
+	Confirmations int64               `json:"confirmations"`
 	StrippedSize  int32               `json:"strippedsize"`
 	Size          int32               `json:"size"`
 	Weight        int32               `json:"weight"`
-- 
2.43.0


From 634763a2291a1fe59b8b99339bbfd9574dc42de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 56/69] fix: xrpc: GetBlock failed for blocks with transaction
 versions of 2^31 and more

---
 xrpc/models.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrpc/models.go b/xrpc/models.go
index 3fcbb7f..e482567 100644
--- a/xrpc/models.go
+++ b/xrpc/models.go
@@ -80,7 +80,7 @@ type Vout struct {
 type TransactionResult struct {
 	Hex      string `json:"hex"`
 	Txid     string `json:"txid"`
-	Version  int32  `json:"version"`
+	Version  int64  `json:"version"`
 	Size     uint32 `json:"size"`
 	Vsize    uint32 `json:"vsize"`
 	Weight   uint32 `json:"weight"`
-- 
2.43.0


From 51d0dc5ec0b56783e543aab0f0f4cf45e83e0dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 57/69] fix: xrpc: a reply followed by other data was taken for
 the answer

---
 xrpc/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xrpc/client.go b/xrpc/client.go
index 746075b..95cc91f 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -10,6 +10,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"io/ioutil"
 	"net/http"
 	"time"
 )
@@ -79,8 +80,12 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	}
 	defer rawResp.Body.Close()
 
+	body, err := ioutil.ReadAll(rawResp.Body)
+	if err != nil {
+		return nil, err
+	}
 	resp := &Response{}
-	if err := json.NewDecoder(rawResp.Body).Decode(resp); err != nil {
+	if err := json.Unmarshal(body, resp); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From fa0e7bfc4eb86220f4b09b38877e5461aae8701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 58/69] fix: Transaction.ToString crashed on a witness input
 without a witness

---
 xcore/transaction.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index dca9c87..2e1b679 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -920,7 +920,12 @@ func (tx *Transaction) ToString() string {
 		lines = append(lines, fmt.Sprintf("      \"script\":\t\"%s\",", xvm.DisasmString(in.RawUnlockingScript)))
 		lines = append(lines, fmt.Sprintf("      \"sighash\":\t\"%x\",", in.SignatureHash))
 		if in.HasWitness() {
-			lines = append(lines, fmt.Sprintf("      \"witness\":\t\"%x\",", in.Witness[0]))
+			// The input may not be signed yet.
+			var witness []byte
+			if len(in.Witness) > 0 {
+				witness = in.Witness[0]
+			}
+			lines = append(lines, fmt.Sprintf("      \"witness\":\t\"%x\",", witness))
 			lines = append(lines, fmt.Sprintf("      \"scriptcode\":\t\"%x\"", in.WitnessScriptCode))
 		}
 		if i == (len(tx.inputs) - 1) {
-- 
2.43.0


From a13ad8273c52f03a0fba7796016e7d30c03659c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 59/69] fix: paillier: Decrypt takes a ciphertext modulo N^2
 again (the two-party example relies on it)

---
 xcrypto/paillier/paillier.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index 3aeede4..2f3326d 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -95,9 +95,9 @@ func (pk *PubKey) Encrypt(msg *big.Int) (*big.Int, error) {
 	return c.Mod(c, pk.NN), nil
 }
 
-// Decrypt -- returns the plaintext corresponding to the ciphertext (ct).
+// Decrypt -- returns the plaintext corresponding to the ciphertext (ct), which counts modulo n^2.
 func (sk *PrvKey) Decrypt(ct *big.Int) (*big.Int, error) {
-	if !inRange(ct, sk.pk.NN) {
+	if ct == nil || ct.Cmp(zero) != 1 {
 		return nil, fmt.Errorf("ciphertext.invalid")
 	}
 
-- 
2.43.0


From 7567e14dda9c37a188532a57be73967e1c93255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 60/69] fix: stream: a message header made the reader allocate
 the announced size before any payload arrived

---
 xprotocol/stream.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index d2b6cf8..0399781 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -91,10 +91,15 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if _, err := io.ReadFull(s.reader, check); err != nil {
 		return nil, err
 	}
-	data := make([]byte, size)
-	if _, err := io.ReadFull(s.reader, data); err != nil {
+	// The size is only a claim: the memory grows with what really arrives.
+	var payload bytes.Buffer
+	if _, err := io.CopyN(&payload, s.reader, int64(size)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
+	data := payload.Bytes()
 	if !bytes.Equal(check, checksum(data)) {
 		return nil, fmt.Errorf("stream.read.payload.checksum.mismatch")
 	}
-- 
2.43.0


From 9920b1decf29dd6d50d58e8def9b445c19b565eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 61/69] fix: Bech32Encode, schnorr.GetK0 and schnorr.GetE wrote
 behind the slices they were given (into what the caller keeps there)

---
 xbase/bech32.go            | 3 ++-
 xcrypto/schnorr/schnorr.go | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/xbase/bech32.go b/xbase/bech32.go
index 5cb92b2..2a9cc4e 100644
--- a/xbase/bech32.go
+++ b/xbase/bech32.go
@@ -79,7 +79,8 @@ func Bech32Decode(bech string) (string, []byte, error) {
 func Bech32Encode(hrp string, data []byte) (string, error) {
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
-	combined := append(data, checksum...)
+	// The capped slice makes append copy: the caller's array behind data is left as it is.
+	combined := append(data[:len(data):len(data)], checksum...)
 
 	// The resulting bech32 string is the concatenation of the hrp, the
 	// separator 1, data and checksum. Everything after the separator is
diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index 0d9f798..f682490 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -112,7 +112,8 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 
 // GetK0 -- used get k0 under schnorr BIP.
 func GetK0(m []byte, d []byte, N *big.Int) (*big.Int, error) {
-	hash := sha256.Sum256(append(d, m[:]...))
+	// The capped slice makes append copy: the caller's array behind d is left as it is.
+	hash := sha256.Sum256(append(d[:len(d):len(d)], m[:]...))
 	i := new(big.Int).SetBytes(hash[:])
 	k0 := i.Mod(i, N)
 	if k0.Sign() == 0 {
@@ -135,7 +136,8 @@ func GetK(curve elliptic.Curve, Ry, k0 *big.Int) *big.Int {
 // GetE -- used get e under schnorr BIP.
 func GetE(curve elliptic.Curve, m []byte, Px, Py *big.Int, rX []byte) *big.Int {
 	N := curve.Params().N
-	r := append(rX, secp256k1.SecMarshal(curve, Px, Py)...)
+	// The capped slice makes append copy: the caller's array behind rX is left as it is.
+	r := append(rX[:len(rX):len(rX)], secp256k1.SecMarshal(curve, Px, Py)...)
 	r = append(r, m[:]...)
 	h := sha256.Sum256(r)
 	i := new(big.Int).SetBytes(h[:])
-- 
2.43.0


From 33e6070c8b7df9126ff7a2ed26485bcb54f3efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:01 +0000
Subject: [PATCH 62/69] fix: an error with a code its table does not list was
 the shared unknown-error object itself, without a stack: one caller's change
 of it reached every other, and %+v panicked

---
 xerror/error.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xerror/error.go b/xerror/error.go
index 11b93b0..83e5818 100644
--- a/xerror/error.go
+++ b/xerror/error.go
@@ -23,7 +23,13 @@ type Error struct {
 func NewError(table map[int]*Error, number int, args ...interface{}) *Error {
 	errn, ok := table[number]
 	if !ok {
-		return Errors[ER_UNKNOWN]
+		unknown := Errors[ER_UNKNOWN]
+		return &Error{
+			Num:     unknown.Num,
+			State:   unknown.State,
+			Message: unknown.Message,
+			stack:   caller(),
+		}
 	}
 	return &Error{
 		Num:     errn.Num,
-- 
2.43.0


From b2f92bbd3b9799eab63b999b0deff029016167c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:04 +0000
Subject: [PATCH 63/69] fix: an error printed with %s or %q came out empty

---
 xerror/error.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xerror/error.go b/xerror/error.go
index 83e5818..95f0668 100644
--- a/xerror/error.go
+++ b/xerror/error.go
@@ -62,6 +62,10 @@ func (e *Error) Format(s fmt.State, verb rune) {
 				return
 			}
 		}
+	case 's':
+		io.WriteString(s, e.Error())
+	case 'q':
+		fmt.Fprintf(s, "%q", e.Error())
 	}
 }
 
-- 
2.43.0


From f93737be9a6cdf85f7bada34d4f45c5521d2f761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:06 +0000
Subject: [PATCH 64/69] fix: EmbedIdxSignature refused (no signatures, wrong
 redeem script) wiped the unlocking script or witness the input already had

---
 xcore/transaction.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 2e1b679..59ede45 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -270,13 +270,17 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 		return err
 	}
 	// Raw unlocking.
-	if txIn.RawUnlockingScript, err = scriptInstance.GetRawUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
+	rawUnlocking, err := scriptInstance.GetRawUnlockingScriptBytes(signs, txIn.RedeemScript)
+	if err != nil {
 		return err
 	}
 	// Witness unlocking.
-	if txIn.Witness, err = scriptInstance.GetWitnessUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
+	witness, err := scriptInstance.GetWitnessUnlockingScriptBytes(signs, txIn.RedeemScript)
+	if err != nil {
 		return err
 	}
+	txIn.RawUnlockingScript = rawUnlocking
+	txIn.Witness = witness
 	return nil
 }
 
-- 
2.43.0


From 783836a98a33596e74ccdf04497a5533f0a3a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:09 +0000
Subject: [PATCH 65/69] fix: RawSignature and WitnessSignature panicked for a
 negative index instead of returning the out of index error

---
 xcore/transaction.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 59ede45..3d5e94f 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -431,7 +431,7 @@ func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []b
 func (tx *Transaction) RawSignature(idx int, hashType SigHashType, prv *xcrypto.PrvKey) ([]byte, error) {
 	// Sanity Check
 	inputs := len(tx.inputs)
-	if idx >= inputs {
+	if idx < 0 || idx >= inputs {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
 	}
 
@@ -451,7 +451,7 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 
 	// Sanity Check
 	inputs := len(tx.inputs)
-	if idx >= inputs {
+	if idx < 0 || idx >= inputs {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
 	}
 
-- 
2.43.0


From d67f53602e7d4fdfe8f5463172d21ee3bdab8d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:57 +0000
Subject: [PATCH 66/69] fix: a transaction whose Deserialize was refused was
 left half overwritten, with nil inputs: Serialize and ID then panicked

---
 xcore/transaction.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 3d5e94f..fd4c9a7 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -537,6 +537,15 @@ func (tx *Transaction) Serialize() []byte {
 
 // Deserialize -- decode bytes to witness transaction struct.
 func (tx *Transaction) Deserialize(data []byte) error {
+	parsed := NewTransaction()
+	if err := parsed.deserialize(data); err != nil {
+		return err
+	}
+	*tx = *parsed
+	return nil
+}
+
+func (tx *Transaction) deserialize(data []byte) error {
 	var err error
 	buffer := xbase.NewBufferReader(data)
 
@@ -551,7 +560,7 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	}
 	// No marker, the transaction is in the format without witness datas(BIP0144).
 	if marker != witnessMarker {
-		return tx.DeserializeNoWitness(data)
+		return tx.deserializeNoWitness(data)
 	}
 
 	var flag byte
@@ -677,6 +686,15 @@ func (tx *Transaction) SerializeNoWitness() []byte {
 
 // DeserializeNoWitness -- decode bytes to raw transaction struct.
 func (tx *Transaction) DeserializeNoWitness(data []byte) error {
+	parsed := NewTransaction()
+	if err := parsed.deserializeNoWitness(data); err != nil {
+		return err
+	}
+	*tx = *parsed
+	return nil
+}
+
+func (tx *Transaction) deserializeNoWitness(data []byte) error {
 	var err error
 	buffer := xbase.NewBufferReader(data)
 
-- 
2.43.0


From 9213fe4bd0ece55abd708c9ef43839723cf89e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:00 +0000
Subject: [PATCH 67/69] fix: Stack.DropN refused for too few items dropped
 those there were

---
 xvm/stack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xvm/stack.go b/xvm/stack.go
index 238ca59..b80a509 100644
--- a/xvm/stack.go
+++ b/xvm/stack.go
@@ -155,6 +155,9 @@ func (s *Stack) DropN(n int32) error {
 	if n < 1 {
 		return xerror.NewError(Errors, ER_SCRIPT_STACK_OPERATION_INVALID, "DropN", n)
 	}
+	if int(n) > len(s.stk) {
+		return xerror.NewError(Errors, ER_SCRIPT_STACK_INDEX_INVALID, n-1, len(s.stk))
+	}
 
 	for ; n > 0; n-- {
 		_, err := s.PopByteArray()
-- 
2.43.0


From a55ba0b1350e26c0436e514bd5e9c408d0b1e2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:41 +0000
Subject: [PATCH 68/69] fix: executing a script formatted the whole stack after
 every instruction: a script of a kilobyte took a minute to verify, one of ten
 kilobytes hours

---
 xvm/engine.go |  6 +++++-
 xvm/stack.go  | 12 ++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index c48232d..96889c7 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -199,7 +199,11 @@ func (vm *Engine) execute(program []byte, final bool) error {
 			break
 		}
 
-		cur := vm.dstack.String()
+		// The stack in readable format grows with every copy of an item: without debug only a small one is kept.
+		cur := ""
+		if vm.debug || vm.dstack.isSmall() {
+			cur = vm.dstack.String()
+		}
 		if vm.debug && final && vm.instruction != nil {
 			trace := Trace{
 				Step:      vm.pc,
diff --git a/xvm/stack.go b/xvm/stack.go
index b80a509..214761e 100644
--- a/xvm/stack.go
+++ b/xvm/stack.go
@@ -206,6 +206,18 @@ func (s *Stack) String() string {
 	return result
 }
 
+// isSmall -- returns whether the stack has few and short items.
+func (s *Stack) isSmall() bool {
+	if len(s.stk) > 8 {
+		return false
+	}
+	size := 0
+	for _, item := range s.stk {
+		size += len(item)
+	}
+	return size <= 520
+}
+
 // Copy -- clone the stack to new.
 func (s *Stack) Copy() *Stack {
 	copy := NewStack()
-- 
2.43.0


From 4793322a59fe085a274dde72ead0cb6f485f0e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 69/69] fix: a coin whose transaction id does not have 32 bytes
 is refused: the built transaction could not be parsed

---
 xcore/transactionbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 3c54782..39d19f4 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -188,6 +188,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				if err != nil {
 					return nil, err
 				}
+				if len(txid) != hashSize {
+					return nil, fmt.Errorf("transaction.builder.coin.txid.size.want[%v].got[%v]", hashSize, len(txid))
+				}
 				// Hex to script.
 				script, err := hex.DecodeString(grpinput.script)
 				if err != nil {
-- 
2.43.0

