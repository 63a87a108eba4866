package props

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"runtime"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/xprotocol"
	"github.com/keyfuse/tokucore/xvm"
)

func init() { mc.Register("C31", c31) }

// parser31 is one parser of untrusted data. parse returns nil when the input was refused, else what inspects the value
// in every way the library offers (deep: including the operations on the curve).
type parser31 struct {
	name  string
	text  bool
	nomem bool // no parser, but something that shows or runs what was parsed
	slow  bool // a parse or its inspection takes curve operations
	parse func(in []byte) func(deep bool)
	seeds [][]byte
	fix   func(payload []byte) []byte // puts a payload into its checksummed encoding before it is parsed
}

var nets31 = []*network.Network{network.MainNet, network.TestNet}

func use(v ...interface{}) { sink31 = len(v) }

var sink31 int

func inspectAddress(a xcore.Address) func(bool) {
	return func(bool) {
		for _, n := range nets31 {
			if s := a.ToString(n); s == "" {
				panic("an address that was accepted has no text")
			}
		}
		use(a.Hash160())
		l, err := a.LockingScript()
		if err == nil {
			use(xvm.DisasmString(l))
			if s, err := xcore.ParseLockingScript(l); err == nil {
				use(s)
			}
		}
	}
}

func inspectScript(s xcore.Script) func(bool) {
	return func(bool) {
		inspectAddress(s.GetAddress())(false)
		use(s.GetScriptVersion())
		raw, err := s.GetRawLockingScriptBytes()
		use(raw, err)
		keys := []xcore.PubKeySign{{PubKey: rep(2, 33), Signature: rep(0x30, 71)}, {PubKey: nil, Signature: nil}, {PubKey: rep(2, 33), Signature: []byte{0}}}
		for _, redeem := range [][]byte{nil, {}, {0x51}, rep(0x4c, 300)} {
			use(s.GetFinalLockingScriptBytes(redeem))
			use(s.GetWitnessScriptCode(redeem))
			for n := 1; n <= len(keys); n++ {
				use(s.GetRawUnlockingScriptBytes(keys[:n], redeem))
				use(s.GetWitnessUnlockingScriptBytes(keys[:n], redeem))
			}
		}
		items := [][]byte{nil, {0}, {1}, rep(7, 33), rep(8, 600)}
		for n := 0; n <= len(items); n++ {
			use(s.WitnessToUnlockingScriptBytes(items[:n]))
			use(s.WitnessToUnlockingScriptBytes(items[len(items)-n:]))
		}
	}
}

// prev31 are outputs that the inputs of an accepted transaction are said to spend.
var prev31 = func() (o [][2][]byte) {
	ms := multisigScript(1, [][]byte{testKeys[0].PubKey().SerializeCompressed(), testKeys[1].PubKey().SerializeCompressed()})
	for kind := 0; kind < 4; kind++ {
		o = append(o, [2][]byte{refLocking(kind, rep(9, kindLen(kind))), nil})
	}
	h := ref.Hash160(testKeys[0].PubKey().SerializeCompressed())
	return append(o, [2][]byte{refLocking(kPKH, h), nil}, [2][]byte{refLocking(kWPKH, h), nil}, [2][]byte{refLocking(kWSH, ref.Sha256(ms)), ms}, [2][]byte{refLocking(kSH, ref.Hash160(ms)), ms})
}()

func inspectTx(tx *xcore.Transaction) func(bool) {
	return func(deep bool) {
		look := func() {
			use(tx.Hash(), tx.ID(), tx.WitnessHash(), tx.WitnessID(), tx.HasWitness(), tx.SerializeNoWitness(), tx.BaseSize(), tx.WitnessSize(),
				tx.Weight(), tx.Vsize(), tx.Size(), tx.Fees(), tx.ToString())
		}
		look()
		use(tx.Verify())
		b := tx.Serialize()
		m, ok := ref.ParseTx(b)
		n := 0
		if ok {
			n = len(m.In)
		}
		for i := 0; i < n && i < 3; i++ {
			for _, ht := range []xcore.SigHashType{0, 1, 2, 3, 0x81, 0x82, 0x83, 0xff} {
				use(tx.RawSignatureHash(i, ht), tx.WitnessV0SignatureHash(i, ht))
			}
		}
		if !deep {
			return
		}
		for _, p := range prev31 {
			for i := 0; i < n; i++ {
				use(tx.SetTxIn(i, 5000, p[0], p[1]))
			}
			look()
			use(tx.Verify())
		}
		use(tx.SetTxIn(-1, 1, prev31[0][0], nil), tx.SetTxIn(n, 1, prev31[0][0], nil))
	}
}

func inspectPub(p *xcrypto.PubKey) func(bool) {
	return func(deep bool) {
		use(p.XBytes(), p.YBytes(), p.Serialize(), p.SerializeCompressed(), p.SerializeUncompressed(), p.SerializeHybrid(), p.Hash160())
		use(p.Add(p))
		if deep {
			use(xcrypto.EcdsaVerify(p, rep(1, 32), goodDER31))
			use(xcrypto.SchnorrVerify(p, rep(1, 32), rep(3, 64)))
		}
	}
}

var goodDER31 = func() []byte { s, _ := xcrypto.EcdsaSign(testKeys[0], rep(1, 32)); return s }()

func inspectHD(k *bip32.HDKey) func(bool) {
	return func(deep bool) {
		for _, n := range nets31 {
			use(k.ToString(n), k.HDPublicKey().ToString(n))
		}
		inspectPub(k.PublicKey())(false)
		if p := k.PrivateKey(); p != nil {
			use(p.Serialize())
		}
		if !deep {
			return
		}
		for _, i := range []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff} {
			if d, err := k.Derive(i); err == nil {
				use(d.ToString(network.MainNet), d.HDPublicKey().ToString(network.TestNet))
			}
		}
	}
}

func inspectMsg(m xprotocol.Message) func(bool) {
	return func(bool) {
		use(m.Command(), m.Size(), m.Encode(), fmt.Sprintf("%v %+v", m, m))
		switch v := m.(type) {
		case *xprotocol.MsgHeaders:
			use(v)
		case *xprotocol.MsgTx:
			tx := xcore.NewTransaction()
			if tx.Deserialize(m.Encode()) == nil {
				inspectTx(tx)(false)
			}
		}
	}
}

func errVal(what string, v bool, err error) {
	if err == nil && !v {
		panic(what + ": neither a value nor an error")
	}
}

func parsers31() []parser31 {
	var ps []parser31
	add := func(p parser31) { ps = append(ps, p) }

	// transactions
	var txs [][]byte
	mk := func(kinds []int, outs int, sign bool) {
		s := newSpendTx()
		for _, k := range kinds {
			s.add(spendKinds[k])
		}
		s.outputs(outs)
		if sign {
			for i := range kinds {
				if err := s.sign(i, xcore.SigHashAll); err != nil {
					panic(err)
				}
			}
		}
		m := s.model()
		txs = append(txs, m.Full())
	}
	mk([]int{0}, 1, true)
	mk([]int{2}, 1, true)
	mk([]int{5}, 1, true)
	mk([]int{3}, 2, true)
	mk([]int{2, 0}, 1, true)
	mk([]int{0}, 0, false)
	mk(nil, 1, false)
	txs = append(txs, cat(ref.U32(nil, 1), []byte{0, 1, 0, 0, 0, 0, 0, 0}), cat(ref.U32(nil, 1), []byte{0, 1, 0, 0, 0, 0, 0, 0, 0, 0}))
	add(parser31{name: "Transaction.Deserialize", seeds: txs, parse: func(in []byte) func(bool) {
		tx := xcore.NewTransaction()
		if tx.Deserialize(in) != nil {
			return nil
		}
		return inspectTx(tx)
	}})
	add(parser31{name: "Transaction.DeserializeNoWitness", seeds: txs[:1], parse: func(in []byte) func(bool) {
		tx := xcore.NewTransaction()
		if tx.DeserializeNoWitness(in) != nil {
			return nil
		}
		return inspectTx(tx)
	}})

	// scripts
	var locks, scripts [][]byte
	for kind := 0; kind < 4; kind++ {
		locks = append(locks, refLocking(kind, seq(1, kindLen(kind))))
	}
	scripts = append(append(scripts, locks...), multisigScript(2, [][]byte{rep(2, 33), rep(3, 33), rep(4, 65)}),
		cat([]byte{0x4c, 3}, seq(1, 3), []byte{0x4d, 3, 0}, seq(1, 3), []byte{0x4e, 3, 0, 0, 0}, seq(1, 3)),
		[]byte{0x63, 0x67, 0x68, 0x6a}, []byte{0x51, 0x63, 0x52, 0x67, 0x53, 0x68, 0x87}, []byte{0x51, 0x52, 0x93, 0x53, 0x87}, []byte{0x4f, 0x79, 0x7a, 0xad, 0xae, 0xaf})
	add(parser31{name: "ParseLockingScript", seeds: locks, parse: func(in []byte) func(bool) {
		s, err := xcore.ParseLockingScript(in)
		errVal("ParseLockingScript", s != nil, err)
		if err != nil {
			return nil
		}
		return inspectScript(s)
	}})
	add(parser31{name: "NewTxIn", seeds: locks, parse: func(in []byte) func(bool) {
		t, err := xcore.NewTxIn(rep(1, 32), 0, 7, in, in)
		errVal("NewTxIn", t != nil, err)
		if err != nil {
			return nil
		}
		return func(bool) {
			tx := xcore.NewTransaction()
			tx.AddInput(t)
			tx.AddOutput(xcore.NewTxOut(5, in))
			inspectTx(tx)(false)
		}
	}})
	add(parser31{name: "ScriptReader", seeds: scripts, parse: func(in []byte) func(bool) {
		ins, err := xvm.NewScriptReader(in).AllInstructions()
		r := xvm.NewScriptReader(in)
		for i := 0; ; i++ {
			x, err := r.NextInstruction()
			if err != nil || x == nil {
				break
			}
			use(x.OpCode(), x.Data())
			if i > len(in) {
				panic("more instructions than bytes")
			}
		}
		if err != nil {
			return nil
		}
		return func(bool) {
			for i := range ins {
				use(ins[i].OpCode(), ins[i].Data())
			}
		}
	}})
	add(parser31{name: "DisasmString", nomem: true, seeds: scripts, parse: func(in []byte) func(bool) {
		use(xvm.DisasmString(in), xvm.RemoveOpcode(in, 0xab), xvm.NewScriptReader(in).DisasmRemaining())
		r := xvm.NewScriptReader(in)
		for i := 0; i < 20; i++ {
			if x, err := r.NextInstruction(); err != nil || x == nil {
				return nil
			}
			use(r.DisasmRemaining())
		}
		return func(bool) {}
	}})
	add(parser31{name: "Engine.Execute", nomem: true, seeds: scripts, parse: func(in []byte) func(bool) {
		vm := func() *xvm.Engine {
			e := xvm.NewEngine()
			e.SetSigHashFn(func(byte) ([]byte, error) { return rep(1, 32), nil })
			e.SetSigVerifyFn(func([]byte, []byte, []byte) error { return nil })
			return e
		}
		e := vm()
		e.EnableDebug()
		err := e.Execute(in)
		use(e.Traces())
		e = vm()
		e.EnableStrict()
		e.EnableCleanStack()
		use(e.Verify(in, in), vm().Verify(nil, in), vm().Verify(in, nil), vm().Verify(cat(rep(0x51, 5)), in))
		e = vm()
		for h := len(in) / 2; h >= 0; h -= 1 + len(in) {
			use(vm().Verify(in[:h], in[h:]))
		}
		if err != nil {
			return nil
		}
		return func(bool) {}
	}})
	add(parser31{name: "MakeScriptNum", seeds: [][]byte{{}, {1}, {0xff, 0x7f}, seq(1, 4), seq(0x81, 5), rep(0xff, 8), rep(0xff, 9)}, parse: func(in []byte) func(bool) {
		ok := false
		for _, n := range []int{0, 1, 2, 4, 5, 8} {
			if v, err := xvm.MakeScriptNum(in, n); err == nil {
				ok = true
				use(v.Bytes(), v.Int32())
			}
		}
		if !ok {
			return nil
		}
		return func(bool) {}
	}})
	add(parser31{name: "ScriptBuilder.Load", text: true, seeds: [][]byte{[]byte("OP_DUP OP_HASH160 0x14 OP_EQUALVERIFY"), []byte("0x0102 '6162' -1 16 127"), []byte("OP_CHECKSIG")}, parse: func(in []byte) func(bool) {
		s, err := xvm.NewScriptBuilder().Load(string(in)).Script()
		if err != nil {
			return nil
		}
		return func(bool) { use(xvm.DisasmString(s)) }
	}})

	// addresses and text codings
	var addrs [][]byte
	for kind := 0; kind < 4; kind++ {
		h := seq(3, kindLen(kind))
		switch kind {
		case kPKH:
			addrs = append(addrs, []byte(ref.B58CheckEncode(h, 0)), []byte(ref.B58CheckEncode(h, 111)))
		case kSH:
			addrs = append(addrs, []byte(ref.B58CheckEncode(h, 5)))
		default:
			addrs = append(addrs, []byte(ref.SegwitEncode("bc", 0, h)), []byte(ref.SegwitEncode("tb", 0, h)))
		}
	}
	decodeAddr := func(in []byte) func(bool) {
		var got xcore.Address
		for _, n := range nets31 {
			a, err := xcore.DecodeAddress(string(in), n)
			errVal("DecodeAddress", a != nil, err)
			if err == nil {
				got = a
			}
		}
		if got == nil {
			return nil
		}
		return inspectAddress(got)
	}
	add(parser31{name: "DecodeAddress", text: true, seeds: addrs, parse: decodeAddr})
	add(parser31{name: "DecodeAddress of any base58check payload", seeds: [][]byte{cat([]byte{0}, seq(1, 20)), cat([]byte{5}, seq(1, 20)), {0}}, parse: decodeAddr,
		fix: func(p []byte) []byte {
			if len(p) == 0 {
				return []byte(ref.B58Encode(ref.Sha256d(nil)[:4]))
			}
			return []byte(ref.B58CheckEncode(p[1:], p[0]))
		}})
	five := func(hrp string) func([]byte) []byte {
		return func(p []byte) []byte {
			d := make([]byte, len(p))
			for i := range p {
				d[i] = p[i] & 31
			}
			return []byte(ref.Bech32Encode(hrp, d))
		}
	}
	for _, hrp := range []string{"bc", "tb", "x"} {
		add(parser31{name: "DecodeAddress of any bech32 payload " + hrp, seeds: [][]byte{cat([]byte{0}, ref.To5(seq(1, 20))), cat([]byte{0}, ref.To5(seq(1, 32))), cat([]byte{1}, ref.To5(seq(1, 2)))}, parse: decodeAddr, fix: five(hrp)})
	}
	add(parser31{name: "Base58Decode", text: true, seeds: addrs[:1], parse: func(in []byte) func(bool) {
		if b := xbase.Base58Decode(string(in)); len(b) > 0 {
			return func(bool) { use(xbase.Base58Encode(b)) }
		}
		return nil
	}})
	add(parser31{name: "Base58CheckDecode", text: true, seeds: addrs[:1], parse: func(in []byte) func(bool) {
		b, v, err := xbase.Base58CheckDecode(string(in))
		if err != nil {
			return nil
		}
		return func(bool) { use(xbase.Base58CheckEncode(b, v)) }
	}})
	add(parser31{name: "Bech32Decode", text: true, seeds: [][]byte{addrs[len(addrs)-1], []byte("a12uel5l"), []byte("?1ezyfcl")}, parse: func(in []byte) func(bool) {
		h, d, err := xbase.Bech32Decode(string(in))
		if err != nil {
			return nil
		}
		return func(bool) { use(xbase.Bech32Encode(h, d)) }
	}})
	witness := func(in []byte) func(bool) {
		h, v, p, err := xbase.WitnessDecode(string(in))
		if err != nil {
			return nil
		}
		return func(bool) { use(xbase.WitnessEncode(h, v, p)) }
	}
	add(parser31{name: "WitnessDecode", text: true, seeds: addrs[len(addrs)-1:], parse: witness})
	add(parser31{name: "WitnessDecode of any payload", seeds: [][]byte{cat([]byte{0}, ref.To5(seq(1, 20))), cat([]byte{16}, ref.To5(seq(1, 2)))}, parse: witness, fix: five("bc")})
	add(parser31{name: "NewIDFromString", text: true, seeds: [][]byte{[]byte(strings.Repeat("0a", 32))}, parse: func(in []byte) func(bool) {
		b, err := xbase.NewIDFromString(string(in))
		if err != nil {
			return nil
		}
		return func(bool) { use(xbase.NewIDToString(b)) }
	}})
	add(parser31{name: "Buffer reads", seeds: [][]byte{cat([]byte{0xfd, 3, 0}, seq(1, 3)), {0xff, 1, 0, 0, 0, 0, 0, 0, 0, 9}}, parse: func(in []byte) func(bool) {
		ok := false
		for op := 0; op < 8; op++ {
			b := xbase.NewBufferReader(in)
			for i := 0; i < 4; i++ {
				var err error
				switch op {
				case 0:
					_, err = b.ReadU8()
				case 1:
					_, err = b.ReadU16()
				case 2:
					_, err = b.ReadU32()
				case 3:
					_, err = b.ReadU64()
				case 4:
					_, err = b.ReadVarInt()
				case 5:
					_, err = b.ReadVarBytes()
				case 6:
					_, err = b.ReadVarString()
				case 7:
					for _, n := range []int{-1, -1 << 63, 1<<63 - 1, 0, 3} {
						x, e := b.ReadBytes(n)
						if e == nil && len(x) != n {
							panic(fmt.Sprintf("ReadBytes(%d) gave %d bytes", n, len(x)))
						}
						err = e
					}
				}
				ok = ok || err == nil
				use(b.Remaining(), b.Seek(), b.End(), b.Len())
			}
		}
		if !ok {
			return nil
		}
		return func(bool) {}
	}})

	// keys and signatures
	pk := testKeys[0].PubKey()
	add(parser31{name: "PubKeyFromBytes", slow: true, seeds: [][]byte{pk.SerializeCompressed(), pk.SerializeUncompressed(), pk.SerializeHybrid()}, parse: func(in []byte) func(bool) {
		p, err := xcrypto.PubKeyFromBytes(in)
		errVal("PubKeyFromBytes", p != nil, err)
		if err != nil {
			return nil
		}
		return inspectPub(p)
	}})
	add(parser31{name: "SecUnmarshal", slow: true, seeds: [][]byte{pk.SerializeCompressed(), pk.SerializeUncompressed()}, parse: func(in []byte) func(bool) {
		x, y := secp256k1.SecUnmarshal(secp256k1.SECP256K1(), in)
		if (x == nil) != (y == nil) {
			panic("SecUnmarshal: half a point")
		}
		if x == nil {
			return nil
		}
		return func(bool) { use(secp256k1.SecMarshal(secp256k1.SECP256K1(), x, y)) }
	}})
	n := secp256k1.SECP256K1().Params().N
	add(parser31{name: "PrvKeyFromBytes", slow: true, seeds: [][]byte{rep(1, 32), make([]byte, 32), n.Bytes(), new(big.Int).Sub(n, big.NewInt(1)).Bytes(), rep(0xff, 33)}, parse: func(in []byte) func(bool) {
		p := xcrypto.PrvKeyFromBytes(in)
		if p == nil {
			return nil
		}
		return func(deep bool) {
			use(p.Serialize())
			if deep {
				use(p.PubKey().Serialize(), p.Add([]byte{1}).Serialize())
			}
		}
	}})
	add(parser31{name: "SignatureEcdsa.Deserialize", slow: true, seeds: [][]byte{goodDER31, ref.DERSig(big.NewInt(1), big.NewInt(1)), ref.DERSig(n, n)}, parse: func(in []byte) func(bool) {
		s := xcrypto.NewSignatureEcdsa()
		if s.Deserialize(in) != nil {
			return nil
		}
		return func(deep bool) {
			use(s.Serialize())
			if deep {
				use(xcrypto.EcdsaVerify(pk, rep(1, 32), in), xcrypto.EcdsaVerify(pk, nil, in))
			}
		}
	}})
	sg, _ := xcrypto.SchnorrSign(testKeys[0], rep(1, 32))
	add(parser31{name: "SignatureSchnorr.Deserialize", slow: true, seeds: [][]byte{sg, make([]byte, 64), rep(0xff, 64)}, parse: func(in []byte) func(bool) {
		s := xcrypto.NewSignatureSchnorr()
		use(s)
		if s.Deserialize(in) != nil {
			return nil
		}
		return func(deep bool) {
			use(s.Serialize())
			if deep {
				use(xcrypto.SchnorrVerify(pk, rep(1, 32), in))
			}
		}
	}})

	// extended keys, paths, mnemonics
	hd := bip32.NewHDKey(seq(1, 32))
	raw := func(k *bip32.HDKey) []byte {
		b, _ := ref.B58Decode(k.ToString(network.MainNet))
		return b[:78]
	}
	prv := raw(hd)
	c1, _ := hd.Derive(0x80000001)
	pub := raw(c1.HDPublicKey())
	hdParse := func(in []byte) func(bool) {
		k, err := bip32.NewHDKeyFromString(string(in))
		errVal("NewHDKeyFromString", k != nil, err)
		if err != nil {
			return nil
		}
		return inspectHD(k)
	}
	add(parser31{name: "NewHDKeyFromString", text: true, slow: true, seeds: [][]byte{[]byte(ref.HDText(prv)), []byte(ref.HDText(pub))}, parse: hdParse})
	add(parser31{name: "NewHDKeyFromString of any payload", slow: true, seeds: [][]byte{prv, pub}, parse: hdParse, fix: func(p []byte) []byte { return []byte(ref.HDText(p)) }})
	add(parser31{name: "NewHDKey", slow: true, seeds: [][]byte{seq(1, 16), seq(1, 64)}, parse: func(in []byte) func(bool) {
		k := bip32.NewHDKey(in)
		if k == nil {
			return nil
		}
		return inspectHD(k)
	}})
	add(parser31{name: "DeriveByPath", text: true, slow: true, seeds: [][]byte{[]byte("m/0'/1/2147483647'"), []byte("m")}, parse: func(in []byte) func(bool) {
		k, err := hd.DeriveByPath(string(in))
		errVal("DeriveByPath", k != nil, err)
		k2, err2 := hd.HDPublicKey().DeriveByPath(string(in))
		errVal("DeriveByPath", k2 != nil, err2)
		if err != nil {
			return nil
		}
		return inspectHD(k)
	}})
	words, _ := bip39.NewMnemonic(make([]byte, 16))
	words24, _ := bip39.NewMnemonic(rep(0xff, 32))
	words12, _ := bip39.NewMnemonic(seq(1, 16))
	add(parser31{name: "mnemonics", text: true, seeds: [][]byte{[]byte(words), []byte(words12), []byte(words24)}, parse: func(in []byte) func(bool) {
		s := string(in)
		ok := bip39.IsMnemonicValid(s)
		e, err := bip39.EntropyFromMnemonic(s)
		errVal("EntropyFromMnemonic", e != nil, err)
		_, err2 := bip39.MnemonicToByteArray(s)
		_, err3 := bip39.MnemonicToByteArray(s, true)
		if err == nil {
			return func(deep bool) {
				use(bip39.NewMnemonic(e))
				if deep {
					use(bip39.NewSeedWithErrorChecking(s, "x"))
				}
			}
		}
		use(ok, err2, err3)
		return nil
	}})
	add(parser31{name: "NewMnemonic", seeds: [][]byte{make([]byte, 16), rep(0xff, 20), seq(1, 24), seq(1, 28), seq(1, 32)}, parse: func(in []byte) func(bool) {
		s, err := bip39.NewMnemonic(in)
		if err != nil {
			return nil
		}
		return func(bool) {
			use(bip39.IsMnemonicValid(s))
			use(bip39.EntropyFromMnemonic(s))
		}
	}})

	// messages: the stream, and every kind of payload
	magic := network.MainNet.Magic
	stream := func(in []byte) func(bool) {
		m, err := xprotocol.NewStream(&memConn{in: in, end: io.EOF}, magic).ReadMessage()
		errVal("ReadMessage", m != nil, err)
		if err != nil {
			return nil
		}
		return inspectMsg(m)
	}
	var frames [][]byte
	payloads := map[string][][]byte{}
	var cmds []string
	for _, p := range protoMsgs() {
		p := p
		frames = append(frames, p.frame(magic))
		c := p.cmd
		if payloads[c] == nil {
			cmds = append(cmds, c)
		}
		payloads[c] = append(payloads[c], p.payload)
	}
	payloads["tx"] = append(payloads["tx"], txs...)
	add(parser31{name: "Stream.ReadMessage", seeds: frames, parse: stream})
	for _, c := range cmds {
		c := c
		add(parser31{name: "payload of " + c, seeds: payloads[c], parse: stream, fix: func(b []byte) []byte {
			p := pMsg{cmd: c, payload: b}
			return p.frame(magic)
		}})
	}
	return ps
}

// counts31 are CompactSize encodings, minimal or not, of counts an attacker would try.
var counts31 = func() (o [][]byte) {
	for _, v := range []uint64{0, 1, 2, 3, 10, 100, 0xfc, 0xfd, 0xff, 0x100, 2000, 50000, 0xffff, 0x10000, 0x02000000, 0x01ffffff, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, 1<<32 + 1,
		1 << 40, 1 << 56, 1<<61 + 1, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 9, 1<<64 - 1} {
		o = append(o, ref.PutVarInt(nil, v))
		if v < 0xfd {
			o = append(o, []byte{0xfd, byte(v), 0})
		}
		if v < 0x10000 {
			o = append(o, ref.U32([]byte{0xfe}, uint32(v)))
		}
		o = append(o, ref.U64([]byte{0xff}, v))
	}
	return
}()

// big31 marks the counts tried for memory in the quick tier: one encoding each of the large ones.
var big31 = func() map[int]bool {
	m := map[int]bool{}
	for i, cs := range counts31 {
		v, n, _ := ref.GetVarInt(cs)
		if v >= 0xffff && (n == 9) == (v > 0xffffffff) || v == 0xfc && n == 1 {
			m[i] = true
		}
	}
	return m
}()

func c31(r *mc.Run) {
	r.Assume("memory: what one parse allocates in total is at most 192 KiB (the buffers of a stream; 8 MiB where the parser computes on the curve) and 512 bytes (64 KiB) for every byte of the input")
	ps := parsers31()
	run := func(p *parser31, in []byte, deep bool) bool {
		if p.fix != nil {
			in = p.fix(in)
		}
		f := p.parse(in)
		if f == nil {
			return false
		}
		f(deep)
		return true
	}

	// every short input
	r.Explore("all short inputs", mc.Opts{}, func(c *mc.Ctx) {
		p := &ps[c.Pick("parser", len(ps))]
		first := c.Pick("first byte", 257)
		if first == 256 {
			if run(p, []byte{}, true) {
				c.Valid(1)
			}
			if p.fix == nil {
				p.parse(nil)
			}
			c.Step(1)
			c.StateS(p.name)
			return
		}
		try := func(b []byte) {
			deep := len(b) == 1
			if run(p, b, deep) {
				c.Valid(1)
			}
			c.Step(1)
		}
		try([]byte{byte(first)})
		for i := 0; i < 256; i++ {
			if p.slow && (p.name == "NewHDKey" || p.name == "DeriveByPath") && i%16 != 0 && i%16 != 9 {
				continue
			}
			try([]byte{byte(first), byte(i)})
			if !r.Quick() && !p.slow {
				for j := 0; j < 256; j++ {
					try([]byte{byte(first), byte(i), byte(j)})
				}
			}
		}
		c.StateU(uint64(len(p.name)), uint64(first))
		c.StateS(fmt.Sprint(p.name, first))
	})

	// one change in a valid input
	bounds := []byte{0, 1, 2, 3, 4, 0x1f, 0x20, 0x30, 0x4b, 0x4c, 0x4d, 0x4e, 0x50, 0x60, 0x7f, 0x80, 0x81, 0xab, 0xac, 0xae, 0xfc, 0xfd, 0xfe, 0xff, ' ', '/', '\'', 'm', '0', 'O', 'l', 'z', '\n'}
	r.Explore("one change in a valid input", mc.Opts{}, func(c *mc.Ctx) {
		p := &ps[c.Pick("parser", len(ps))]
		si := c.Pick("seed", len(p.seeds))
		seed := p.seeds[si]
		off := c.Pick("offset", len(seed)+1)
		deepEvery := 1
		try := func(in []byte, deep bool) {
			if run(p, in, deep) {
				c.Valid(1)
				c.State(in)
			}
			c.Step(1)
		}
		if off == 0 && !run(p, clone(seed), true) && p.name != "mnemonics" && len(seed) > 0 {
			c.Outcome("seed refused: " + p.name)
		}
		// cut off, and one byte less or more
		try(clone(seed[:off]), true)
		try(cat(seed[:off], []byte{0}, seed[off:]), true)
		if off == len(seed) {
			for _, b := range bounds {
				try(cat(seed, []byte{b}), false)
			}
			try(cat(seed, seed), false)
			return
		}
		try(cat(seed[:off], seed[off+1:]), true)
		for v := 0; v < 256; v++ {
			in := clone(seed)
			if r.Quick() && p.slow && !(v^int(seed[off])&(v^int(seed[off])-1) == 0 || bytes.IndexByte(bounds, byte(v)) >= 0) {
				continue
			}
			in[off] = byte(v)
			deep := v%16 == int(seed[off])%16 || v == 0 || v == 255
			if r.Quick() && p.slow {
				deep = v == int(seed[off])^1 || v == 0 || v == 255
			}
			try(in, deep && deepEvery > 0)
		}
		if !p.text {
			for _, cs := range counts31 {
				try(cat(seed[:off], cs, seed[off+1:]), false)
			}
		}
	})

	// two changes: every pair of offsets x boundary values
	if !r.Quick() {
		r.Explore("two changes in a valid input", mc.Opts{}, func(c *mc.Ctx) {
			p := &ps[c.Pick("parser", len(ps))]
			if p.slow {
				c.Skip()
			}
			seed := p.seeds[c.Pick("seed", len(p.seeds))]
			if len(seed) < 2 {
				c.Skip()
			}
			off := c.Pick("offset", len(seed)-1)
			for o2 := off + 1; o2 < len(seed); o2++ {
				for _, v := range bounds[:24] {
					for _, w := range bounds[:24] {
						in := clone(seed)
						in[off], in[o2] = v, w
						if run(p, in, false) {
							c.Valid(1)
						}
						c.Step(1)
					}
				}
			}
			c.StateS(fmt.Sprint(p.name, hx(seed), off))
		})
	}

	// memory
	alloc := func(c *mc.Ctx, p *parser31, in []byte) {
		if p.fix != nil {
			in = p.fix(in)
		}
		var a, z runtime.MemStats
		runtime.ReadMemStats(&a)
		p.parse(in)
		runtime.ReadMemStats(&z)
		c.Step(1)
		got := z.TotalAlloc - a.TotalAlloc
		limit := 192<<10 + 512*uint64(len(in))
		if p.slow {
			limit += 8<<20 + 64<<10*uint64(len(in)) // multiplications on the curve
		}
		if got > limit {
			c.Fail("memory", "%s allocated %d bytes for an input of %d bytes: %s", p.name, got, len(in), hx(in))
		}
	}
	r.Explore("memory: counts and truncations", mc.Opts{Serial: true}, func(c *mc.Ctx) {
		p := &ps[c.Pick("parser", len(ps))]
		if p.text || p.nomem {
			c.Skip()
		}
		si := c.Pick("seed", len(p.seeds))
		seed := p.seeds[si]
		off := c.Pick("offset", len(seed)+1)
		if r.Quick() && si > 2 {
			c.Skip()
		}
		alloc(c, p, clone(seed[:off]))
		if off < len(seed) {
			for i, cs := range counts31 {
				if r.Quick() && !big31[i] {
					continue
				}
				alloc(c, p, cat(seed[:off], cs, seed[off+1:]))
				if !r.Quick() {
					alloc(c, p, cat(seed[:off], cs))
				}
			}
			if off+4 <= len(seed) { // fixed-width lengths
				for _, v := range []uint32{0x00ffffff, 0x01ffffff, 0x02000000, 0x7fffffff, 0xffffffff} {
					in := clone(seed)
					copy(in[off:], ref.U32(nil, v))
					alloc(c, p, in)
				}
			}
		}
		c.StateS(fmt.Sprint(p.name, hx(seed), off))
		c.Valid(1)
	})
	// inputs that repeat their smallest part many times
	long := r.Q(3000, 20000)
	r.Explore("memory: long inputs", mc.Opts{Serial: true, Timed: 120}, func(c *mc.Ctx) {
		p := &ps[c.Pick("parser", len(ps))]
		if p.nomem {
			c.Skip()
		}
		fill := []byte{0, 1, 0x4c, 0xff, '1', 'z', ' ', '/', 0x51, 'q', 3}[c.Pick("fill", 11)]
		head := c.Pick("head", len(p.seeds)+1)
		var in []byte
		if r.Quick() && (head > 1 && head < len(p.seeds) || p.slow && fill > 1) {
			c.Skip()
		}
		if head < len(p.seeds) {
			in = clone(p.seeds[head])
			in = in[:len(in)*c.Pick("kept", 3)/2]
		}
		n := long
		if p.text || p.fix != nil {
			n = 600
		}
		if p.slow {
			n = 200
		}
		in = append(in, rep(fill, n)...)
		alloc(c, p, in)
		run(p, in, false)
		c.StateS(fmt.Sprint(p.name, fill, head, len(in)))
		c.Valid(1)
	})
	// executing a script: memory in proportion to the instructions, whatever pile of items they make
	r.Explore("memory: executions", mc.Opts{Serial: true, Timed: 120}, func(c *mc.Ctx) {
		units := [][]byte{ins(0), ins(0x51), ins(2, 1, 2), pushBytes(rep(7, 75)), ins(0x61), ins(0x6e), ins(0x6f), ins(0x75), ins(0x76), ins(0x7c), ins(0x82), ins(0x87), ins(0x93), ins(0xa9), ins(0x63), ins(0x67), ins(0x68)}
		pre := [][]byte{nil, cat(ins(0x51), ins(0x52), ins(0x53), ins(0x54)), cat(pushBytes(rep(3, 520)), pushBytes(rep(4, 520)), pushBytes(rep(4, 520))), pushBytes(rep(1, 5000)), pushBytes(rep(1, 500000))}[c.Pick("first", 5)]

		var unit []byte
		k := 1 + c.Pick("instructions", r.Q(2, 3))
		for i := 0; i < k; i++ {
			unit = append(unit, units[c.Pick("op", len(units))]...)
		}
		n := r.Q(150, 1000)
		prog := cat(pre, bytes.Repeat(unit, n))
		limit := uint64(len(pre)*32 + 192<<10 + n*k*24<<10)
		for _, way := range []string{"Execute", "Verify, locking", "Verify, unlocking", "Verify, P2SH"} {
			e := stubEngine()
			var a, z runtime.MemStats
			runtime.ReadMemStats(&a)
			switch way {
			case "Execute":
				_ = e.Execute(prog)
			case "Verify, locking":
				_ = e.Verify(nil, prog)
			case "Verify, unlocking":
				_ = e.Verify(prog, ins(0x51))
			default:
				_ = e.Verify(pushBytes(prog), cat([]byte{0xa9, 20}, ref.Hash160(prog), []byte{0x87}))
			}
			runtime.ReadMemStats(&z)
			c.Step(1)
			if got := z.TotalAlloc - a.TotalAlloc; got > 2*limit {
				c.Fail("memory-execution", "%s of %s (%d bytes) and then %d times %x allocates %d bytes, more than %d an instruction", way, cut(hx(pre)), len(pre), n, unit, got, 2*limit/uint64(n*k))
			}
		}
		c.Valid(4)
		c.StateS(string(prog))
	})
}
