package ops30

import (
	"crypto/sha512"
	"fmt"
	"hash"
	"math/big"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/ecdsa"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
	"github.com/keyfuse/tokucore/xcrypto/ripemd160"
	"github.com/keyfuse/tokucore/xcrypto/schnorr"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/xprotocol"
	"github.com/keyfuse/tokucore/xvm"
)

// Op is an operation that may only read the world it is given.
type Op struct {
	Name string
	Need int
	Slow bool // takes curve operations
	Run  func(w *World) []interface{}
}

type res = []interface{}

// each collects a result for every input of the world's transaction.
func each(w *World, f func(i int) interface{}) res {
	var o res
	for i := range w.Ins {
		o = append(o, f(i))
	}
	return o
}

func newSHA512() hash.Hash { return sha512.New() }

// Ops are the operations.
var Ops = []Op{
	{"Transaction.Verify", 0, true, func(w *World) res { return res{w.Tx.Verify()} }},
	{"Transaction.ToString", 0, false, func(w *World) res { return res{w.Tx.ToString()} }},
	{"Transaction.Serialize", 0, false, func(w *World) res { return res{w.Tx.Serialize(), w.Tx.SerializeNoWitness()} }},
	{"Transaction.Hash, ID", 0, false, func(w *World) res {
		return res{w.Tx.Hash(), w.Tx.ID(), w.Tx.WitnessHash(), w.Tx.WitnessID()}
	}},
	{"Transaction.Size, Fees", 0, false, func(w *World) res {
		return res{w.Tx.Size(), w.Tx.BaseSize(), w.Tx.WitnessSize(), w.Tx.Weight(), w.Tx.Vsize(), w.Tx.Fees(), w.Tx.HasWitness(), xcore.EstimateSize(w.Ins, w.Outs)}
	}},
	{"Transaction.RawSignatureHash", 0, false, func(w *World) res {
		return each(w, func(i int) interface{} {
			var o [][]byte
			for _, t := range []xcore.SigHashType{1, 2, 3, 0x81, 0x82, 0x83} {
				o = append(o, w.Tx.RawSignatureHash(i, t))
			}
			return o
		})
	}},
	{"Transaction.WitnessV0SignatureHash", 0, false, func(w *World) res {
		return each(w, func(i int) interface{} {
			var o [][]byte
			for _, t := range []xcore.SigHashType{1, 2, 3, 0x81, 0x82, 0x83} {
				o = append(o, w.Tx.WitnessV0SignatureHash(i, t))
			}
			return o
		})
	}},
	{"Transaction.RawSignature", 0, true, func(w *World) res {
		s, err := another(w).RawSignature(0, 1, w.Prv[0])
		return res{s, err}
	}},
	{"Transaction.WitnessSignature", 0, true, func(w *World) res {
		s, err := another(w).WitnessSignature(1, 0x83, w.Prv[0])
		return res{s, err}
	}},
	{"Transaction.Deserialize", 0, false, func(w *World) res {
		t := xcore.NewTransaction()
		err := t.Deserialize(w.TxRaw)
		return res{err, t.Serialize(), t.ID(), t.ToString()}
	}},
	{"sign another transaction over the same scripts and keys", 0, true, func(w *World) res {
		t := another(w)
		e0 := t.SignIndex(0, true, 1, w.Prv[0])
		e1 := t.SignIndex(2, true, 1, w.Prv[0], w.Prv[1])
		return res{e0, e1, t.Serialize()}
	}},
	{"EmbedIdxSignature with the same signatures", 0, false, func(w *World) res {
		t := another(w)
		o := res{}
		for i := range w.Ins {
			if w.Ins[i].RedeemScript == nil {
				o = append(o, t.EmbedIdxSignature(i, w.Signs[:1]))
				o = append(o, t.EmbedIdxEcdsaSignature(i, w.Pub[0], w.Sig, 1))
			} else {
				o = append(o, t.EmbedIdxSignature(i, w.Signs))
			}
		}
		return append(o, t.Serialize())
	}},
	{"TransactionBuilder with the same coins, keys and addresses", 0, true, func(w *World) res {
		tx, err := xcore.NewTransactionBuilder().
			AddCoin(w.Coins[0]).AddKeys(w.Prv[0]).To(w.Addr[0], 1500).
			Then().AddCoin(w.Coins[2]).SetRedeemScript(w.Redm).AddKeys(w.Prv[0:2]...).To(w.Addr[3], 1200).
			SetChange(w.Addr[2]).AddPushData(w.Ent).SendFees(900).Sign().BuildTransaction()
		if err != nil {
			return res{err}
		}
		return res{tx.Serialize(), tx.ToString()}
	}},
	{"EcdsaSign", 0, true, func(w *World) res {
		s, err := xcrypto.EcdsaSign(w.Prv[0], w.Hash)
		return res{s, err}
	}},
	{"EcdsaVerify", 0, true, func(w *World) res {
		return res{xcrypto.EcdsaVerify(w.Pub[0], w.Hash, w.Sig), xcrypto.EcdsaVerify(w.Pub[1], w.Hash, w.Sig)}
	}},
	{"SchnorrSign", 0, true, func(w *World) res {
		s, err := xcrypto.SchnorrSign(w.Prv[0], w.Hash)
		return res{s, err}
	}},
	{"SchnorrVerify", 0, true, func(w *World) res {
		return res{xcrypto.SchnorrVerify(w.Pub[0], w.Hash, w.SSig), xcrypto.SchnorrVerify(w.Pub[1], w.Hash, w.SSig)}
	}},
	{"ecdsa.NonceRFC6979, HashToInt", 0, false, func(w *World) res {
		n := secp256k1.SECP256K1().Params().N
		return res{ecdsa.NonceRFC6979(n, w.Prv[0].D, w.Hash), ecdsa.HashToInt(w.Pub[0].Curve, w.Msg)}
	}},
	{"schnorr.GetE, GetK, GetK0, IntToByte", 0, false, func(w *World) res {
		n := secp256k1.SECP256K1().Params().N
		k0, err := schnorr.GetK0(w.Hash, w.H32, n)
		return res{k0, err, schnorr.GetE(w.Pub[0].Curve, w.Hash, w.Pub[0].X, w.Pub[0].Y, w.H32), schnorr.GetK(w.Pub[0].Curve, w.Pub[0].Y, w.Prv[0].D), schnorr.IntToByte(w.Small[3])}
	}},
	{"SignatureEcdsa", 0, false, func(w *World) res {
		s := xcrypto.NewSignatureEcdsa()
		err := s.Deserialize(w.Sig)
		b, e2 := s.Serialize()
		return res{err, b, e2, s.R, s.S}
	}},
	{"SignatureSchnorr", 0, false, func(w *World) res {
		s := xcrypto.NewSignatureSchnorr()
		err := s.Deserialize(w.SSig)
		b, e2 := s.Serialize()
		return res{err, b, e2, s.R, s.S}
	}},
	{"PrvKey.PubKey, Add, Serialize", 0, true, func(w *World) res {
		return res{w.Prv[0].PubKey(), w.Prv[0].Add(w.H32), w.Prv[0].Serialize(), w.Prv[1].Serialize()}
	}},
	{"PrvKeyFromBytes", 0, true, func(w *World) res { return res{xcrypto.PrvKeyFromBytes(w.Seed)} }},
	{"PubKeyFromBytes", 0, false, func(w *World) res {
		a, e := xcrypto.PubKeyFromBytes(w.Ser[0])
		b, e2 := xcrypto.PubKeyFromBytes(w.Unc[1])
		return res{a, e, b, e2}
	}},
	{"PubKey.Add, Serialize, Hash160", 0, false, func(w *World) res {
		p := w.Pub[0]
		return res{p.Add(w.Pub[1]), p.Add(p), p.Serialize(), p.SerializeCompressed(), p.SerializeUncompressed(), p.SerializeHybrid(), p.Hash160(), p.XBytes(), p.YBytes()}
	}},
	{"curve Add, Double, IsOnCurve, SEC", 0, false, func(w *World) res {
		c := secp256k1.SECP256K1()
		x, y := c.Add(w.Pub[0].X, w.Pub[0].Y, w.Pub[1].X, w.Pub[1].Y)
		dx, dy := c.Double(w.Pub[0].X, w.Pub[0].Y)
		zx, zy := c.Add(w.Pub[0].X, w.Pub[0].Y, w.Small[0], w.Small[0])
		ux, uy := secp256k1.SecUnmarshal(c, w.Ser[2])
		return res{x, y, dx, dy, zx, zy, c.IsOnCurve(w.Pub[0].X, w.Pub[0].Y), secp256k1.SecMarshal(c, w.Pub[0].X, w.Pub[0].Y), ux, uy, w.Scal[0].Add(c, w.Scal[1]), w.Scal[0].Add(c, w.Scal[0])}
	}},
	{"curve ScalarMult, ScalarBaseMult", 0, true, func(w *World) res {
		c := secp256k1.SECP256K1()
		x, y := c.ScalarMult(w.Pub[0].X, w.Pub[0].Y, w.H32)
		bx, by := c.ScalarBaseMult(w.H32)
		ox, oy := c.ScalarMult(w.Pub[0].X, w.Pub[0].Y, w.Five[:1])
		return res{x, y, bx, by, ox, oy}
	}},
	{"HDKey.Derive", HD, true, func(w *World) res {
		a, e := w.HDPrv.Derive(0x80000001)
		b, e2 := w.HDPub.Derive(5)
		if e != nil || e2 != nil {
			return res{e, e2}
		}
		return res{a.ToString(w.Net), b.ToString(w.Net)}
	}},
	{"HDKey.DeriveByPath", HD, true, func(w *World) res {
		a, e := w.HDPrv.DeriveByPath("m/1'/2")
		if e != nil {
			return res{e}
		}
		return res{a.ToString(network.TestNet)}
	}},
	{"HDKey.ToString, PublicKey, PrivateKey, HDPublicKey", HD, false, func(w *World) res {
		return res{w.HDPrv.ToString(w.Net), w.HDPub.ToString(w.Net), w.HDPrv.PublicKey(), w.HDPrv.PrivateKey(), w.HDPub.PublicKey(), w.HDPrv.HDPublicKey().ToString(w.Net)}
	}},
	{"NewHDKey", 0, true, func(w *World) res { return res{bip32.NewHDKey(w.Seed).ToString(w.Net)} }},
	{"NewHDKeyFromString", 0, true, func(w *World) res {
		a, e := bip32.NewHDKeyFromString(xprv)
		b, e2 := bip32.NewHDKeyFromString(xpub)
		if e != nil || e2 != nil {
			return res{e, e2}
		}
		return res{a.ToString(w.Net), b.ToString(w.Net)}
	}},
	{"NewHDKeyRand, NewEntropy", 0, true, func(w *World) res {
		k, e := bip32.NewHDKeyRand()
		n, e2 := bip39.NewEntropy(128)
		return res{e, e2, len(n), k != nil}
	}},
	{"Address.ToString, LockingScript", 0, false, func(w *World) res {
		var o res
		for _, a := range w.Addr {
			l, e := a.LockingScript()
			o = append(o, a.ToString(w.Net), a.ToString(network.TestNet), a.Hash160(), l, e)
		}
		return o
	}},
	{"DecodeAddress", 0, false, func(w *World) res {
		var o res
		for _, t := range w.Text {
			a, e := xcore.DecodeAddress(t, w.Net)
			if e != nil {
				o = append(o, e)
				continue
			}
			o = append(o, fmt.Sprintf("%T", a), a.Hash160())
		}
		return o
	}},
	{"ParseLockingScript and the script's parts", 0, false, func(w *World) res {
		var o res
		for i := range w.Lock {
			s, e := xcore.ParseLockingScript(w.Lock[i])
			if e != nil {
				o = append(o, e)
				continue
			}
			a, e1 := s.GetRawLockingScriptBytes()
			b, e2 := s.GetFinalLockingScriptBytes(w.Redm)
			c, e3 := s.GetWitnessScriptCode(w.Redm)
			d, e4 := s.GetRawUnlockingScriptBytes(w.Signs, w.Redm)
			f, e5 := s.GetWitnessUnlockingScriptBytes(w.Signs, w.Redm)
			g, e6 := s.WitnessToUnlockingScriptBytes(w.Wit)
			o = append(o, a, e1, b, e2, c, e3, d, e4, f, e5, g, e6, s.GetAddress().ToString(w.Net), int(s.GetScriptVersion()))
		}
		return o
	}},
	{"multisig scripts", 0, false, func(w *World) res {
		s := xcore.NewPayToMultiSigScript(2, w.Ser...)
		l, e := s.GetLockingScriptBytes()
		h, e2 := s.Hash160()
		g, e3 := s.Sha256()
		m, e4 := xcore.GenMultiSigScript(1, w.Ser...)
		return res{l, e, h, e2, g, e3, m, e4}
	}},
	{"new scripts from hashes", 0, false, func(w *World) res {
		var o res
		for _, s := range []xcore.Script{xcore.NewPayToPubKeyHashScript(w.H20), xcore.NewPayToScriptHashScript(w.H20), xcore.NewPayToWitnessV0PubKeyHashScript(w.H20), xcore.NewPayToWitnessV0ScriptHashScript(w.H32)} {
			l, e := s.GetRawLockingScriptBytes()
			o = append(o, l, e)
		}
		return o
	}},
	{"DisasmString", 0, false, func(w *World) res {
		var o res
		for _, s := range append([][]byte{w.Code, w.Redm}, w.Lock...) {
			o = append(o, xvm.DisasmString(s))
		}
		return o
	}},
	{"ScriptReader", 0, false, func(w *World) res {
		var o res
		for _, s := range [][]byte{w.Code, w.Redm} {
			is, e := xvm.NewScriptReader(s).AllInstructions()
			o = append(o, e)
			for i := range is {
				o = append(o, is[i].OpCode(), is[i].Data())
			}
		}
		return o
	}},
	{"Engine.Execute", 0, false, func(w *World) res {
		e := xvm.NewEngine()
		e.EnableDebug()
		err := e.Execute(w.Code)
		return res{err, len(e.Traces())}
	}},
	{"Engine.Verify", 0, false, func(w *World) res {
		e := xvm.NewEngine()
		e.SetSigHashFn(func(byte) ([]byte, error) { return w.Hash, nil })
		e.SetSigVerifyFn(func(p, h, s []byte) error {
			if len(p) == 33 && len(h) == 32 {
				return nil
			}
			return fmt.Errorf("bad")
		})
		unlock := append([]byte{0}, append(push(w.Signs[0].Signature), push(w.Signs[1].Signature)...)...)
		return res{e.Verify(unlock, w.Redm)}
	}},
	{"ScriptBuilder", 0, false, func(w *World) res {
		b := xvm.NewScriptBuilder().AddOp(0x76).AddData(w.H20).AddInt64(1000).AddData(w.Msg)
		s, e := b.Script()
		h, e2 := b.Hash160()
		l, e3 := xvm.NewScriptBuilder().Load("OP_DUP OP_HASH160 'aabb' OP_EQUALVERIFY 0x51 5").Script()
		return res{s, e, h, e2, l, e3}
	}},
	{"Stack, ScriptNum, RemoveOpcode", 0, false, func(w *World) res {
		st := xvm.NewStack()
		st.PushByteArray(w.H20)
		st.PushByteArray(w.H32)
		st.DupN(2)
		st.SwapN(2)
		cp := st.Copy()
		a, e := st.PopByteArray()
		n, e2 := xvm.MakeScriptNum(w.Ent[:4], 4)
		cp.PushInt(n)
		return res{a, e, int64(n), e2, cp.String(), n.Bytes(), xvm.RemoveOpcode(w.Redm, 0xab), xvm.RemoveOpcode(w.Code, 0x55)}
	}},
	{"Base58", 0, false, func(w *World) res {
		s := xbase.Base58CheckEncode(w.H20, 5)
		d, v, e := xbase.Base58CheckDecode(w.Text[0])
		return res{s, d, v, e, xbase.Base58Encode(w.Msg), xbase.Base58Decode("1Ldp")}
	}},
	{"Bech32Encode", 0, false, func(w *World) res {
		s, e := xbase.Bech32Encode("bc", w.Five)
		return res{s, e}
	}},
	{"WitnessEncode", 0, false, func(w *World) res {
		s, e := xbase.WitnessEncode("bc", 0, w.H20)
		t, e2 := xbase.WitnessEncode("tb", 0, w.H32)
		return res{s, e, t, e2}
	}},
	{"Bech32Decode, WitnessDecode", 0, false, func(w *World) res {
		h, d, e := xbase.Bech32Decode(w.Text[2])
		h2, v, p, e2 := xbase.WitnessDecode(w.Text[3])
		return res{h, d, e, h2, v, p, e2}
	}},
	{"Buffer", 0, false, func(w *World) res {
		b := xbase.NewBuffer()
		b.WriteVarBytes(w.Msg)
		b.WriteU16(0x0102)
		b.WriteU32(0x01020304)
		b.WriteU64(5)
		b.WriteVarInt(70000)
		b.WriteBytes(w.H20)
		r := xbase.NewBufferReader(w.Raws[0])
		n, e := r.ReadVarInt()
		t, e2 := r.ReadU32()
		h, e3 := r.ReadBytes(32)
		return res{b.Bytes(), n, e, t, e2, h, e3, r.Remaining(), xbase.VarIntSerializeSize(300)}
	}},
	{"NewIDToString, NewIDFromString", 0, false, func(w *World) res {
		s := xbase.NewIDToString(w.H32)
		b, e := xbase.NewIDFromString(s)
		return res{s, b, e}
	}},
	{"mnemonic of entropy and back", 0, false, func(w *World) res {
		m, e := bip39.NewMnemonic(w.Ent)
		b, e2 := bip39.EntropyFromMnemonic(mnemonic)
		c, e3 := bip39.MnemonicToByteArray(mnemonic)
		i, ok := bip39.GetWordIndex("zoo")
		return res{m, e, b, e2, c, e3, bip39.IsMnemonicValid(mnemonic), i, ok, len(bip39.GetWordList())}
	}},
	{"mnemonic seed", 0, false, func(w *World) res {
		s, e := bip39.NewSeedWithErrorChecking(mnemonic, "pw")
		return res{s, e}
	}},
	{"Paillier Encrypt and Decrypt", Pai, false, func(w *World) res {
		c, e := w.PPub.Encrypt(w.Small[3])
		if e != nil {
			return res{e}
		}
		m, e2 := w.PPrv.Decrypt(c)
		n, e3 := w.PPrv.Decrypt(w.PCt[0])
		_, e4 := w.PPub.Encrypt(w.PPub.N)
		return res{m, e2, n, e3, e4}
	}},
	{"Paillier operations", Pai, false, func(w *World) res {
		var o res
		dec := func(c *big.Int, e error) {
			if e != nil {
				o = append(o, e)
				return
			}
			m, e := w.PPrv.Decrypt(c)
			o = append(o, m, e)
		}
		dec(w.PPub.Add(w.PCt[0], w.PCt[1]))
		dec(w.PPub.Sub(w.PCt[1], w.PCt[0]), nil)
		dec(w.PPub.AddPlaintext(w.PCt[0], w.Small[3]))
		dec(w.PPub.MultPlaintext(w.PCt[0], w.Small[3]))
		dec(w.PPub.DivPlaintext(w.PCt[1], w.Small[2]))
		return o
	}},
	{"Paillier GenerateKeyPair", 0, false, func(w *World) res {
		p, s, e := paillier.GenerateKeyPair(128)
		if e != nil {
			return res{e}
		}
		c, e := p.Encrypt(w.Small[3])
		if e != nil {
			return res{e}
		}
		m, e := s.Decrypt(c)
		return res{m, e}
	}},
	{"Merkle", 0, false, func(w *World) res {
		m := xcrypto.NewMerkle(w.Leafs)
		p := m.Proofs(w.Leafs[2])
		return res{m.Root(), len(p), m.Verify(w.Leafs[2], m.Root(), p), m.Verify(w.Leafs[1], m.Root(), p)}
	}},
	{"hashes", 0, false, func(w *World) res {
		h := ripemd160.New()
		h.Write(w.Msg[:70])
		a := h.Sum(w.H20[:20:20])
		h.Write(w.Msg[70:])
		return res{xcrypto.Sha256(w.Msg), xcrypto.DoubleSha256(w.Msg), xcrypto.Hash160(w.Msg), xcrypto.Ripemd160(w.Msg), a[20:], h.Sum(nil), xcrypto.BytesToBigInt(w.H32)}
	}},
	{"pbkdf2", 0, false, func(w *World) res {
		return res{pbkdf2.Key(w.Pass, w.Ent, 3, 70, newSHA512)}
	}},
	{"Message.Encode, Size", 0, false, func(w *World) res {
		var o res
		for _, m := range w.Msgs {
			o = append(o, m.Command(), m.Size(), m.Encode())
		}
		return o
	}},
	{"Message.Decode", 0, false, func(w *World) res {
		var o res
		for i, m := range []xprotocol.Message{xprotocol.NewMsgInv(), xprotocol.NewMsgGetData(), xprotocol.NewMsgGetHeaders(w.Net), xprotocol.NewMsgHeaders(), xprotocol.NewMsgPing(0), xprotocol.NewMsgPong(0), xprotocol.NewMsgVerAck(), xprotocol.NewMsgTx(nil), xprotocol.NewMsgReject("", 0, ""), xprotocol.NewMsgVersion(w.Net), xprotocol.NewMsgUnhandle("x")} {
			o = append(o, m.Decode(w.Raws[i]), m.Encode(), m.Size())
		}
		return o
	}},
	{"BlockHeader, InvVect", 0, false, func(w *World) res {
		h := &xprotocol.BlockHeader{Version: 1, PrevBlock: w.H32, MerkleRoot: w.Hash, Timestamp: 3, Bits: 4, Nonce: 5}
		v := xprotocol.NewInvVect(2, w.H32)
		return res{h.BlockHash(), h.Size(), v.Size(), v.Type.String()}
	}},
	{"messages added to new lists", 0, false, func(w *World) res {
		i, g := xprotocol.NewMsgInv(), xprotocol.NewMsgGetHeaders(w.Net)
		e := i.AddInvVect(xprotocol.NewInvVect(1, w.H32))
		e2 := g.AddBlockLocatorHash(w.Hash)
		return res{e, e2, i.Encode(), g.Encode()}
	}},
	{"Schnorr two parties", 0, true, func(w *World) res {
		a, e := xcrypto.NewSchnorrParty(w.Prv[0])
		b, e2 := xcrypto.NewSchnorrParty(w.Prv[1])
		if e != nil || e2 != nil {
			return res{e, e2}
		}
		p, q := a.Phase1(w.Pub[1]), b.Phase1(w.Pub[0])
		r1, r2 := a.Phase2(w.Hash), b.Phase2(w.Hash)
		s1, s2 := a.Phase3(r2), b.Phase3(r1)
		g1, e := a.Phase4(p, s1)
		g2, e2 := b.Phase4(q, s2)
		f1, e3 := a.Phase5(s1, g1, g2)
		f2, e4 := b.Phase5(s2, g1, g2)
		return res{e, e2, f1, e3, f2, e4}
	}},
	{"errors", 0, false, func(w *World) res {
		t := xcore.NewTransaction()
		e := t.Deserialize(w.TxRaw[:20])
		_, e2 := xcore.DecodeAddress("nonsense", w.Net)
		_, e3 := xcore.ParseLockingScript(w.Msg)
		e4 := xvm.NewEngine().Execute(w.Five)
		e5 := w.Tx.SignIndex(99, true, 1, w.Prv[0])
		return res{fmt.Sprint(e), fmt.Sprint(e2), fmt.Sprint(e3), fmt.Sprint(e4), fmt.Sprint(e5), fmt.Sprintf("%v", e5) != ""}
	}},
}

// another makes an unsigned transaction of its own over the world's scripts and hashes. (Signing writes to the inputs of
// the transaction it is called on.)
func another(w *World) *xcore.Transaction {
	t := xcore.NewTransaction()
	for _, in := range w.Ins {
		x, err := xcore.NewTxIn(in.Hash, in.Index, in.Value, in.RawLockingScript, in.RedeemScript)
		if err != nil {
			panic(err)
		}
		t.AddInput(x)
	}
	for _, o := range w.Outs {
		t.AddOutput(xcore.NewTxOut(o.Value, o.Script))
	}
	return t
}

// Find returns the operation with that name.
func Find(name string) *Op {
	for i := range Ops {
		if Ops[i].Name == name {
			return &Ops[i]
		}
	}
	return nil
}
