package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"time"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xprotocol"
	"verif/ref"
)

func fill(b byte, n int) []byte {
	o := make([]byte, n)
	for i := range o {
		o[i] = b + byte(i)*7
	}
	return o
}
func h(b []byte) string    { return hex.EncodeToString(b) }
func push(b []byte) []byte { return append([]byte{byte(len(b))}, b...) }
func must(e error) {
	if e != nil {
		panic(e)
	}
}

func main() {
	_ = time.Now
	fmt.Println("package ops30\n\n// Written once by a generator from fixed keys; the signatures are valid.\n")
	var prv []*xcrypto.PrvKey
	var ser [][]byte
	fmt.Println("var keys = [][3]string{")
	for _, b := range []byte{0x12, 0x55, 0x03} {
		p := xcrypto.PrvKeyFromBytes(fill(b, 32))
		prv = append(prv, p)
		ser = append(ser, p.PubKey().SerializeCompressed())
		fmt.Printf("\t{%q, %q, %q},\n", h(p.Serialize()), h(ref.B32(p.PublicKey.X)), h(ref.B32(p.PublicKey.Y)))
	}
	fmt.Println("}\n")
	redeem := append([]byte{0x52}, push(ser[0])...)
	redeem = append(redeem, push(ser[1])...)
	redeem = append(redeem, push(ser[2])...)
	redeem = append(redeem, 0x53, 0xae)
	h160 := ref.Hash160(ser[0])
	locks := [][]byte{
		append(append([]byte{0x76, 0xa9, 20}, h160...), 0x88, 0xac),
		append([]byte{0, 20}, h160...),
		append(append([]byte{0xa9, 20}, ref.Hash160(redeem)...), 0x87),
		append([]byte{0, 32}, ref.Sha256(redeem)...),
	}
	H20, H32 := fill(5, 20), fill(6, 32)
	outs := [][]byte{
		append(append([]byte{0x76, 0xa9, 20}, H20...), 0x88, 0xac),
		append(append([]byte{0xa9, 20}, H20...), 0x87),
		append([]byte{0, 20}, H20...),
		append([]byte{0, 32}, H32...),
	}
	tx := xcore.NewTransaction()
	tx.SetVersion(2)
	tx.SetLockTime(77)
	var ins []*xcore.TxIn
	for i, l := range locks {
		var r []byte
		if i >= 2 {
			r = redeem
		}
		in, err := xcore.NewTxIn(fill(byte(0x40+i), 32), uint32(i), uint64(5000+i), l, r)
		must(err)
		tx.AddInput(in)
		ins = append(ins, in)
	}
	for i, o := range outs {
		tx.AddOutput(xcore.NewTxOut(uint64(1000+i), o))
	}
	for i := range ins {
		if i >= 2 {
			must(tx.SignIndex(i, true, 1, prv[0], prv[1]))
		} else {
			must(tx.SignIndex(i, true, 1, prv[0]))
		}
	}
	must(tx.Verify())
	fmt.Println("type spend struct {\n\tvalue uint64\n\tlock, redeem, unlock string\n\twit []string\n}\n\nvar spends = []spend{")
	for i, in := range ins {
		fmt.Printf("\t{%d, %q, %q, %q, []string{", in.Value, h(locks[i]), h(in.RedeemScript), h(in.RawUnlockingScript))
		for _, w := range in.Witness {
			fmt.Printf("%q, ", h(w))
		}
		fmt.Println("}},")
	}
	fmt.Println("}\n")
	hash := fill(0x31, 32)
	s, err := xcrypto.EcdsaSign(prv[0], hash)
	must(err)
	ss, err := xcrypto.SchnorrSign(prv[0], hash)
	must(err)
	k := bip32.NewHDKey(fill(0x61, 32))
	m, err := bip39.NewMnemonic(fill(0x21, 16))
	must(err)
	fmt.Println("const (")
	fmt.Printf("\tsigHex = %q\n\tssigHex = %q\n\ttxHex = %q\n\txprv = %q\n\txpub = %q\n\tmnemonic = %q\n)\n\n", h(s), h(ss), h(tx.Serialize()), k.ToString(network.MainNet), k.HDPublicKey().ToString(network.MainNet), m)
	fmt.Println("var texts = []string{")
	for i, a := range []xcore.Address{xcore.NewPayToPubKeyHashAddress(fill(1, 20)), xcore.NewPayToScriptHashAddress(fill(2, 20)), xcore.NewPayToWitnessV0PubKeyHashAddress(fill(3, 20)), xcore.NewPayToWitnessV0ScriptHashAddress(fill(4, 32))} {
		_ = i
		fmt.Printf("\t%q,\n", a.ToString(network.MainNet))
	}
	fmt.Println("}\n\n// rawMsgs are the payloads of the world's messages.\nvar rawMsgs = []string{")
	inv, gd := xprotocol.NewMsgInv(), xprotocol.NewMsgGetData()
	inv.AddInvVect(xprotocol.NewInvVect(1, fill(1, 32)), xprotocol.NewInvVect(2, fill(2, 32)))
	gd.AddInvVect(xprotocol.NewInvVect(1, fill(3, 32)))
	gh := xprotocol.NewMsgGetHeaders(network.MainNet)
	gh.AddBlockLocatorHash(fill(4, 32))
	hs := xprotocol.NewMsgHeaders()
	hs.AddBlockHeader(&xprotocol.BlockHeader{Version: 2, PrevBlock: fill(6, 32), MerkleRoot: fill(7, 32), Timestamp: 8, Bits: 9, Nonce: 10})
	ver := xprotocol.NewMsgVersion(network.MainNet)
	ver.Timestamp = 1234567
	for _, m := range []xprotocol.Message{inv, gd, gh, hs, xprotocol.NewMsgPing(5), xprotocol.NewMsgPong(6), xprotocol.NewMsgVerAck(), xprotocol.NewMsgTx(tx.Serialize()), xprotocol.NewMsgReject("tx", 0x10, "why"), ver, xprotocol.NewMsgUnhandle("xyz")} {
		fmt.Printf("\t%q,\n", h(m.Encode()))
	}
	fmt.Println("}")
	_ = big.NewInt
}
