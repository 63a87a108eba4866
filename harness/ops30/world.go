// Package ops30 holds the operations that C30 runs alone, in pairs, and concurrently. Nothing in it uses the
// library before it is called: a process that only imports it has an untouched library.
package ops30

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/xprotocol"
)

// The parts of a world that are dear to make.
const (
	HD = 1 << iota
	Pai
)

const spare = 40

// World is a set of objects that operations only read. Its byte slices lie one after the other in one arena, and each
// has the rest of the arena as its capacity: whoever appends to one writes over its neighbours.
type World struct {
	arena []byte
	Prv   []*xcrypto.PrvKey
	Pub   []*xcrypto.PubKey
	Ser   [][]byte // compressed keys
	Unc   [][]byte // uncompressed keys
	Hash  []byte   // a message hash
	Msg   []byte   // a long message
	Sig   []byte   // DER signature of Hash by key 0
	SSig  []byte   // Schnorr signature of Hash by key 0
	Seed  []byte
	Tx    *xcore.Transaction // signed, 4 inputs of different kinds
	Ins   []*xcore.TxIn
	Outs  []*xcore.TxOut
	TxRaw []byte
	Code  []byte // a script
	Lock  [][]byte
	Redm  []byte
	H20   []byte
	H32   []byte
	Addr  []xcore.Address
	Coins []*xcore.Coin
	Text  []string // addresses, WIFs, ...
	HDPrv *bip32.HDKey
	HDPub *bip32.HDKey
	PPub  *paillier.PubKey
	PPrv  *paillier.PrvKey
	PCt   []*big.Int
	Small []*big.Int
	Scal  []*secp256k1.Scalar
	Leafs [][]byte
	Five  []byte // values below 32
	Net   *network.Network
	Msgs  []xprotocol.Message
	Raws  [][]byte // encodings of Msgs
	Ent   []byte
	Wit   [][]byte
	Signs []xcore.PubKeySign
	Pass  []byte
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// put carves a copy of b out of the arena.
func (w *World) put(b []byte) []byte {
	o := len(w.arena)
	if o+len(b)+spare > cap(w.arena) {
		panic("arena too small")
	}
	w.arena = append(w.arena, b...)
	w.arena = append(w.arena, bytes.Repeat([]byte{0xa5}, spare)...)
	return w.arena[o : o+len(b) : cap(w.arena)]
}

func (w *World) puth(s string) []byte { return w.put(unhex(s)) }

func (w *World) puts(v [][]byte) [][]byte {
	o := make([][]byte, len(v), len(v)+3)
	for i := range v {
		o[i] = w.put(v[i])
	}
	return o
}

func fill(b byte, n int) []byte {
	o := make([]byte, n)
	for i := range o {
		o[i] = b + byte(i)*7
	}
	return o
}

func push(b []byte) []byte { return append([]byte{byte(len(b))}, b...) }

func join(v ...[]byte) []byte { return bytes.Join(v, nil) }

// New makes a world with the given dear parts.
func New(need int) *World {
	w := &World{arena: make([]byte, 0, 1<<15)}
	curve := secp256k1.SECP256K1()
	for _, k := range keys {
		x, y := new(big.Int).SetBytes(unhex(k[1])), new(big.Int).SetBytes(unhex(k[2]))
		pub := &xcrypto.PubKey{Curve: curve, X: x, Y: y}
		prv := &xcrypto.PrvKey{D: new(big.Int).SetBytes(unhex(k[0]))}
		prv.PublicKey.Curve, prv.PublicKey.X, prv.PublicKey.Y = curve, new(big.Int).Set(x), new(big.Int).Set(y)
		w.Pub = append(w.Pub, pub)
		w.Prv = append(w.Prv, prv)
		par := byte(2)
		if y.Bit(0) == 1 {
			par = 3
		}
		w.Ser = append(w.Ser, w.put(join([]byte{par}, unhex(k[1]))))
		w.Unc = append(w.Unc, w.put(join([]byte{4}, unhex(k[1]), unhex(k[2]))))
		w.Scal = append(w.Scal, secp256k1.NewScalar(new(big.Int).Set(x), new(big.Int).Set(y)))
	}
	w.Hash = w.put(fill(0x31, 32))
	w.Msg = w.put(fill(0x11, 150))
	w.Sig = w.puth(sigHex)
	w.SSig = w.puth(ssigHex)
	w.Seed = w.put(fill(0x77, 32))
	w.H20 = w.put(fill(0x05, 20))
	w.H32 = w.put(fill(0x06, 32))
	w.Ent = w.put(fill(0x99, 16))
	w.Pass = w.put([]byte("a password"))
	five := make([]byte, 24)
	for i := range five {
		five[i] = byte(i*5) & 31
	}
	w.Five = w.put(five)
	for i := 0; i < 5; i++ {
		w.Leafs = append(w.Leafs, w.put(fill(byte(0x20+i), 32)))
	}
	w.Redm = w.put(join([]byte{0x52}, push(w.Ser[0]), push(w.Ser[1]), push(w.Ser[2]), []byte{0x53, 0xae}))
	w.Lock = w.puts([][]byte{
		join([]byte{0x76, 0xa9, 20}, w.H20, []byte{0x88, 0xac}),
		join([]byte{0xa9, 20}, w.H20, []byte{0x87}),
		join([]byte{0, 20}, w.H20),
		join([]byte{0, 32}, w.H32),
	})
	// 3 4 ADD 7 EQUALVERIFY <data> SHA256 HASH160 SIZE 20 EQUALVERIFY DUP DROP 1 IF 5 ELSE 6 ENDIF 5 NUMEQUAL NIP
	w.Code = w.put(join([]byte{0x53, 0x54, 0x93, 0x57, 0x88}, push(w.H32), []byte{0xa8, 0xa9, 0x82, 1, 20, 0x88, 0x76, 0x75, 0x51, 0x63, 0x55, 0x67, 0x56, 0x68, 0x55, 0x9c, 0x77}))
	w.Addr = []xcore.Address{
		xcore.NewPayToPubKeyHashAddress(w.put(fill(0x01, 20))),
		xcore.NewPayToScriptHashAddress(w.put(fill(0x02, 20))),
		xcore.NewPayToWitnessV0PubKeyHashAddress(w.put(fill(0x03, 20))),
		xcore.NewPayToWitnessV0ScriptHashAddress(w.put(fill(0x04, 32))),
	}
	n := *network.MainNet
	n.HDPrivateKeyID, n.HDPublicKeyID, n.Magic = w.put(n.HDPrivateKeyID), w.put(n.HDPublicKeyID), w.put(n.Magic)
	w.Net = &n

	w.Tx = xcore.NewTransaction()
	w.Tx.SetVersion(2)
	w.Tx.SetLockTime(77)
	for i, s := range spends {
		in, err := xcore.NewTxIn(w.put(fill(byte(0x40+i), 32)), uint32(i), s.value, w.puth(s.lock), w.redeem(s.redeem))
		if err != nil {
			panic(fmt.Sprintf("NewTxIn: %v", err))
		}
		in.RawUnlockingScript = w.redeem(s.unlock)
		for _, x := range s.wit {
			in.Witness = append(in.Witness, w.puth(x))
		}
		w.Tx.AddInput(in)
		w.Ins = append(w.Ins, in)
	}
	for i := range w.Lock {
		o := xcore.NewTxOut(uint64(1000+i), w.put(w.Lock[i]))
		w.Tx.AddOutput(o)
		w.Outs = append(w.Outs, o)
	}
	w.TxRaw = w.puth(txHex)
	w.Wit = w.puts([][]byte{unhex(spends[1].wit[0]), unhex(spends[1].wit[1])})
	w.Signs = []xcore.PubKeySign{{PubKey: w.put(w.Ser[0]), Signature: w.puth(sigHex + "01")}, {PubKey: w.put(w.Ser[1]), Signature: w.puth(sigHex + "01")}}
	cb := xcore.NewCoinBuilder()
	for i, s := range spends {
		cb.AddOutput(hex.EncodeToString(fill(byte(0x50+i), 32)), uint32(i), s.value, s.lock)
	}
	w.Coins = cb.ToCoins()
	w.Text = texts

	for _, v := range []int64{0, 1, 2, 41, 1000003} {
		w.Small = append(w.Small, big.NewInt(v))
	}
	inv, gd := xprotocol.NewMsgInv(), xprotocol.NewMsgGetData()
	inv.AddInvVect(xprotocol.NewInvVect(1, w.put(fill(1, 32))), xprotocol.NewInvVect(2, w.put(fill(2, 32))))
	gd.AddInvVect(xprotocol.NewInvVect(1, w.put(fill(3, 32))))
	gh := xprotocol.NewMsgGetHeaders(w.Net)
	gh.AddBlockLocatorHash(w.put(fill(4, 32)))
	gh.AddBlockLocatorHash(w.put(fill(5, 32)))
	hs := xprotocol.NewMsgHeaders()
	hs.AddBlockHeader(&xprotocol.BlockHeader{Version: 2, PrevBlock: w.put(fill(6, 32)), MerkleRoot: w.put(fill(7, 32)), Timestamp: 8, Bits: 9, Nonce: 10})
	ver := xprotocol.NewMsgVersion(w.Net)
	ver.Timestamp = 1234567
	w.Msgs = []xprotocol.Message{inv, gd, gh, hs, xprotocol.NewMsgPing(5), xprotocol.NewMsgPong(6), xprotocol.NewMsgVerAck(), xprotocol.NewMsgTx(w.put(w.TxRaw)), xprotocol.NewMsgReject("tx", 0x10, "why"), ver, xprotocol.NewMsgUnhandle("xyz")}
	for _, m := range rawMsgs {
		w.Raws = append(w.Raws, w.puth(m))
	}
	if need&HD != 0 {
		k, err := bip32.NewHDKeyFromString(xprv)
		if err != nil {
			panic(err)
		}
		w.HDPrv = k
		if w.HDPub, err = bip32.NewHDKeyFromString(xpub); err != nil {
			panic(err)
		}
	}
	if need&Pai != 0 {
		pub, prv, err := paillier.GenerateKeyPair(128)
		if err != nil {
			panic(err)
		}
		w.PPub, w.PPrv = pub, prv
		for _, v := range []int64{7, 12} {
			ct, err := pub.Encrypt(big.NewInt(v))
			if err != nil {
				panic(err)
			}
			w.PCt = append(w.PCt, ct)
		}
	}
	// What lies behind the last slice belongs to someone, too.
	w.arena = w.arena[:cap(w.arena)]
	return w
}

func (w *World) redeem(s string) []byte {
	if s == "" {
		return nil
	}
	return w.puth(s)
}

// Snapshot describes everything an operation must leave as it was, by the names of its parts.
func (w *World) Snapshot() [][2]string {
	var o [][2]string
	add := func(name string, v ...interface{}) { o = append(o, [2]string{name, Render(v)}) }
	add("bytes", w.arena)
	for i := range w.Prv {
		add("private key", w.Prv[i].D, w.Prv[i].PublicKey.X, w.Prv[i].PublicKey.Y)
		add("public key", w.Pub[i].X, w.Pub[i].Y)
		add("curve point", w.Scal[i].X, w.Scal[i].Y)
	}
	for _, in := range w.Ins {
		add("transaction input", in.Hash, in.Index, in.Value, in.Sequence, in.RedeemScript, in.Witness, in.WitnessScriptCode, in.RawLockingScript, in.FinalLockingScript, in.RawUnlockingScript)
	}
	for _, t := range w.Outs {
		add("transaction output", t.Value, t.Script)
	}
	if w.PPub != nil {
		add("Paillier key", w.PPub.G, w.PPub.N, w.PPub.NN)
		for _, c := range w.PCt {
			add("ciphertext", c)
		}
	}
	for _, s := range w.Small {
		add("number", s)
	}
	add("network", w.Net.HDPrivateKeyID, w.Net.HDPublicKeyID, w.Net.Magic, w.Net.Bech32HRPSegwit, w.Net.Port, w.Net.LastBlock, w.Net.ProtocolVersion, w.Net.UserAgent)
	for i, n := range []*network.Network{network.MainNet, network.TestNet} {
		add([]string{"MainNet", "TestNet"}[i], n.HDPrivateKeyID, n.HDPublicKeyID, n.Magic, n.Bech32HRPSegwit, n.Port, n.LastBlock, n.ProtocolVersion, n.UserAgent,
			n.PubKeyHashAddrID, n.ScriptHashAddrID, n.PrivateKeyID, n.WitnessPubKeyHashAddrID, n.WitnessScriptHashAddrID)
	}
	for _, s := range w.Signs {
		add("signature", s.PubKey, s.Signature)
	}
	for _, l := range [][][]byte{w.Leafs, w.Wit, w.Lock, w.Raws, w.Ser, w.Unc} {
		add("list", l)
	}
	p := secp256k1.SECP256K1().Params()
	add("curve", p.P, p.N, p.B, p.Gx, p.Gy, p.BitSize)
	return o
}

// Render shows results; what they hold is looked at now.
func Render(v []interface{}) string {
	var b bytes.Buffer
	for _, x := range v {
		switch t := x.(type) {
		case nil:
			b.WriteString("nil")
		case []byte:
			if t == nil {
				b.WriteString("nil")
			}
			b.WriteString(hex.EncodeToString(t))
		case [][]byte:
			for _, y := range t {
				b.WriteString("[" + hex.EncodeToString(y) + "]")
			}
		case *big.Int:
			if t == nil {
				b.WriteString("nil")
			} else {
				b.WriteString(t.Text(16))
			}
		case *xcrypto.PubKey:
			if t == nil {
				b.WriteString("nil")
			} else {
				b.WriteString(Render([]interface{}{t.X, t.Y}))
			}
		case *xcrypto.PrvKey:
			if t == nil {
				b.WriteString("nil")
			} else {
				b.WriteString(Render([]interface{}{t.D, t.PublicKey.X, t.PublicKey.Y}))
			}
		case *secp256k1.Scalar:
			if t == nil {
				b.WriteString("nil")
			} else {
				b.WriteString(Render([]interface{}{t.X, t.Y}))
			}
		case error:
			b.WriteString("error")
		default:
			fmt.Fprintf(&b, "%v", t)
		}
		b.WriteByte(' ')
	}
	return b.String()
}
