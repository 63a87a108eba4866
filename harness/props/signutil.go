package props

import (
	"fmt"
	"math/big"

	"verif/ref"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
)

var sigHashTypes = []xcore.SigHashType{1, 2, 3, 0x81, 0x82, 0x83}

var curveN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

// testKeys are private keys at the ends of the range, and in between.
var testKeys = func() []*xcrypto.PrvKey {
	var o []*xcrypto.PrvKey
	for _, d := range []*big.Int{
		big.NewInt(1),
		new(big.Int).Sub(curveN, big.NewInt(1)),
		big.NewInt(0x1234567),
		new(big.Int).SetBytes(seq(0x40, 32)),
		new(big.Int).SetBytes(rep(0x7f, 32)),
		new(big.Int).Rsh(curveN, 1),
		big.NewInt(2),
		new(big.Int).SetBytes(seq(0x90, 31)),
	} {
		o = append(o, xcrypto.PrvKeyFromBytes(d.Bytes()))
	}
	return o
}()

// spendKind is a kind of output being spent.
type spendKind struct {
	name         string
	kind         int // kPKH...
	uncompressed bool
	witness      bool
	m, n         int // multisig (0,0: single key)
}

var spendKinds = func() []spendKind {
	return []spendKind{
		{"P2PKH", kPKH, false, false, 0, 0},
		{"P2PKH-uncompressed", kPKH, true, false, 0, 0},
		{"P2WPKH", kWPKH, false, true, 0, 0},
		{"P2SH 1-of-1", kSH, false, false, 1, 1},
		{"P2SH 2-of-3", kSH, false, false, 2, 3},
		{"P2WSH 1-of-2", kWSH, false, true, 1, 2},
		{"P2WSH 2-of-2", kWSH, false, true, 2, 2},
	}
}()

// spendIn is one input of a spendTx.
type spendIn struct {
	spendKind
	keys           []*xcrypto.PrvKey // all keys (multisig) or the one
	locking        []byte
	redeem         []byte
	code           []byte // script code for the signature hash
	value          uint64
	in             *xcore.TxIn
	notCompressed  bool
	redeemKeyBytes [][]byte
}

// spendTx is a real transaction under construction that spends outputs of chosen kinds.
type spendTx struct {
	tx    *xcore.Transaction
	kinds []*spendIn
	outs  []*xcore.TxOut
	ver   uint32
	lock  uint32
}

func newSpendTx() *spendTx {
	s := &spendTx{tx: xcore.NewTransaction(), ver: 2, lock: 0x01020304}
	s.tx.SetVersion(s.ver)
	s.tx.SetLockTime(s.lock)
	return s
}

func pushBytes(b []byte) []byte {
	n := len(b)
	switch {
	case n < 76:
		return cat([]byte{byte(n)}, b)
	case n < 256:
		return cat([]byte{0x4c, byte(n)}, b)
	}
	if n < 65536 {
		return cat([]byte{0x4d, byte(n), byte(n >> 8)}, b)
	}
	return cat([]byte{0x4e, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, b)
}

// multisigScript is the reference m-of-n script.
func multisigScript(m int, keys [][]byte) []byte {
	s := pushCount(m)
	for _, k := range keys {
		s = append(s, pushBytes(k)...)
	}
	return append(append(s, pushCount(len(keys))...), 0xae)
}

func pkhCode(h []byte) []byte { return cat([]byte{0x76, 0xa9, 20}, h, []byte{0x88, 0xac}) }

// mkSpend prepares what input number i of the given kind spends.
func mkSpend(i int, k spendKind) *spendIn {
	s := &spendIn{spendKind: k, value: 100000*uint64(i+1) + 7}
	ser := func(p *xcrypto.PrvKey) []byte {
		if k.uncompressed {
			return p.PubKey().SerializeUncompressed()
		}
		return p.PubKey().SerializeCompressed()
	}
	if k.n == 0 {
		s.keys = testKeys[i%len(testKeys) : i%len(testKeys)+1]
		h := ref.Hash160(ser(s.keys[0]))
		s.locking = refLocking(k.kind, h)
		s.code = pkhCode(h)
		return s
	}
	for j := 0; j < k.n; j++ {
		p := testKeys[(i+j)%len(testKeys)]
		if j >= len(testKeys) {
			p = xcrypto.PrvKeyFromBytes([]byte{0x33, byte(i), byte(j)})
		}
		s.keys = append(s.keys, p)
		s.redeemKeyBytes = append(s.redeemKeyBytes, ser(p))
	}
	s.redeem = multisigScript(k.m, s.redeemKeyBytes)
	s.code = s.redeem
	if k.kind == kWSH {
		s.locking = refLocking(kWSH, ref.Sha256(s.redeem))
	} else {
		s.locking = refLocking(kSH, ref.Hash160(s.redeem))
	}
	return s
}

func (s *spendTx) add(k spendKind) *spendIn {
	i := len(s.kinds)
	sp := mkSpend(i, k)
	s.addSpend(sp)
	return sp
}

func (s *spendTx) addSpend(sp *spendIn) {
	i := len(s.kinds)
	in, err := xcore.NewTxIn(seq(byte(0x21*i+1), 32), uint32(i), sp.value, clone(sp.locking), cloneN(sp.redeem))
	if err != nil {
		panic(fmt.Sprintf("NewTxIn(%s): %v", sp.name, err))
	}
	in.Sequence = []uint32{0xfffffff0, 0, 0xffffffff, 0x80000001}[i%4]
	sp.in = in
	s.tx.AddInput(in)
	s.kinds = append(s.kinds, sp)
}

func cloneN(b []byte) []byte {
	if b == nil {
		return nil
	}
	return clone(b)
}

func (s *spendTx) outputs(n int) {
	for i := 0; i < n; i++ {
		o := xcore.NewTxOut(1000*uint64(i)+50, refLocking(i%4, rep(byte(i+1), kindLen(i%4))))
		s.outs = append(s.outs, o)
		s.tx.AddOutput(o)
	}
}

// model is the wire model of the current content of the transaction.
func (s *spendTx) model() *ref.Tx {
	m := &ref.Tx{Ver: s.ver, Lock: s.lock}
	for _, k := range s.kinds {
		in := ref.TxIn{Hash: clone(k.in.Hash), Index: k.in.Index, Seq: k.in.Sequence}
		if !k.witness {
			in.Script = clone(k.in.RawUnlockingScript)
		}
		for _, w := range k.in.Witness {
			in.Wit = append(in.Wit, clone(w))
		}
		m.In = append(m.In, in)
	}
	for _, o := range s.outs {
		m.Out = append(m.Out, ref.TxOut{Value: o.Value, Script: clone(o.Script)})
	}
	return m
}

// sign signs input i with the first m keys.
func (s *spendTx) sign(i int, ht xcore.SigHashType) error {
	k := s.kinds[i]
	keys := k.keys
	if k.n > 0 {
		keys = keys[:k.m]
	}
	return s.tx.SignIndex(i, !k.uncompressed, ht, keys...)
}

// sigHash is the model's signature hash of input i.
func (s *spendTx) sigHash(m *ref.Tx, i int, ht uint32) []byte {
	k := s.kinds[i]
	if k.witness {
		return m.WitnessSigHash(i, k.code, k.value, ht)
	}
	return m.LegacySigHash(i, k.code, ht)
}
