package props

import (
	"bytes"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcore"
)

// realTx builds the code's transaction from the model. Inputs for which native[i] is true are built the way
// NewTxIn builds a segwit input (their unlocking script lives in the witness; the wire scriptSig is empty).
func realTx(m *ref.Tx, native []bool) (*xcore.Transaction, []*xcore.TxIn, []*xcore.TxOut) {
	tx := xcore.NewTransaction()
	tx.SetVersion(m.Ver)
	tx.SetLockTime(m.Lock)
	var ins []*xcore.TxIn
	var outs []*xcore.TxOut
	for i, in := range m.In {
		x := realTxIn(in)
		if native != nil && native[i] {
			x.WitnessScriptCode = []byte{0x51}
			x.RawUnlockingScript = rep(0x51, 3)
		}
		tx.AddInput(x)
		ins = append(ins, x)
	}
	for _, o := range m.Out {
		y := xcore.NewTxOut(o.Value, clone(o.Script))
		tx.AddOutput(y)
		outs = append(outs, y)
	}
	return tx, ins, outs
}

func realTxIn(in ref.TxIn) *xcore.TxIn {
	x := &xcore.TxIn{Hash: clone(in.Hash), Index: in.Index, Sequence: in.Seq, RawUnlockingScript: clone(in.Script)}
	for _, w := range in.Wit {
		x.Witness = append(x.Witness, clone(w))
	}
	return x
}

// sameTx compares both encodings, ids and sizes with the model.
func sameTx(c *mc.Ctx, what string, tx *xcore.Transaction, m *ref.Tx) {
	full, leg := m.Full(), m.Legacy()
	c.Step(2)
	c.Valid(2)
	if got := tx.Serialize(); !bytes.Equal(got, full) {
		c.Fail("serialize", "%s: Serialize() = %s, want %s", what, hx(got), hx(full))
	}
	if got := tx.SerializeNoWitness(); !bytes.Equal(got, leg) {
		c.Fail("serialize-no-witness", "%s: SerializeNoWitness() = %s, want %s", what, hx(got), hx(leg))
	}
	if tx.HasWitness() != m.HasWit() {
		c.Fail("has-witness", "%s: HasWitness() = %v", what, tx.HasWitness())
	}
}

func stripWit(m *ref.Tx) *ref.Tx {
	n := m.Clone()
	for i := range n.In {
		n.In[i].Wit = nil
	}
	return n
}
