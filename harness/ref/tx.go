package ref

import "bytes"

// TxIn, TxOut and Tx are the model of a transaction.
type TxIn struct {
	Hash   []byte
	Index  uint32
	Script []byte // scriptSig on the wire
	Seq    uint32
	Wit    [][]byte
}

type TxOut struct {
	Value  uint64
	Script []byte
}

type Tx struct {
	Ver, Lock uint32
	In        []TxIn
	Out       []TxOut
}

func (t *Tx) HasWit() bool {
	for _, i := range t.In {
		if len(i.Wit) > 0 {
			return true
		}
	}
	return false
}

func (t *Tx) body(b []byte, wit bool) []byte {
	b = U32(b, t.Ver)
	if wit {
		b = append(b, 0, 1)
	}
	b = PutVarInt(b, uint64(len(t.In)))
	for _, i := range t.In {
		b = append(b, i.Hash...)
		b = U32(b, i.Index)
		b = PutVarBytes(b, i.Script)
		b = U32(b, i.Seq)
	}
	b = PutVarInt(b, uint64(len(t.Out)))
	for _, o := range t.Out {
		b = U64(b, o.Value)
		b = PutVarBytes(b, o.Script)
	}
	if wit {
		for _, i := range t.In {
			b = PutVarInt(b, uint64(len(i.Wit)))
			for _, w := range i.Wit {
				b = PutVarBytes(b, w)
			}
		}
	}
	return U32(b, t.Lock)
}

// Legacy is the witness-stripped encoding.
func (t *Tx) Legacy() []byte { return t.body(nil, false) }

// Full is the BIP144 encoding if there is witness data, else the legacy one.
func (t *Tx) Full() []byte { return t.body(nil, t.HasWit()) }

// ID is the transaction id as text, WID the witness id.
func (t *Tx) ID() string  { return RevHex(Sha256d(t.Legacy())) }
func (t *Tx) WID() string { return RevHex(Sha256d(t.Full())) }

// RevHex is the byte-reversed hexadecimal form.
func RevHex(b []byte) string {
	const d = "0123456789abcdef"
	var s []byte
	for i := len(b) - 1; i >= 0; i-- {
		s = append(s, d[b[i]>>4], d[b[i]&15])
	}
	return string(s)
}

// Clone copies deeply.
func (t *Tx) Clone() *Tx {
	n := &Tx{Ver: t.Ver, Lock: t.Lock}
	cp := func(b []byte) []byte {
		if b == nil {
			return nil
		}
		return append([]byte{}, b...)
	}
	for _, i := range t.In {
		j := TxIn{Hash: cp(i.Hash), Index: i.Index, Script: cp(i.Script), Seq: i.Seq}
		for _, w := range i.Wit {
			j.Wit = append(j.Wit, append([]byte{}, w...))
		}
		n.In = append(n.In, j)
	}
	for _, o := range t.Out {
		n.Out = append(n.Out, TxOut{o.Value, cp(o.Script)})
	}
	return n
}

// LegacySigHash is the original signature hash; script is the script code (code separators already removed).
func (t *Tx) LegacySigHash(idx int, script []byte, ht uint32) []byte {
	base := ht & 0x1f
	if base == 3 && idx >= len(t.Out) {
		h := make([]byte, 32)
		h[0] = 1
		return h
	}
	m := t.Clone()
	for i := range m.In {
		m.In[i].Wit = nil
		if i == idx {
			m.In[i].Script = script
		} else {
			m.In[i].Script = nil
			if base == 2 || base == 3 {
				m.In[i].Seq = 0
			}
		}
	}
	switch base {
	case 2:
		m.Out = nil
	case 3:
		m.Out = m.Out[:idx+1]
		for i := 0; i < idx; i++ {
			m.Out[i] = TxOut{Value: 1<<64 - 1}
		}
	}
	if ht&0x80 != 0 {
		m.In = []TxIn{m.In[idx]}
	}
	return Sha256d(U32(m.Legacy(), ht))
}

// WitnessSigHash is the BIP143 digest.
func (t *Tx) WitnessSigHash(idx int, scriptCode []byte, value uint64, ht uint32) []byte {
	base, any := ht&0x1f, ht&0x80 != 0
	prev, seqs, outs := make([]byte, 32), make([]byte, 32), make([]byte, 32)
	if !any {
		var b bytes.Buffer
		for _, i := range t.In {
			b.Write(i.Hash)
			b.Write(U32(nil, i.Index))
		}
		prev = Sha256d(b.Bytes())
		if base != 2 && base != 3 {
			b.Reset()
			for _, i := range t.In {
				b.Write(U32(nil, i.Seq))
			}
			seqs = Sha256d(b.Bytes())
		}
	}
	one := func(o TxOut) []byte { return PutVarBytes(U64(nil, o.Value), o.Script) }
	if base == 3 {
		if idx < len(t.Out) {
			outs = Sha256d(one(t.Out[idx]))
		}
	} else if base != 2 {
		var b bytes.Buffer
		for _, o := range t.Out {
			b.Write(one(o))
		}
		outs = Sha256d(b.Bytes())
	}
	p := U32(nil, t.Ver)
	p = append(p, prev...)
	p = append(p, seqs...)
	p = append(p, t.In[idx].Hash...)
	p = U32(p, t.In[idx].Index)
	p = PutVarBytes(p, scriptCode)
	p = U64(p, value)
	p = U32(p, t.In[idx].Seq)
	p = append(p, outs...)
	p = U32(p, t.Lock)
	p = U32(p, ht)
	return Sha256d(p)
}

// ParseTx reads a transaction in either encoding; ok is false unless all of b is one transaction.
func ParseTx(b []byte) (*Tx, bool) {
	r := &rd{b: b, ok: true}
	t := &Tx{Ver: uint32(r.le(4))}
	wit := len(r.b) >= 2 && r.b[0] == 0 && r.b[1] == 1
	if wit {
		r.b = r.b[2:]
	}
	n := r.vi()
	for i := uint64(0); i < n && r.ok; i++ {
		in := TxIn{Hash: r.take(32), Index: uint32(r.le(4))}
		in.Script = r.take(r.vi())
		in.Seq = uint32(r.le(4))
		t.In = append(t.In, in)
	}
	n = r.vi()
	for i := uint64(0); i < n && r.ok; i++ {
		v := r.le(8)
		t.Out = append(t.Out, TxOut{v, r.take(r.vi())})
	}
	if wit {
		for i := range t.In {
			for k := r.vi(); k > 0 && r.ok; k-- {
				t.In[i].Wit = append(t.In[i].Wit, r.take(r.vi()))
			}
		}
	}
	t.Lock = uint32(r.le(4))
	return t, r.ok && len(r.b) == 0
}

type rd struct {
	b  []byte
	ok bool
}

func (r *rd) take(n uint64) []byte {
	if !r.ok || uint64(len(r.b)) < n {
		r.ok = false
		return nil
	}
	o := r.b[:n:n]
	r.b = r.b[n:]
	return o
}

func (r *rd) le(n int) (v uint64) {
	for i, x := range r.take(uint64(n)) {
		v |= uint64(x) << uint(8*i)
	}
	return v
}

func (r *rd) vi() uint64 {
	switch x := r.le(1); x {
	case 0xfd:
		return r.le(2)
	case 0xfe:
		return r.le(4)
	case 0xff:
		return r.le(8)
	default:
		return x
	}
}
