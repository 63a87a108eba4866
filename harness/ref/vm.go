package ref

import "bytes"

// VM is a reference interpreter of the Bitcoin script rules for the opcodes the library supports: written on plain
// byte slices from the protocol description, with minimal numbers and MINIMALIF enforced and without size limits.
type VM struct {
	// Sig tells whether sig (with its hash type byte, never empty) is valid for pub.
	Sig func(sig, pub []byte) bool
	// Lenient: OP_RETURN does nothing and an empty final stack counts as success (recorded findings of the library).
	ReturnNoop, EmptyOK bool
	// Clean: the final stack must hold exactly one item.
	Clean bool

	St [][]byte
	// Code is the script being executed.
	Code []byte
	// bookkeeping of which rules were exercised
	SawReturn, SawEmpty bool
}

const (
	opPushdata1 = 0x4c
	opPushdata2 = 0x4d
	opPushdata4 = 0x4e
)

// NextOp reads one instruction; ok is false if the script is truncated.
func NextOp(s []byte) (op byte, data, rest []byte, ok bool) {
	op, s = s[0], s[1:]
	n, k := 0, 0
	switch {
	case op >= 1 && op <= 75:
		n = int(op)
	case op == opPushdata1:
		k = 1
	case op == opPushdata2:
		k = 2
	case op == opPushdata4:
		k = 4
	default:
		return op, nil, s, true
	}
	if len(s) < k {
		return op, nil, nil, false
	}
	for i := 0; i < k; i++ {
		n |= int(s[i]) << uint(8*i)
	}
	s = s[k:]
	if len(s) < n {
		return op, nil, nil, false
	}
	return op, s[:n:n], s[n:], true
}

// Truth of a stack item: any non-zero byte, a lone sign bit at the end not counting.
func Truth(b []byte) bool {
	for i, x := range b {
		if x != 0 && !(i == len(b)-1 && x == 0x80) {
			return true
		}
	}
	return false
}

// Num decodes a script number of at most max bytes, minimally encoded.
func Num(b []byte, max int) (int64, bool) {
	if len(b) > max {
		return 0, false
	}
	if len(b) == 0 {
		return 0, true
	}
	var v uint64
	for i, x := range b {
		if i == len(b)-1 {
			x &= 0x7f
		}
		v |= uint64(x) << uint(8*i)
	}
	n := int64(v)
	if b[len(b)-1]&0x80 != 0 {
		n = -n
	}
	return n, bytes.Equal(NumBytes(n), b)
}

// NumBytes is the minimal encoding.
func NumBytes(n int64) []byte {
	if n == 0 {
		return nil
	}
	u := uint64(n)
	if n < 0 {
		u = -u
	}
	var b []byte
	for ; u > 0; u >>= 8 {
		b = append(b, byte(u))
	}
	if b[len(b)-1] >= 0x80 {
		b = append(b, 0)
	}
	if n < 0 {
		b[len(b)-1] |= 0x80
	}
	return b
}

// Supported tells whether the library's opcode table is expected to know op.
func Supported(op byte) bool {
	if op <= 0x4e || (op >= 0x51 && op <= 0x60) {
		return true
	}
	switch op {
	case 0x4f, 0x63, 0x64, 0x67, 0x68, 0x6a, 0x6e, 0x6f, 0x75, 0x76, 0x7c, 0x82, 0x87, 0x88, 0x93, 0xa9, 0xac, 0xad, 0xae, 0xaf:
		return true
	}
	return false
}

func (v *VM) pop() ([]byte, bool) {
	if len(v.St) == 0 {
		return nil, false
	}
	t := v.St[len(v.St)-1]
	v.St = v.St[: len(v.St)-1 : len(v.St)-1]
	return t, true
}

func (v *VM) push(b []byte) { v.St = append(v.St[:len(v.St):len(v.St)], b) }

func boolItem(b bool) []byte {
	if b {
		return []byte{1}
	}
	return nil
}

// Run evaluates one script on the stack; false is failure.
func (v *VM) Run(script []byte) bool {
	open, ok := v.run(script)
	return ok && open == 0
}

// Prefix evaluates the beginning of a script, which may leave conditionals open, and returns the stack.
func (v *VM) Prefix(script []byte) ([][]byte, bool) {
	_, ok := v.run(script)
	return v.St, ok
}

// run evaluates a script; it returns the number of conditionals left open.
func (v *VM) run(script []byte) (int, bool) {
	var cond []bool
	v.Code = script
	for s := script; len(s) > 0; {
		op, data, rest, ok := NextOp(s)
		if !ok || !Supported(op) {
			return 0, false
		}
		s = rest
		on := true
		for _, c := range cond {
			on = on && c
		}
		switch op {
		case 0x63, 0x64: // IF NOTIF
			val := false
			if on {
				t, ok := v.pop()
				if !ok || len(t) > 1 || (len(t) == 1 && t[0] != 1) {
					return 0, false
				}
				val = len(t) == 1
				if op == 0x64 {
					val = !val
				}
			}
			cond = append(cond, val)
			continue
		case 0x67:
			if len(cond) == 0 {
				return 0, false
			}
			cond[len(cond)-1] = !cond[len(cond)-1]
			continue
		case 0x68:
			if len(cond) == 0 {
				return 0, false
			}
			cond = cond[:len(cond)-1]
			continue
		}
		if !on {
			continue
		}
		if !v.exec(op, data) {
			return 0, false
		}
	}
	return len(cond), true
}

func (v *VM) exec(op byte, data []byte) bool {
	st := v.St
	n := len(st)
	switch {
	case op == 0:
		v.push(nil)
	case op <= opPushdata4:
		v.push(data)
	case op == 0x4f:
		v.push([]byte{0x81})
	case op >= 0x51 && op <= 0x60:
		v.push([]byte{op - 0x50})
	case op == 0x6a:
		v.SawReturn = true
		return v.ReturnNoop
	case op == 0x76, op == 0x6e, op == 0x6f: // DUP 2DUP 3DUP
		k := map[byte]int{0x76: 1, 0x6e: 2, 0x6f: 3}[op]
		if n < k {
			return false
		}
		for i := 0; i < k; i++ {
			v.push(st[n-k+i])
		}
	case op == 0x75:
		_, ok := v.pop()
		return ok
	case op == 0x7c:
		if n < 2 {
			return false
		}
		a, b := st[n-2], st[n-1]
		v.St = st[: n-2 : n-2]
		v.push(b)
		v.push(a)
	case op == 0x82:
		if n < 1 {
			return false
		}
		v.push(NumBytes(int64(len(st[n-1]))))
	case op == 0x87, op == 0x88:
		if n < 2 {
			return false
		}
		eq := bytes.Equal(st[n-2], st[n-1])
		v.St = st[: n-2 : n-2]
		if op == 0x88 {
			return eq
		}
		v.push(boolItem(eq))
	case op == 0x93:
		if n < 2 {
			return false
		}
		a, ok1 := Num(st[n-2], 4)
		b, ok2 := Num(st[n-1], 4)
		if !ok1 || !ok2 {
			return false
		}
		v.St = st[: n-2 : n-2]
		v.push(NumBytes(a + b))
	case op == 0xa9:
		t, ok := v.pop()
		if !ok {
			return false
		}
		v.push(Hash160(t))
	case op == 0xac, op == 0xad:
		if n < 2 {
			return false
		}
		sig, pub := st[n-2], st[n-1]
		v.St = st[: n-2 : n-2]
		good := len(sig) > 0 && v.Sig(sig, pub)
		if op == 0xad {
			return good
		}
		v.push(boolItem(good))
	case op == 0xae, op == 0xaf:
		count := func(max int64) (int, bool) {
			t, ok := v.pop()
			if !ok {
				return 0, false
			}
			k, ok := Num(t, 4)
			return int(k), ok && k >= 0 && k <= max
		}
		items := func(k int) ([][]byte, bool) { // bottom to top
			if len(v.St) < k {
				return nil, false
			}
			o := append([][]byte{}, v.St[len(v.St)-k:]...)
			v.St = v.St[: len(v.St)-k : len(v.St)-k]
			return o, true
		}
		nk, ok := count(20)
		if !ok {
			return false
		}
		keys, ok := items(nk)
		if !ok {
			return false
		}
		ns, ok := count(int64(nk))
		if !ok {
			return false
		}
		sigs, ok := items(ns)
		if !ok {
			return false
		}
		if _, ok := v.pop(); !ok {
			return false
		}
		good := v.match(sigs, keys)
		if op == 0xaf {
			return good
		}
		v.push(boolItem(good))
	}
	return true
}

// match: is there an order-preserving assignment of every signature to a distinct key that validates it.
func (v *VM) match(sigs, keys [][]byte) bool {
	if len(sigs) == 0 {
		return true
	}
	if len(sigs) > len(keys) {
		return false
	}
	for j := range keys {
		if len(sigs[0]) > 0 && v.Sig(sigs[0], keys[j]) && v.match(sigs[1:], keys[j+1:]) {
			return true
		}
	}
	return false
}

func (v *VM) top() bool {
	if len(v.St) == 0 {
		v.SawEmpty = true
		return v.EmptyOK
	}
	return Truth(v.St[len(v.St)-1])
}

// IsP2SH and IsWitnessProgram are the byte patterns of BIP16 and BIP141.
func IsP2SH(s []byte) bool {
	return len(s) == 23 && s[0] == 0xa9 && s[1] == 20 && s[22] == 0x87
}

func IsWitnessProgram(s []byte) bool {
	return len(s) >= 4 && len(s) <= 42 && (s[0] == 0 || (s[0] >= 0x51 && s[0] <= 0x60)) && int(s[1]) == len(s)-2
}

// PushOnly tells whether the script has only pushes.
func PushOnly(s []byte) bool {
	for len(s) > 0 {
		op, _, rest, ok := NextOp(s)
		if !ok || op > 0x60 {
			return false
		}
		s = rest
	}
	return true
}

// Verify evaluates unlocking and locking as BIP16 defines; P2SH outputs that nest a witness program are failures.
func (v *VM) Verify(unlocking, locking []byte) bool {
	if !v.Run(unlocking) {
		return false
	}
	after := v.St
	if !v.Run(locking) || !v.top() {
		return false
	}
	if IsP2SH(locking) {
		if !PushOnly(unlocking) || len(after) == 0 {
			return false
		}
		v.St = after
		redeem, _ := v.pop()
		if IsWitnessProgram(redeem) {
			return false
		}
		if !v.Run(redeem) || !v.top() {
			return false
		}
	}
	return !v.Clean || len(v.St) == 1
}

// VerifyWitness evaluates the witness of a version 0 program whose scriptSig is empty.
func (v *VM) VerifyWitness(prog []byte, wit [][]byte) bool {
	v.St = nil
	switch len(prog) {
	case 20:
		if len(wit) != 2 {
			return false
		}
		v.St = append(v.St, wit...)
		code := append(append([]byte{0x76, 0xa9, 20}, prog...), 0x88, 0xac)
		return v.Run(code) && v.top() && len(v.St) == 1
	case 32:
		if len(wit) == 0 || !bytes.Equal(Sha256(wit[len(wit)-1]), prog) {
			return false
		}
		v.St = append(v.St, wit[:len(wit)-1]...)
		return v.Run(wit[len(wit)-1]) && v.top() && len(v.St) == 1
	}
	return false
}
