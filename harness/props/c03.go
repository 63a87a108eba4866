package props

import (
	"bytes"
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore"
)

func init() { mc.Register("C03", c03) }

// The address constants of the two networks, written out independently of /repo/network.
type netRef struct {
	name       string
	net        *network.Network
	pkh, sh    byte
	hrp        string
	hdprv, hdp uint32
}

var netRefs = []netRef{
	{"mainnet", network.MainNet, 0x00, 0x05, "bc", 0x0488ade4, 0x0488b21e},
	{"testnet", network.TestNet, 0x6f, 0xc4, "tb", 0x04358394, 0x043587cf},
}

const (
	kPKH = iota
	kSH
	kWPKH
	kWSH
)

var kindNames = []string{"P2PKH", "P2SH", "P2WPKH", "P2WSH"}

func kindLen(k int) int {
	if k == kWSH {
		return 32
	}
	return 20
}

func newAddr(k int, h []byte) xcore.Address {
	switch k {
	case kPKH:
		return xcore.NewPayToPubKeyHashAddress(h)
	case kSH:
		return xcore.NewPayToScriptHashAddress(h)
	case kWPKH:
		return xcore.NewPayToWitnessV0PubKeyHashAddress(h)
	}
	return xcore.NewPayToWitnessV0ScriptHashAddress(h)
}

func newScript(k int, h []byte) xcore.Script {
	switch k {
	case kPKH:
		return xcore.NewPayToPubKeyHashScript(h)
	case kSH:
		return xcore.NewPayToScriptHashScript(h)
	case kWPKH:
		return xcore.NewPayToWitnessV0PubKeyHashScript(h)
	}
	return xcore.NewPayToWitnessV0ScriptHashScript(h)
}

func addrKind(a xcore.Address) int {
	switch a.(type) {
	case *xcore.PayToPubKeyHashAddress:
		return kPKH
	case *xcore.PayToScriptHashAddress:
		return kSH
	case *xcore.PayToWitnessV0PubKeyHashAddress:
		return kWPKH
	case *xcore.PayToWitnessV0ScriptHashAddress:
		return kWSH
	}
	return -1
}

func refAddrText(k int, h []byte, n netRef) string {
	switch k {
	case kPKH:
		return ref.B58CheckEncode(h, n.pkh)
	case kSH:
		return ref.B58CheckEncode(h, n.sh)
	}
	return ref.SegwitEncode(n.hrp, 0, h)
}

func refLocking(k int, h []byte) []byte {
	switch k {
	case kPKH:
		return cat([]byte{0x76, 0xa9, 20}, h, []byte{0x88, 0xac})
	case kSH:
		return cat([]byte{0xa9, 20}, h, []byte{0x87})
	case kWPKH:
		return cat([]byte{0, 20}, h)
	}
	return cat([]byte{0, 32}, h)
}

// refAddrDecode is the model of address parsing on one network.
func refAddrDecode(s string, n netRef) (int, []byte, bool) {
	if hrp, v, p, ok := ref.SegwitDecode(s); ok && hrp == n.hrp {
		if v == 0 && len(p) == 20 {
			return kWPKH, p, true
		}
		if v == 0 && len(p) == 32 {
			return kWSH, p, true
		}
		return 0, nil, false
	}
	p, v, ok := ref.B58CheckDecode(s)
	if !ok || len(p) != 20 {
		return 0, nil, false
	}
	switch v {
	case n.pkh:
		return kPKH, p, true
	case n.sh:
		return kSH, p, true
	}
	return 0, nil, false
}

func c03text(c *mc.Ctx, s string) {
	for _, n := range netRefs {
		k, h, ok := refAddrDecode(s, n)
		a, err := xcore.DecodeAddress(s, n.net)
		c.Step(1)
		c.Valid(1)
		c.Check((err == nil) == ok, "accept", "DecodeAddress(%q, %s) = %v, %v; model accepts=%v", s, n.name, a, err, ok)
		if !ok {
			c.Outcome("rejected")
			continue
		}
		c.Outcome("accepted-" + kindNames[k])
		c.Check(a != nil && addrKind(a) == k && bytes.Equal(a.Hash160(), h), "value", "DecodeAddress(%q, %s) = %T %x, want %s %x", s, n.name, a, a.Hash160(), kindNames[k], h)
		t := a.ToString(n.net)
		c.Check(t == s || (k >= kWPKH && t == strings.ToLower(s)), "canonical", "%q accepted but prints as %q", s, t)
	}
}

func c03addr(c *mc.Ctx, k int, h []byte) {
	in := clone(h)
	a := newAddr(k, h)
	c.Check(a != nil, "construct", "no %s address for %x", kindNames[k], h)
	for _, n := range netRefs {
		s := a.ToString(n.net)
		want := refAddrText(k, h, n)
		c.Step(1)
		c.Valid(1)
		c.Check(s == want, "print", "%s %x on %s prints %q want %q", kindNames[k], h, n.name, s, want)
		c03text(c, s)
		if k >= kWPKH {
			c03text(c, strings.ToUpper(s))
		}
	}
	ls, err := a.LockingScript()
	c.Check(err == nil && bytes.Equal(ls, refLocking(k, h)), "locking", "%s %x locking script %x, %v want %x", kindNames[k], h, ls, err, refLocking(k, h))
	c.Check(bytes.Equal(in, h) && bytes.Equal(a.Hash160(), in), "input-modified", "hash changed")
	sc, err := xcore.ParseLockingScript(ls)
	c.Check(err == nil, "parse", "ParseLockingScript(%x): %v", ls, err)
	a2 := sc.GetAddress()
	c.Check(a2 != nil && addrKind(a2) == k && bytes.Equal(a2.Hash160(), h), "script-address", "script %x gives %T %x", ls, a2, a2.Hash160())
	sc2 := newScript(k, h)
	l2, err := sc2.GetRawLockingScriptBytes()
	c.Check(err == nil && bytes.Equal(l2, ls), "script-raw", "script object gives %x want %x", l2, ls)
	wantV := xcore.BASE
	if k >= kWPKH {
		wantV = xcore.WITNESS_V0
	}
	c.Check(sc.GetScriptVersion() == wantV, "version", "script version %v of %s", sc.GetScriptVersion(), kindNames[k])
	c.Step(6)
	c.Valid(4)
}

// c03script compares ParseLockingScript with the byte-exact templates.
func c03script(c *mc.Ctx, s []byte) {
	want := -1
	for k := 0; k < 4; k++ {
		n := kindLen(k)
		for off := 0; off+n <= len(s); off++ {
			if bytes.Equal(refLocking(k, s[off:off+n]), s) {
				want = k
			}
		}
	}
	sc, err := xcore.ParseLockingScript(s)
	c.Step(1)
	c.Valid(1)
	c.State(s)
	c.Check((err == nil) == (want >= 0), "template", "ParseLockingScript(%x) err=%v, template=%d", s, err, want)
	if want >= 0 {
		a := sc.GetAddress()
		raw, err := sc.GetRawLockingScriptBytes()
		c.Check(addrKind(a) == want && err == nil && bytes.Equal(raw, s), "template-value", "ParseLockingScript(%x) = %T, raw %x", s, a, raw)
		c.Outcome(kindNames[want])
	} else {
		c.Outcome("not-standard")
	}
}

func c03(r *mc.Run) {
	r.Explore("round-trip", mc.Opts{}, func(c *mc.Ctx) {
		k := c.Pick("kind", 4)
		n := kindLen(k)
		pos := c.Pick("pos", n)
		fill := []byte{0, 0xff, 0x5a}[c.Pick("fill", 3)]
		for v := 0; v < 256; v++ {
			h := rep(fill, n)
			h[pos] = byte(v)
			c.StateU(uint64(k), uint64(pos), uint64(fill), uint64(v))
			c03addr(c, k, h)
		}
	})
	r.Explore("leading-zeros", mc.Opts{}, func(c *mc.Ctx) {
		k := c.Pick("kind", 4)
		n := kindLen(k)
		z := c.Pick("zeros", n+1)
		h := cat(rep(0, z), seq(0xc0, n-z))
		c.StateU(uint64(k), uint64(z))
		c03addr(c, k, h)
	})
	r.Explore("constructor-length", mc.Opts{}, func(c *mc.Ctx) {
		k := c.Pick("kind", 4)
		n := c.Pick("len", 70)
		a := newAddr(k, rep(7, n))
		c.Step(1)
		c.Valid(1)
		c.Check((a != nil) == (n == kindLen(k)), "length", "%s address from %d bytes: %v", kindNames[k], n, a)
		c.StateU(uint64(k), uint64(n))
	})
	r.Explore("base58-versions", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("len", 41)
		for v := 0; v < 256; v++ {
			s := ref.B58CheckEncode(seq(0x11, n), byte(v))
			c.StateS(s)
			c03text(c, s)
			s = ref.B58CheckEncode(rep(0, n), byte(v))
			c03text(c, s)
		}
	})
	r.Explore("segwit-shapes", mc.Opts{}, func(c *mc.Ctx) {
		hrp := []string{"bc", "tb", "b", "bcrt", "BC", "bb", "cb", "1b", "b1"}[c.Pick("hrp", 9)]
		n := c.Pick("len", 42)
		for v := 0; v < 32; v++ {
			s := ref.SegwitEncode(hrp, byte(v), seq(0x21, n))
			c.StateS(s)
			c03text(c, s)
			c03text(c, strings.ToUpper(s))
			if n > 0 {
				c03text(c, ref.Bech32Encode(hrp, append([]byte{byte(v)}, rep(1, n*2)...)))
			}
		}
	})
	var bases []string
	for k := 0; k < 4; k++ {
		for _, n := range netRefs {
			bases = append(bases, refAddrText(k, seq(0x80, kindLen(k)), n))
			if k == 0 {
				bases = append(bases, refAddrText(k, rep(0, 20), n))
			}
		}
	}
	r.Explore("edits", mc.Opts{}, func(c *mc.Ctx) {
		s := bases[c.Pick("base", len(bases))]
		pos := c.Pick("pos", len(s)+1)
		for x := 0; x < 256; x++ {
			ch := string([]byte{byte(x)})
			if pos < len(s) {
				t := s[:pos] + ch + s[pos+1:]
				c.StateS(t)
				c03text(c, t)
			}
			c03text(c, s[:pos]+ch+s[pos:])
		}
		if pos < len(s) {
			c03text(c, s[:pos]+s[pos+1:])
		}
		c03text(c, s[:pos])
		c03text(c, s[pos:])
		for q := pos + 1; q < len(s); q++ {
			b := []byte(s)
			b[pos], b[q] = b[q], b[pos]
			c03text(c, string(b))
		}
		if pos < len(s) {
			c03text(c, strings.ToUpper(s[:pos])+s[pos:])
		}
	})
	r.Explore("texts", mc.Opts{}, func(c *mc.Ctx) {
		al := "1bctq2 30z"
		n := c.Pick("len", r.Q(6, 7))
		b := make([]byte, n)
		for i := range b {
			b[i] = al[c.Pick("char", len(al))]
		}
		c.State(b)
		c03text(c, string(b))
	})
	// locking scripts: every one-byte change, truncation, extension of each template, and push-form variants
	r.Explore("scripts", mc.Opts{}, func(c *mc.Ctx) {
		k := c.Pick("kind", 4)
		s := refLocking(k, seq(0x30, kindLen(k)))
		pos := c.Pick("pos", len(s)+1)
		for x := 0; x < 256; x++ {
			if pos < len(s) {
				t := clone(s)
				t[pos] = byte(x)
				c03script(c, t)
			}
			c03script(c, cat(s[:pos], []byte{byte(x)}, s[pos:]))
		}
		c03script(c, clone(s[:pos]))
		c03script(c, clone(s[pos:]))
		if pos < len(s) {
			c03script(c, cat(s[:pos], s[pos+1:]))
		}
		c03script(c, cat(s, s[:pos]))
	})
	r.Explore("push-forms", mc.Opts{}, func(c *mc.Ctx) {
		pre := [][]byte{{}, {0x00}, {0x76, 0xa9}, {0xa9}, {0x51}, {0x60}, {0x4f}, {0x76}, {0x01, 0x00}, {0x4c, 0x00}}[c.Pick("prefix", 10)]
		suf := [][]byte{{}, {0x87}, {0x88, 0xac}, {0x88}, {0xac}, {0x88, 0xad}, {0x87, 0x87}}[c.Pick("suffix", 7)]
		n := c.Pick("len", 45)
		form := c.Pick("form", 4)
		d := seq(9, n)
		var p []byte
		switch form {
		case 0:
			p = append([]byte{byte(n)}, d...)
		case 1:
			p = append([]byte{0x4c, byte(n)}, d...)
		case 2:
			p = append([]byte{0x4d, byte(n), 0}, d...)
		case 3:
			p = append([]byte{0x4e, byte(n), 0, 0, 0}, d...)
		}
		c03script(c, cat(pre, p, suf))
	})
	r.Assume(fmt.Sprintf("networks: the two provided by the library (%s, %s)", netRefs[0].name, netRefs[1].name))
}
