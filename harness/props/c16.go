package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"sync"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore/bip32"
)

func init() { mc.Register("C16", c16) }

const hard = uint32(1 << 31)

// hdSeeds: BIP32's own vectors (3 and 4 lead to leading zeros), the ends of the allowed sizes, and seeds whose
// master key starts with one or two zero bytes.
var hdSeedsOnce = sync.OnceValue(func() [][]byte {
	o := [][]byte{
		seq(0, 16),
		unhex("4b381541583be4423346c643850da4b320e46a87ae3d2a4e6da11eba819cd4acba45d239319ac14f863b8d5ab5a0d0c64d2e8a1e7d1457df2e5a3c51c73235be"),
		unhex("3ddd5602285899a946114506157c7997e5444528f3003f6134712147db19b678"),
		rep(0xff, 64),
	}
	for want := 1; want <= 2; want++ {
		for i := 0; ; i++ {
			s := cat(rep(byte(want), 16), []byte{byte(i), byte(i >> 8), byte(i >> 16)})
			m, ok := ref.HDMaster(s)
			if !ok {
				continue
			}
			if len(m.Priv.Bytes()) <= 32-want {
				o = append(o, s)
				break
			}
			if i > 1000 && want == 2 {
				break
			}
		}
	}
	return append(o, rep(0, 32), []byte{}, rep(0xaa, 65), rep(3, 200))
})

// leadingZeroChild finds a hardened index whose child key starts with a zero byte.
func leadingZeroChild(h *ref.HD) uint32 {
	data := append([]byte{0}, ref.B32(h.Priv)...)
	for i := hard; ; i++ {
		b := binary.BigEndian.AppendUint32(clone(data), i)
		il := new(big.Int).SetBytes(hmac512(h.Chain, b)[:32])
		il.Add(il, h.Priv)
		il.Mod(il, curveN)
		if len(il.Bytes()) < 32 {
			return i
		}
	}
}

// hdText gives the texts for both networks.
func hdText(k *bip32.HDKey) [2]string {
	return [2]string{k.ToString(network.MainNet), k.ToString(network.TestNet)}
}

func refText(h *ref.HD) (o [2]string) {
	for i, n := range netRefs {
		v := n.hdp
		if h.Priv != nil {
			v = n.hdprv
		}
		o[i] = ref.HDText(h.Raw(v))
	}
	return
}

// hdNode is a reference key with memoized children.
type hdNode struct {
	h    *ref.HD
	mu   sync.Mutex
	kids map[uint32]*hdNode
}

func (n *hdNode) child(i uint32) *hdNode {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.kids == nil {
		n.kids = map[uint32]*hdNode{}
	}
	if c, ok := n.kids[i]; ok {
		return c
	}
	var c *hdNode
	if h, ok := n.h.Child(i); ok {
		c = &hdNode{h: h}
	}
	n.kids[i] = c
	return c
}

// checkHD compares a real key with the reference.
func checkHD(c *mc.Ctx, what string, k *bip32.HDKey, h *ref.HD) {
	c.Step(1)
	c.Valid(1)
	want := refText(h)
	if got := hdText(k); got != want {
		c.Fail("text", "%s: the key is\n%v, BIP32 says\n%v", what, got, want)
	}
	pub := ref.Compressed(h.Pub)
	if got := k.PublicKey().Serialize(); !bytes.Equal(got, pub) {
		c.Fail("pubkey", "%s: public key %x, want %x", what, got, pub)
	}
	if h.Priv != nil {
		if k.PrivateKey() == nil || !bytes.Equal(k.PrivateKey().Serialize(), ref.B32(h.Priv)) {
			c.Fail("prvkey", "%s: wrong private key", what)
		}
	} else if k.PrivateKey() != nil {
		c.Fail("prvkey", "%s: a public key with a private key", what)
	}
}

func reparse(c *mc.Ctx, what string, k *bip32.HDKey, net int) *bip32.HDKey {
	t := hdText(k)[net]
	n, err := bip32.NewHDKeyFromString(t)
	if err != nil {
		c.Fail("reparse", "%s: %s does not parse: %v", what, t, err)
	}
	if hdText(n) != hdText(k) {
		c.Fail("reparse", "%s: %s parses to %s", what, t, hdText(n))
	}
	return n
}

func idxText(i uint32) string {
	if i >= hard {
		return fmt.Sprintf("%d'", i-hard)
	}
	return fmt.Sprint(i)
}

func c16(r *mc.Run) {
	hdSeeds := hdSeedsOnce()
	r.Assume("parse-valid versions are those of the two provided networks")
	var roots []*hdNode
	for _, s := range hdSeeds {
		h, ok := ref.HDMaster(s)
		if !ok {
			panic("seed")
		}
		roots = append(roots, &hdNode{h: h})
	}
	idx := []uint32{0, 1, hard - 1, hard, hard + 1, 1<<32 - 1, 44 + hard, 2}
	at := func(n *hdNode, k int) uint32 {
		if k < len(idx) {
			return idx[k]
		}
		return leadingZeroChild(n.h)
	}

	// every path, every way of carrying each key to the next step: as is, through its text (either network), neutered,
	// neutered through its text
	r.Explore("paths", mc.Opts{}, func(c *mc.Ctx) {
		si := c.Pick("seed", r.Q(6, len(roots)))
		node := roots[si]
		k := bip32.NewHDKey(clone(hdSeeds[si]))
		what := fmt.Sprintf("seed %x m", hdSeeds[si])
		checkHD(c, what, k, node.h)
		public := false
		depth := 1 + c.Pick("depth", r.Q(2, 3))
		for d := 0; d < depth; d++ {
			form := c.Pick("form", 5)
			switch {
			case form == 0:
			case form == 1:
				k = reparse(c, what, k, 0)
			case form == 2:
				if d != 1 {
					c.Skip() // the other network's text: only at the second step
				}
				k = reparse(c, what, k, 1)
			case form == 3:
				k = k.HDPublicKey()
				public = true
			default:
				if d != 0 {
					c.Skip()
				}
				k = reparse(c, what, k.HDPublicKey(), d%2)
				public = true
			}
			if form > 0 {
				h := node.h
				if public {
					h = h.Neuter()
				}
				checkHD(c, what+fmt.Sprintf(" form %d", form), k, h)
			}
			ik := c.Pick("index", r.Q(6, len(idx)+1)+d%2)
			if r.Quick() && ik == 6 {
				ik = len(idx)
			}
			i := at(node, ik)
			what += "/" + idxText(i)
			before := hdText(k)
			n, err := k.Derive(i)
			c.Step(1)
			if hdText(k) != before {
				c.Fail("mutated", "%s: deriving changes the parent", what)
			}
			if public && i >= hard {
				if err == nil {
					c.Fail("hardened-public", "%s: a hardened child of a public key", what)
				}
				c.Outcome("refused")
				return
			}
			next := node.child(i)
			if next == nil {
				c.Skip()
			}
			if err != nil {
				c.Fail("derive", "%s: %v", what, err)
			}
			h := next.h
			if public {
				h = h.Neuter()
			}
			checkHD(c, what, n, h)
			if !public {
				checkHD(c, what+" neutered", n.HDPublicKey(), h.Neuter())
				// commutation, stated directly
				if i < hard {
					p, err := k.HDPublicKey().Derive(i)
					if err != nil {
						c.Fail("derive-public", "%s: %v", what, err)
					}
					checkHD(c, what+" from the public key", p, h.Neuter())
				}
			}
			k, node = n, next
		}
		c.StateS(what)
	})

	// children with a rare look (found by a search that is not repeated here: two or three leading or trailing zero
	// bytes in the key, in what is added to the parent's, in the chain code; two leading zero bytes in the public
	// key's X or in the fingerprint), and theirs
	r.Explore("rare-children", mc.Opts{}, func(c *mc.Ctx) {
		rare := []uint32{
			77571, 112402, 2147496403, 2147741286, 2150775374, 2153426743, // key, zeros in front
			126920, 297087, 2147552454, 2147773315, 9370436, 2161393704, // key, zeros at the end
			17346, 61057, 2147497669, 2147519968, 8055040, 2159369881, // what is added, zeros in front
			535, 152574, 2147530839, 2147740032, 778162, 2149098596, // chain code, zeros in front
			69011, 146066, 2147507418, 2147547369, // chain code, zeros at the end
			107632, // X, zeros in front
			35839,  // fingerprint, zeros in front
		}
		i := rare[c.Pick("index", len(rare))]
		root := roots[0]
		k := bip32.NewHDKey(clone(hdSeeds[0]))
		n := root.child(i)
		what := "seed 000102..0f m/" + idxText(i)
		got, err := k.Derive(i)
		if err != nil {
			c.Fail("derive", "%s: %v", what, err)
		}
		checkHD(c, what, got, n.h)
		forms := []*bip32.HDKey{got, reparse(c, what, got, 0), reparse(c, what, got, 1)}
		if g, err := k.DeriveByPath("m/" + idxText(i)); err != nil {
			c.Fail("derive", "by path %s: %v", what, err)
		} else {
			forms = append(forms, g)
		}
		pubs := []*bip32.HDKey{got.HDPublicKey(), reparse(c, what, got.HDPublicKey(), 0)}
		if i < hard {
			p, err := k.HDPublicKey().Derive(i)
			if err != nil {
				c.Fail("derive-public", "%s: %v", what, err)
			}
			pubs = append(pubs, p)
		}
		for _, p := range pubs {
			checkHD(c, what+" public", p, n.h.Neuter())
		}
		for _, j := range []uint32{0, 1, hard, hard + 7} {
			g := n.child(j)
			for f, x := range forms {
				y, err := x.Derive(j)
				if err != nil {
					c.Fail("derive", "%s/%s: %v", what, idxText(j), err)
				}
				checkHD(c, fmt.Sprintf("%s/%s form %d", what, idxText(j), f), y, g.h)
			}
			for f, x := range pubs {
				if j >= hard {
					continue
				}
				y, err := x.Derive(j)
				if err != nil {
					c.Fail("derive-public", "%s/%s: %v", what, idxText(j), err)
				}
				checkHD(c, fmt.Sprintf("%s/%s public form %d", what, idxText(j), f), y, g.h.Neuter())
			}
		}
		c.StateS(what)
	})

	// one long path, all indices that differ in one bit
	r.Explore("index-bits", mc.Opts{}, func(c *mc.Ctx) {
		i := uint32(1) << uint(c.Pick("bit", 32))
		if c.Bool("all lower bits too") {
			i |= i - 1
		}
		pub := c.Bool("public")
		root := roots[0]
		k := bip32.NewHDKey(clone(hdSeeds[0]))
		h := root.h
		if pub {
			k, h = k.HDPublicKey(), h.Neuter()
		}
		want, ok := h.Child(i)
		n, err := k.Derive(i)
		if (err == nil) != ok {
			c.Fail("derive", "index %d (public %v): %v", i, pub, err)
		}
		if ok {
			checkHD(c, fmt.Sprint("index ", i), n, want)
		}
		c.StateU(uint64(i))
	})

	// paths as texts
	tokens := []string{"m", "/", "0", "1", "'", "2147483647", "2147483648", "4294967295", "4294967296", "-1", "+", " ", "h", "44", "M", "x", "99999999999999999999"}
	root := bip32.NewHDKey(clone(hdSeeds[0]))
	pubRoot := root.HDPublicKey()
	type exp struct{ k, p [2]string }
	var cmu sync.Mutex
	cache := map[string]exp{}
	steps := func(c *mc.Ctx, ids []uint32) exp {
		key := fmt.Sprint(ids)
		cmu.Lock()
		e, ok := cache[key]
		cmu.Unlock()
		if ok {
			return e
		}
		n := roots[0]
		hardened := false
		for _, i := range ids {
			n = n.child(i)
			hardened = hardened || i >= hard
		}
		e = exp{k: refText(n.h)}
		if !hardened {
			e.p = refText(n.h.Neuter())
		}
		cmu.Lock()
		cache[key] = e
		cmu.Unlock()
		return e
	}
	// parsePath: 1 valid, 0 invalid, -1 unspecified (a number of 2^31 and more without a mark; leading zeros)
	parsePath := func(p string) (int, []uint32) {
		if p == "" {
			return -1, nil
		}
		parts := strings.Split(p, "/")
		if parts[0] != "m" {
			return 0, nil
		}
		v := 1
		var ids []uint32
		for _, s := range parts[1:] {
			h := strings.HasSuffix(s, "'")
			s = strings.TrimSuffix(s, "'")
			if s == "" {
				return 0, nil
			}
			for _, ch := range s {
				if ch < '0' || ch > '9' {
					return 0, nil
				}
			}
			if len(s) > 1 && s[0] == '0' {
				v = -1
			}
			n, err := strconv.ParseUint(s, 10, 64)
			if err != nil || n >= 1<<32 || h && n >= 1<<31 {
				return 0, nil
			}
			if n >= 1<<31 {
				v = -1
			}
			if h {
				n += 1 << 31
			}
			ids = append(ids, uint32(n))
		}
		return v, ids
	}
	checkPath := func(c *mc.Ctx, p string) {
		c.Step(1)
		v, ids := parsePath(p)
		k, err := root.DeriveByPath(p)
		pk, perr := pubRoot.DeriveByPath(p)
		if v == 0 {
			if err == nil || perr == nil {
				c.Fail("path-accepted", "path %q is accepted", p)
			}
			return
		}
		if err != nil {
			if v == 1 {
				c.Fail("path-refused", "path %q: %v", p, err)
			}
			return
		}
		c.Valid(1)
		e := steps(c, ids)
		if hdText(k) != e.k {
			c.Fail("path", "path %q gives %v, its steps one by one %v", p, hdText(k), e.k)
		}
		if e.p[0] == "" {
			if perr == nil {
				c.Fail("path-hardened-public", "path %q derives from a public key", p)
			}
		} else if perr != nil {
			c.Fail("path-public", "path %q from the public key: %v", p, perr)
		} else if hdText(pk) != e.p {
			c.Fail("path-public", "path %q from the public key gives %v, want %v", p, hdText(pk), e.p)
		}
		c.StateS(p)
	}
	plen := r.Q(5, 6)
	r.Explore("path-texts", mc.Opts{}, func(c *mc.Ctx) {
		// the first token m in full, the others one level less deep
		n := len(tokens)
		first := c.Pick("first", n+1) - 1
		if first < 0 {
			checkPath(c, "")
			return
		}
		second := c.Pick("second", n)
		third := -1
		depth := plen - 2
		if first != 0 {
			depth = 2
		} else {
			third = c.Pick("third", n)
			depth--
		}
		base := tokens[first]
		checkPath(c, base)
		base += tokens[second]
		checkPath(c, base)
		if third >= 0 {
			base += tokens[third]
			checkPath(c, base)
		}
		// texts that already fail whatever follows stay in: the parser must reject every one of them
		var walk func(s string, d int)
		walk = func(s string, d int) {
			if d == 0 {
				return
			}
			for _, t := range tokens {
				checkPath(c, s+t)
				walk(s+t, d-1)
			}
		}
		walk(base, depth)
	})
	r.Explore("path-steps", mc.Opts{}, func(c *mc.Ctx) {
		alpha := []string{"0", "1", "0'", "2147483647", "2147483647'", "44'"}
		p := "m"
		for d := c.Pick("depth", r.Q(3, 4)) + 1; d > 0; d-- {
			p += "/" + alpha[c.Pick("step", len(alpha))]
		}
		checkPath(c, p)
		for _, s := range []string{"/", "'", " ", "//0", "/'", "/0'0", "/0''", "\n", "/0 ", "/ 0", "/0x1", "/1_0", "/1e1", "/\x00", "/2147483648'", "/4294967295'", "/4294967296", "/18446744073709551616"} {
			checkPath(c, p+s)
		}
		checkPath(c, p[1:])
		checkPath(c, "M"+p[1:])
		checkPath(c, " "+p)
		checkPath(c, "/"+p)
	})

	// extended key texts
	valid := func(raw []byte) bool {
		if len(raw) != 78 {
			return false
		}
		v := binary.BigEndian.Uint32(raw)
		prv := v == netRefs[0].hdprv || v == netRefs[1].hdprv
		pub := v == netRefs[0].hdp || v == netRefs[1].hdp
		if !prv && !pub {
			return false
		}
		if raw[4] == 0 && !bytes.Equal(raw[5:13], make([]byte, 8)) {
			return false
		}
		if prv {
			d := new(big.Int).SetBytes(raw[46:])
			return raw[45] == 0 && d.Sign() > 0 && d.Cmp(curveN) < 0
		}
		if raw[45] != 2 && raw[45] != 3 {
			return false
		}
		_, ok := ref.Secp.LiftX(new(big.Int).SetBytes(raw[46:]), raw[45] == 3)
		return ok
	}
	tryText := func(c *mc.Ctx, what, text string, raw []byte, ok bool) {
		c.Step(1)
		k, err := bip32.NewHDKeyFromString(text)
		if err != nil {
			if ok {
				c.Fail("parse-refused", "%s: valid extended key %x (%s) is refused: %v", what, raw, text, err)
			}
			return
		}
		if !ok {
			c.Fail("parse-accepted", "%s: %s (%x) is accepted", what, text, raw)
		}
		c.Valid(1)
		found := false
		for i := range netRefs {
			found = found || hdText(k)[i] == text
		}
		if !found {
			c.Fail("parse-text", "%s: %s is printed as %v", what, text, hdText(k))
		}
		pub := k.PublicKey()
		if raw[45] != 0 && !bytes.Equal(pub.Serialize(), raw[45:]) {
			c.Fail("parse-key", "%s: %x has public key %x", what, raw, pub.Serialize())
		}
		n, err := k.Derive(1)
		if (err == nil) != (raw[4] < 255) {
			c.Fail("parse-derive", "%s: deriving a child of %s (depth %d): %v", what, text, raw[4], err)
		}
		if err == nil {
			h := &ref.HD{Chain: raw[13:45], Depth: int(raw[4])}
			if raw[45] == 0 {
				h.Priv = new(big.Int).SetBytes(raw[46:])
				h.Pub = ref.Secp.MulG(h.Priv)
			} else {
				h.Pub, _ = ref.Secp.LiftX(new(big.Int).SetBytes(raw[46:]), raw[45] == 3)
			}
			if w, wok := h.Child(1); wok {
				checkHD(c, what+" child", n, w)
			}
		}
	}
	base := func(c *mc.Ctx) []byte {
		node := roots[c.Pick("seed", r.Q(2, 6))]
		if c.Bool("child") {
			node = node.child(7 + hard).child(1)
		}
		ne := netRefs[c.Pick("network", 2)]
		if c.Bool("public") {
			return node.h.Neuter().Raw(ne.hdp)
		}
		return node.h.Raw(ne.hdprv)
	}
	r.Explore("fields", mc.Opts{}, func(c *mc.Ctx) {
		raw := base(c)
		switch c.Pick("field", 7) {
		case 0:
			v := []uint32{netRefs[0].hdprv, netRefs[0].hdp, netRefs[1].hdprv, netRefs[1].hdp, 0, 0xffffffff, 0x049d7cb2, 0x0488ade5, 0xe4ad8804, 0x04b24746}[c.Pick("version", 10)]
			binary.BigEndian.PutUint32(raw, v)
		case 1:
			raw[4] = []byte{0, 1, 2, 127, 128, 253, 254, 255}[c.Pick("depth", 8)]
		case 2:
			copy(raw[5:9], [][]byte{{0, 0, 0, 0}, {0, 0, 0, 1}, {1, 0, 0, 0}, {255, 255, 255, 255}}[c.Pick("fingerprint", 4)])
		case 3:
			copy(raw[9:13], [][]byte{{0, 0, 0, 0}, {0, 0, 0, 1}, {128, 0, 0, 0}, {255, 255, 255, 255}}[c.Pick("number", 4)])
		case 4:
			copy(raw[13:45], [][]byte{rep(0, 32), rep(255, 32), seq(1, 32)}[c.Pick("chain code", 3)])
		case 5:
			raw[45] = byte(c.Pick("prefix", 256))
		case 6:
			d := new(big.Int).Set(curveN)
			switch c.Pick("key", 10) {
			case 0:
				d.SetInt64(0)
			case 1:
				d.SetInt64(1)
			case 2:
				d.Sub(d, big.NewInt(1))
			case 3:
			case 4:
				d.Add(d, big.NewInt(1))
			case 5:
				d.Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
			case 6:
				d.Sub(ref.Secp.P, big.NewInt(1))
			case 7:
				d.Set(ref.Secp.P)
			case 8:
				d.Add(ref.Secp.P, big.NewInt(1))
			case 9:
				d.SetInt64(5) // not an x coordinate
			}
			copy(raw[46:], ref.B32(d))
		}
		tryText(c, "changed field", ref.HDText(raw), raw, valid(raw))
		c.State(raw)
	})
	r.Explore("bytes", mc.Opts{}, func(c *mc.Ctx) {
		raw := base(c)
		i := c.Pick("byte", 78)
		old := raw[i]
		vals := []byte{0, 1, 2, 3, 4, 255, old ^ 1, old ^ 0x80}
		raw[i] = vals[c.Pick("value", len(vals))]
		tryText(c, "changed byte", ref.HDText(raw), raw, valid(raw))
		c.State(raw)
	})
	r.Explore("lengths", mc.Opts{}, func(c *mc.Ctx) {
		raw := base(c)
		n := c.Pick("length", 120)
		x := cat(raw, rep(0, 60))[:n]
		tryText(c, "other length", ref.HDText(x), x, n == 78 && valid(x))
		x = cat(rep(0, n), raw)
		tryText(c, "zeros in front", ref.HDText(x), x, n == 0 && valid(x))
		x = cat(raw[:45], rep(0, n), raw[45:])
		tryText(c, "zeros in the middle", ref.HDText(x), x, n == 0 && valid(x))
		c.StateU(uint64(n))
	})
	r.Explore("characters", mc.Opts{}, func(c *mc.Ctx) {
		raw := base(c)
		t := ref.HDText(raw)
		i := c.Pick("position", len(t)+1)
		if i < len(t) {
			for ch := 0; ch < 256; ch++ {
				if byte(ch) != t[i] {
					tryText(c, "changed character", t[:i]+string([]byte{byte(ch)})+t[i+1:], raw, false)
				}
			}
			tryText(c, "deleted character", t[:i]+t[i+1:], raw, false)
			tryText(c, "truncated", t[:i], raw, false)
			if i+1 < len(t) && t[i] != t[i+1] {
				tryText(c, "swapped characters", t[:i]+t[i+1:i+2]+t[i:i+1]+t[i+2:], raw, false)
			}
		}
		for _, ch := range "1z0 \n" {
			tryText(c, "inserted character", t[:i]+string(ch)+t[i:], raw, false)
		}
		for k := 0; k < 8; k++ {
			// the checksum, bit by bit
			sum := ref.Sha256d(raw)[:4]
			sum[i%4] ^= 1 << uint(k)
			tryText(c, "wrong checksum", ref.B58Encode(cat(raw, sum)), raw, false)
		}
		c.StateS(t[:i])
	})
	r.Explore("chain-of-255", mc.Opts{}, func(c *mc.Ctx) {
		pub := c.Bool("public")
		h := *roots[0].h
		h.Depth, h.FP, h.Num = 250, rep(1, 4), 5
		v := netRefs[0].hdprv
		w := &h
		if pub {
			w = h.Neuter()
			v = netRefs[0].hdp
		}
		k, err := bip32.NewHDKeyFromString(ref.HDText(w.Raw(v)))
		if err != nil {
			c.Fail("parse-refused", "depth 250: %v", err)
		}
		for d := 251; d < 258; d++ {
			n, err := k.Derive(0)
			c.Step(1)
			if d > 255 {
				if err == nil {
					c.Fail("depth", "a key of depth %d is derived: %s", d, n.ToString(network.MainNet))
				}
				if p, err := k.DeriveByPath("m/0"); err == nil {
					c.Fail("depth", "a key of depth %d is derived by path: %s", d, p.ToString(network.MainNet))
				}
				continue
			}
			if err != nil {
				c.Fail("derive", "depth %d: %v", d, err)
			}
			w, _ = w.Child(0)
			checkHD(c, fmt.Sprint("depth ", d), n, w)
			k = n
		}
	})
}
