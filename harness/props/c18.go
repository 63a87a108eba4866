package props

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"io"
	"strings"
	"time"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcore/bip39/words"
)

func init() { mc.Register("C18", c18) }

// stream is a deterministic random source: a fixed byte pattern with one bit flipped, handing out at most chunk bytes
// a read, and counting what was taken.
type stream struct {
	pat   int
	flip  int
	chunk int
	pos   int
}

func (s *stream) at(i int) byte {
	var b byte
	switch s.pat {
	case 0:
		b = 0
	case 1:
		b = 0xff
	case 2:
		b = byte(i*i*7 + i*3 + 1)
	case 3:
		b = byte(i)
	}
	if s.flip >= 0 && s.flip/8 == i {
		b ^= 1 << uint(s.flip%8)
	}
	return b
}

func (s *stream) Read(p []byte) (int, error) {
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	for i := 0; i < n; i++ {
		p[i] = s.at(s.pos + i)
	}
	s.pos += n
	return n, nil
}

// with runs f with the random source replaced.
func with(src io.Reader, f func()) {
	old := rand.Reader
	rand.Reader = src
	defer func() { rand.Reader = old }()
	f()
}

type draw struct {
	name string
	bits int
	f    func() (string, error)
}

func c18(r *mc.Run) {
	r.Assume("the random source is observed at crypto/rand.Reader; its failure ends the process (crypto/rand) and is not explored")
	var draws []draw
	for _, b := range []int{128, 160, 192, 224, 256} {
		b := b
		draws = append(draws, draw{fmt.Sprintf("NewEntropy(%d)", b), b, func() (string, error) {
			e, err := bip39.NewEntropy(b)
			return string(e), err
		}})
	}
	draws = append(draws, draw{"NewHDKeyRand", 128, func() (string, error) {
		k, err := bip32.NewHDKeyRand()
		if err != nil {
			return "", err
		}
		return k.ToString(network.MainNet), nil
	}})
	for _, l := range []bip39.Wordlists{bip39.ENGLISH, bip39.CHINESE, bip39.JAPANESE} {
		l := l
		draws = append(draws, draw{fmt.Sprintf("NewBIP39(%d)", l), 128, func() (string, error) {
			b, err := bip39.NewBIP39(l)
			if err != nil {
				return "", err
			}
			return b.ToString(), nil
		}})
	}
	get := func(c *mc.Ctx, d draw, src *stream) string {
		var o string
		var err error
		with(src, func() { o, err = d.f() })
		c.Step(1)
		if err != nil {
			c.Fail("error", "%s: %v", d.name, err)
		}
		return o
	}
	serial := mc.Opts{Serial: true}

	// under a fixed clock, draws from the real source differ
	r.Explore("frozen-clock", serial, func(c *mc.Ctx) {
		d := draws[c.Pick("draw", len(draws))]
		n := r.Q(20, 200)
		c.Valid(1)
		seen := map[string]int{}
		var t0, t1 time.Time
		check := func(i int) {
			o, err := d.f()
			c.Step(1)
			if err != nil {
				c.Fail("error", "%s: %v", d.name, err)
			}
			if k, dup := seen[o]; dup {
				c.Fail("repeat", "%s: draws %d and %d under the same clock are equal: %x", d.name, k, i, o)
			}
			seen[o] = i
		}
		// repeatedly at one instant, and again in a second world at the same instant
		bubble(func() {
			t0 = time.Now()
			for i := 0; i < n; i++ {
				check(i)
			}
		})
		bubble(func() {
			t1 = time.Now()
			for i := n; i < 2*n; i++ {
				check(i)
			}
		})
		if !t0.Equal(t1) {
			panic("the clock is not frozen")
		}
		c.StateS(d.name)
	})
	// the outcome is determined by the random source, and by nothing else; every bit asked for matters
	r.Explore("deterministic-source", serial, func(c *mc.Ctx) {
		d := draws[c.Pick("draw", len(draws))]
		pat := c.Pick("pattern", 4)
		chunk := []int{0, 1, 7}[c.Pick("short reads", 3)]
		src := &stream{pat: pat, flip: -1, chunk: chunk}
		base := get(c, d, src)
		used := src.pos
		c.Valid(1)
		if used*8 < d.bits {
			c.Fail("source", "%s takes %d bytes from the secure random source", d.name, used)
		}
		again := &stream{pat: pat, flip: -1, chunk: chunk}
		if o := get(c, d, again); o != base {
			c.Fail("other-input", "%s: two draws with the same random bytes differ", d.name)
		}
		var o string
		bubble(func() { o = get(c, d, &stream{pat: pat, flip: -1, chunk: chunk}) })
		if o != base {
			c.Fail("other-input", "%s: the clock changes the outcome of a draw with the same random bytes", d.name)
		}
		distinct := map[string]bool{base: true}
		step := 1
		if used > 64 && r.Quick() {
			step = 5
		}
		tried := 0
		for b := 0; b < used*8; b += step {
			distinct[get(c, d, &stream{pat: pat, flip: b, chunk: chunk})] = true
			tried++
		}
		want := d.bits
		if tried < want {
			want = tried
		}
		if len(distinct) < want+1 {
			c.Fail("entropy", "%s: flipping each of the %d random bits it takes gives only %d different outcomes", d.name, tried, len(distinct))
		}
		c.StateU(uint64(pat), uint64(chunk), uint64(used))
		c.StateS(base)
	})
	// sizes
	r.Explore("sizes", serial, func(c *mc.Ctx) {
		n := c.Pick("bits", 602) - 300
		e, err := bip39.NewEntropy(n)
		c.Step(1)
		ok := n >= 128 && n <= 256 && n%32 == 0
		if (err == nil) != ok {
			c.Fail("size", "NewEntropy(%d): %x, %v", n, e, err)
		}
		if ok && len(e) != n/8 {
			c.Fail("length", "NewEntropy(%d) has %d bytes", n, len(e))
		}
		if !ok && len(e) > 0 {
			c.Fail("length", "NewEntropy(%d) fails and returns %x", n, e)
		}
		c.StateU(uint64(n + 1000))
	})
	// what is drawn is what is used: the mnemonic encodes the entropy, the random key is a master key
	r.Explore("use", serial, func(c *mc.Ctx) {
		pat := c.Pick("pattern", 4)
		flip := c.Pick("flip", 129) - 1
		var b *bip39.BIP39
		var err error
		src := &stream{pat: pat, flip: flip}
		with(src, func() { b, err = bip39.NewBIP39(bip39.ENGLISH) })
		if err != nil {
			c.Fail("error", "NewBIP39: %v", err)
		}
		c.Valid(1)
		var raw []byte
		for i := 0; i < 16; i++ {
			raw = append(raw, src.at(i))
		}
		index := map[string]int{}
		for i, w := range words.English {
			index[w] = i
		}
		ent, ok := mnemonicEntropy(index, strings.Split(b.ToString(), " "))
		if !ok {
			c.Fail("mnemonic", "NewBIP39 gives %q", b.ToString())
		}
		if bytes.Equal(ent, raw) {
			c.Outcome("entropy is the random bytes")
		} else {
			c.Outcome("entropy is a function of the random bytes")
		}
		var k *bip32.HDKey
		ks := &stream{pat: pat, flip: flip}
		with(ks, func() { k, err = bip32.NewHDKeyRand() })
		if err != nil {
			c.Fail("error", "NewHDKeyRand: %v", err)
		}
		t := k.ToString(network.MainNet)
		rd, _ := ref.B58Decode(t)
		if len(rd) != 82 || rd[4] != 0 || !bytes.Equal(rd[5:13], make([]byte, 8)) {
			c.Fail("master", "NewHDKeyRand gives %s, not a master key", t)
		}
		c.State(ent)
	})
	bip39.SetWordList(words.English)
}
