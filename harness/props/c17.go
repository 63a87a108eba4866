package props

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcore/bip39/words"
)

func init() { mc.Register("C17", c17) }

// mnemonicWords cuts entropy plus checksum into 11-bit indices, bit by bit.
func mnemonicWords(list []string, ent []byte) []string {
	bits := make([]byte, 0, 264)
	for _, b := range ent {
		for k := 7; k >= 0; k-- {
			bits = append(bits, b>>uint(k)&1)
		}
	}
	sum := ref.Sha256(ent)
	for k := 0; k < len(ent)/4; k++ {
		bits = append(bits, sum[0]>>uint(7-k)&1)
	}
	var o []string
	for i := 0; i < len(bits); i += 11 {
		n := 0
		for _, b := range bits[i : i+11] {
			n = n*2 + int(b)
		}
		o = append(o, list[n])
	}
	return o
}

// mnemonicEntropy inverts it; ok is false when the checksum, the count or a word is wrong.
func mnemonicEntropy(index map[string]int, ws []string) ([]byte, bool) {
	if len(ws)%3 != 0 || len(ws) < 12 || len(ws) > 24 {
		return nil, false
	}
	v := new(big.Int)
	for _, w := range ws {
		i, ok := index[w]
		if !ok {
			return nil, false
		}
		v.Lsh(v, 11)
		v.Or(v, big.NewInt(int64(i)))
	}
	cs := uint(len(ws) / 3)
	ent := make([]byte, len(ws)/3*4)
	new(big.Int).Rsh(v, cs).FillBytes(ent)
	sum := ref.Sha256(ent)
	want := int64(sum[0] >> (8 - cs))
	return ent, new(big.Int).And(v, big.NewInt(1<<cs-1)).Int64() == want
}

// pbkdf2ref is PBKDF2-HMAC-SHA512 for one block of output.
func pbkdf2ref(pw, salt []byte, iter int) []byte {
	u := hmac512(pw, cat(salt, []byte{0, 0, 0, 1}))
	t := clone(u)
	for i := 1; i < iter; i++ {
		u = hmac512(pw, u)
		for k := range t {
			t[k] ^= u[k]
		}
	}
	return t
}

func c17(r *mc.Run) {
	r.Assume("texts are in normalized form (the library applies no Unicode normalization) and words are separated by ASCII spaces")
	lists := []struct {
		name string
		list []string
		sum  string
		id   bip39.Wordlists
	}{
		{"English", words.English, "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda", bip39.ENGLISH},
		{"Chinese", words.Chinese, "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726", bip39.CHINESE},
		{"Japanese", words.Japanese, "2eed0aef492291e061633d7ad8117f1a2b03eb80a29d0e4e3117ac2528d05ffd", bip39.JAPANESE},
	}
	r.Explore("word-lists", mc.Opts{Serial: true}, func(c *mc.Ctx) {
		l := lists[c.Pick("list", len(lists))]
		c.Valid(1)
		if got := fmt.Sprintf("%x", sha256.Sum256([]byte(strings.Join(l.list, "\n")+"\n"))); got != l.sum || len(l.list) != 2048 {
			c.Fail("list", "the %s list (%d words, sha256 %s) is not the one BIP39 publishes (%s)", l.name, len(l.list), got, l.sum)
		}
		bip39.SetWordList(l.list)
		for i, w := range l.list {
			c.Step(1)
			if n, ok := bip39.GetWordIndex(w); !ok || n != i {
				c.Fail("index", "%s word %d %q has index %d, %v", l.name, i, w, n, ok)
			}
		}
		if _, ok := bip39.GetWordIndex("xyzzy"); ok {
			c.Fail("index", "an unlisted word has an index")
		}
		c.StateS(l.name)
		// a generated mnemonic is one of its list
		b, err := bip39.NewBIP39(l.id)
		if err != nil {
			c.Fail("new", "NewBIP39: %v", err)
		}
		index := map[string]int{}
		for i, w := range l.list {
			index[w] = i
		}
		if _, ok := mnemonicEntropy(index, strings.Split(b.ToString(), " ")); !ok {
			c.Fail("new", "NewBIP39 gives the invalid mnemonic %q", b.ToString())
		}
		if !bytes.Equal(b.Seed(), pbkdf2ref([]byte(b.ToString()), []byte("mnemonicTREZOR"), 2048)) {
			c.Fail("new-seed", "Seed() of %q", b.ToString())
		}
		bip39.SetWordList(words.English)
	})
	sizes := []int{16, 20, 24, 28, 32}
	for li := range lists {
		l := lists[li]
		index := map[string]int{}
		for i, w := range l.list {
			index[w] = i
		}
		bip39.SetWordList(l.list)
		// judge compares every decoder with the reference on one sentence
		judge := func(c *mc.Ctx, what, text string, ws []string, exact bool) {
			c.Step(1)
			ent, ok := mnemonicEntropy(index, ws)
			e1, err1 := bip39.EntropyFromMnemonic(text)
			e2, err2 := bip39.MnemonicToByteArray(text, true)
			e3, err3 := bip39.MnemonicToByteArray(text)
			if err1 == nil && (!ok || !bytes.Equal(e1, ent)) {
				c.Fail("entropy", "%s: EntropyFromMnemonic(%q) = %x, want %x (valid %v)", what, text, e1, ent, ok)
			}
			if err2 == nil && (!ok || !bytes.Equal(e2, ent)) {
				c.Fail("raw", "%s: MnemonicToByteArray(%q, raw) = %x, want %x (valid %v)", what, text, e2, ent, ok)
			}
			if err3 == nil {
				v := new(big.Int).SetBytes(ent)
				cs := uint(len(ent) / 4)
				v.Lsh(v, cs)
				v.Or(v, big.NewInt(int64(ref.Sha256(ent)[0]>>(8-cs))))
				want := make([]byte, len(ent)+1)
				v.FillBytes(want)
				if !ok || !bytes.Equal(e3, want) {
					c.Fail("bytes", "%s: MnemonicToByteArray(%q) = %x, want %x (valid %v)", what, text, e3, want, ok)
				}
			}
			if ok && exact && (err1 != nil || err2 != nil || err3 != nil) {
				c.Fail("refused", "%s: valid mnemonic %q is refused: %v, %v, %v", what, text, err1, err2, err3)
			}
			if ok {
				c.Valid(1)
			}
			listed := len(ws)%3 == 0 && len(ws) >= 12 && len(ws) <= 24
			for _, w := range ws {
				_, in := index[w]
				listed = listed && in
			}
			if v := bip39.IsMnemonicValid(text); v && !listed || exact && !v && listed {
				c.Fail("valid", "%s: IsMnemonicValid(%q) = %v", what, text, v)
			}
			if !ok {
				if s, err := bip39.NewSeedWithErrorChecking(text, ""); err == nil {
					c.Fail("seed-accepted", "%s: NewSeedWithErrorChecking accepts %q: %x", what, text, s)
				}
			}
		}
		r.Explore("entropy-"+l.name, mc.Opts{}, func(c *mc.Ctx) {
			n := sizes[c.Pick("size", 5)]
			pat := c.Pick("pattern", 6)
			bit := c.Pick("flip", n*8+1)
			ent := make([]byte, n)
			for i := range ent {
				ent[i] = []byte{0, 0xff, 0x80, 0x7f, byte(i), 0}[pat]
			}
			if pat == 5 {
				ent[n-1] = 1
			}
			if bit > 0 {
				ent[(bit-1)/8] ^= 0x80 >> uint((bit-1)%8)
			}
			in := make([]byte, n, n+8)
			copy(in, ent)
			c.State(ent)
			c.Step(1)
			m, err := bip39.NewMnemonic(in)
			want := mnemonicWords(l.list, ent)
			if err != nil || m != strings.Join(want, " ") {
				c.Fail("mnemonic", "NewMnemonic(%x) = %q, %v, want %q", ent, m, err, want)
			}
			if !bytes.Equal(in[:cap(in)], cat(ent, rep(0, 8))) {
				c.Fail("mutated", "NewMnemonic changes its argument")
			}
			judge(c, "round trip", m, want, true)
			if bit < 2 {
				for _, pw := range []string{"", "TREZOR", strings.Repeat("p", 117), strings.Repeat("long", 80), "\x00", "é", " ", "  p  q ", "\tp\n", "p\x00", "P", "mnemonic", "\u3000p"} {
					w := pbkdf2ref([]byte(m), []byte("mnemonic"+pw), 2048)
					if s := bip39.NewSeed(m, pw); !bytes.Equal(s, w) {
						c.Fail("seed", "NewSeed(%q, %q) = %x, want %x", m, pw, s, w)
					}
					if s, err := bip39.NewSeedWithErrorChecking(m, pw); err != nil || !bytes.Equal(s, w) {
						c.Fail("seed-checked", "NewSeedWithErrorChecking(%q, %q) = %x, %v, want %x", m, pw, s, err, w)
					}
				}
			}
		})
		// the seed is that of the text as given
		r.Explore("seed-texts-"+l.name, mc.Opts{}, func(c *mc.Ctx) {
			n := sizes[c.Pick("size", 5)]
			m := strings.Join(mnemonicWords(l.list, seq(byte(n), n)), " ")
			texts := []string{m, " " + m, m + " ", strings.Replace(m, " ", "  ", 1), strings.Replace(m, " ", "  ", -1), strings.Replace(m, " ", "\t", -1), m + "\n", strings.ToUpper(m), strings.ToUpper(m[:1]) + m[1:],
				"", " ", "x", m[:len(m)-1], strings.Repeat(m+" ", 4), strings.Replace(m, " ", "\u3000", -1), "\x00" + m, "\xff\xfe"}
			text := texts[c.Pick("text", len(texts))]
			pw := []string{"", "TREZOR", " p "}[c.Pick("password", 3)]
			w := pbkdf2ref([]byte(text), []byte("mnemonic"+pw), 2048)
			c.Step(1)
			c.Valid(1)
			c.State(w)
			if s := bip39.NewSeed(text, pw); !bytes.Equal(s, w) {
				c.Fail("seed", "NewSeed(%q, %q) = %x, want %x", text, pw, s, w)
			}
			if s, err := bip39.NewSeedWithErrorChecking(text, pw); err == nil && !bytes.Equal(s, w) {
				c.Fail("seed-checked", "NewSeedWithErrorChecking(%q, %q) = %x, want %x", text, pw, s, w)
			}
		})
		sample := func(n, pat int) []string {
			ent := make([]byte, n)
			for i := range ent {
				ent[i] = []byte{0, 0xff, byte(i*37 + 5)}[pat]
			}
			return mnemonicWords(l.list, ent)
		}
		positions := func(c *mc.Ctx, ws []string) int {
			if li == 0 {
				return c.Pick("position", len(ws))
			}
			// in the other lists: the ends and the middle
			return []int{0, len(ws) / 2, len(ws) - 2, len(ws) - 1}[c.Pick("position", 4)]
		}
		r.Explore("substitution-"+l.name, mc.Opts{}, func(c *mc.Ctx) {
			n := sizes[c.Pick("size", 5)]
			ws := sample(n, c.Pick("pattern", 3))
			p := positions(c, ws)
			c.StateU(uint64(n), uint64(p))
			for _, w := range l.list {
				x := append([]string{}, ws...)
				x[p] = w
				if p < len(ws)-1 && r.Quick() && li > 0 && index[w]%4 != 0 {
					continue
				}
				judge(c, fmt.Sprint("word ", p), strings.Join(x, " "), x, true)
			}
		})
		r.Explore("counts-"+l.name, mc.Opts{}, func(c *mc.Ctx) {
			n := c.Pick("count", 28)
			ws := make([]string, n)
			from := sample(32, c.Pick("pattern", 3))
			for i := range ws {
				ws[i] = from[i%len(from)]
			}
			judge(c, "count", strings.Join(ws, " "), ws, true)
			if n > 0 {
				for _, w := range l.list { // some last word makes the checksum right
					ws[n-1] = w
					judge(c, "count", strings.Join(ws, " "), ws, true)
				}
			}
			c.StateU(uint64(n))
		})
		r.Explore("sizes-"+l.name, mc.Opts{}, func(c *mc.Ctx) {
			n := c.Pick("bytes", 70)
			ent := rep(byte(7*c.Pick("pattern", 3)), n)
			m, err := bip39.NewMnemonic(ent)
			c.Step(1)
			ok := n >= 16 && n <= 32 && n%4 == 0
			if (err == nil) != ok {
				c.Fail("size", "NewMnemonic of %d bytes: %q, %v", n, m, err)
			}
			c.StateU(uint64(n))
		})
		r.Explore("spellings-"+l.name, mc.Opts{}, func(c *mc.Ctx) {
			n := sizes[c.Pick("size", 5)]
			ws := sample(n, c.Pick("pattern", 3))
			p := positions(c, ws)
			w := ws[p]
			alt := []string{"", w + ",", w + "a", "x" + w, w[:len(w)-1], strings.ToUpper(w), strings.Title(w), "0", "-", "\x00", "\xff", w + "\x00", w + w}
			if li == 0 {
				alt = append(alt, words.Chinese[0], words.Japanese[0], w[:3])
			} else {
				alt = append(alt, words.English[0])
			}
			for _, a := range alt {
				x := append([]string{}, ws...)
				x[p] = a
				var eff []string // as separated by spaces
				for _, y := range x {
					if y != "" {
						eff = append(eff, y)
					}
				}
				judge(c, "spelling", strings.Join(x, " "), eff, false)
			}
			// other white space: whatever is accepted must be the same entropy, by every function
			for _, sep := range []string{"  ", "   ", "\t", "\n", " \n ", "\r\n", "\u3000", "-", ",", ""} {
				for _, pre := range []string{"", " ", "   ", "\n", strings.Repeat(" ", 6), strings.Repeat(" ", 9), strings.Repeat(" ", 12)} {
					left, right := strings.Join(ws[:p], " "), strings.Join(ws[p:], " ")
					if p == 0 {
						left = ""
					}
					text := pre + left + sep + right
					judge(c, "white space", text, strings.Fields(text), false)
					text = strings.Join(ws, sep) + pre
					judge(c, "white space", text, strings.Fields(text), false)
				}
			}
			c.StateU(uint64(n), uint64(p))
		})
		if li == 0 {
			r.Explore("last-two-words", mc.Opts{}, func(c *mc.Ctx) {
				n := sizes[c.Pick("size", r.Q(2, 5))]
				ws := sample(n, c.Pick("pattern", r.Q(1, 3)))
				k := c.Pick("block", 128)
				for i := k * 16; i < k*16+r.Q(1, 16); i++ {
					for j := 0; j < 2048; j++ {
						ws[len(ws)-2], ws[len(ws)-1] = l.list[i], l.list[j]
						judge(c, "last two words", strings.Join(ws, " "), ws, true)
					}
				}
				c.StateU(uint64(n), uint64(k))
			})
			r.Explore("swaps", mc.Opts{}, func(c *mc.Ctx) {
				ws := sample(sizes[c.Pick("size", 5)], 2)
				p := c.Pick("position", len(ws))
				for q := range ws {
					x := append([]string{}, ws...)
					x[p], x[q] = x[q], x[p]
					judge(c, "swapped words", strings.Join(x, " "), x, true)
					y := append(append(append([]string{}, ws[:q]...), ws[p]), ws[q:]...)
					judge(c, "inserted word", strings.Join(y, " "), y, true)
					z := append(append([]string{}, ws[:q]...), ws[q+1:]...)
					judge(c, "deleted word", strings.Join(z, " "), z, true)
				}
				c.StateU(uint64(len(ws)), uint64(p))
			})
		}
		// every sentence of equal words, every pair of words alternating with a stride
		r.Explore("uniform-"+l.name, mc.Opts{}, func(c *mc.Ctx) {
			n := 12 + 3*c.Pick("words", 5)
			k := c.Pick("block", 64)
			for i := k * 32; i < k*32+32; i++ {
				ws := make([]string, n)
				for j := range ws {
					ws[j] = l.list[i]
				}
				judge(c, "uniform", strings.Join(ws, " "), ws, true)
				for d := 1; d < 2048; d = d*2 + 1 {
					for j := range ws {
						ws[j] = l.list[(i+j*d)%2048]
					}
					judge(c, "stride", strings.Join(ws, " "), ws, true)
				}
			}
			c.StateU(uint64(n), uint64(k))
		})
	}
	bip39.SetWordList(words.English)
}
