package props

import (
	"bytes"
	"fmt"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcrypto"
)

func init() { mc.Register("C26", c26) }

func dsha(b []byte) []byte { return ref.Sha256(ref.Sha256(b)) }

// refMerkle is Bitcoin's ComputeMerkleRoot, written from its definition.
func refMerkle(leaves [][]byte) []byte {
	if len(leaves) == 0 {
		return nil
	}
	row := leaves
	for len(row) > 1 {
		var next [][]byte
		for i := 0; i < len(row); i += 2 {
			j := i + 1
			if j == len(row) {
				j = i
			}
			next = append(next, dsha(append(append([]byte{}, row[i]...), row[j]...)))
		}
		row = next
	}
	return row[0]
}

// folded is what a path says: the two halves hashed at every step. It is the meaning of the path for the leaf; ok is
// false when the path does not lead from the leaf to the root.
func folded(leaf, root []byte, path []xcrypto.Node) (steps [][]byte, ok bool) {
	h := leaf
	for _, n := range path {
		if len(h) > 32 || len(n.Hash) > 32 {
			return nil, false
		}
		var b [64]byte
		switch n.Position {
		case "left":
			copy(b[:32], n.Hash)
			copy(b[32:], h)
		case "right":
			s := n.Hash
			if s == nil {
				s = h // the spelling of "no sibling"
			}
			copy(b[:32], h)
			copy(b[32:], s)
		default:
			return nil, false
		}
		steps = append(steps, b[:])
		h = dsha(b[:])
		if !bytes.Equal(h, n.Parent) {
			return nil, false
		}
	}
	return steps, bytes.Equal(h, root)
}

func leafN(i int) []byte { return ref.Sha256([]byte(fmt.Sprintf("leaf %d", i))) }

func clonePath(p []xcrypto.Node) []xcrypto.Node {
	q := make([]xcrypto.Node, len(p))
	for i, n := range p {
		q[i] = xcrypto.Node{Hash: append([]byte(nil), n.Hash...), Parent: clone(n.Parent), Position: n.Position}
		if n.Hash != nil && q[i].Hash == nil {
			q[i].Hash = []byte{}
		}
	}
	return q
}

// checkTree checks the root, every leaf's proof against every leaf, and the proofs of leaves that are not there.
func checkTree(c *mc.Ctx, leaves [][]byte, all bool) {
	in := make([][]byte, len(leaves))
	for i := range leaves {
		in[i] = append([]byte{}, leaves[i]...)
	}
	m := xcrypto.NewMerkle(in)
	root := m.Root()
	want := refMerkle(leaves)
	if !bytes.Equal(root, want) && !(len(leaves) == 0 && bytes.Equal(root, make([]byte, 32))) {
		c.Fail("root", "%d leaves: root %x, want %x", len(leaves), root, want)
		return
	}
	for i, leaf := range leaves {
		if !all && i != 0 && i < len(leaves)-3 && i%((len(leaves)+6)/7) != 0 {
			continue
		}
		p := m.Proofs(append([]byte{}, leaf...))
		c.Step(1)
		if !m.Verify(leaf, root, p) {
			c.Fail("own-proof", "%d leaves: the proof of leaf %d does not verify", len(leaves), i)
		}
		if _, ok := folded(leaf, want, p); !ok {
			c.Fail("proof-wrong", "%d leaves: the path of leaf %d does not lead to the root by itself", len(leaves), i)
		}
		for j, other := range leaves {
			if !all && j > 3 && j < len(leaves)-3 && j != i-1 && j != i+1 {
				continue
			}
			if !bytes.Equal(other, leaf) && m.Verify(other, root, p) {
				c.Fail("other-leaf", "%d leaves: the proof of leaf %d verifies for leaf %d", len(leaves), i, j)
			}
		}
		for _, other := range [][]byte{leafN(-1), root, nil, {}, make([]byte, 32), leaf[:31], append(append([]byte{}, leaf...), 0)} {
			if !bytes.Equal(other, leaf) && !(len(other) < 32 && bytes.Equal(append(append([]byte{}, other...), make([]byte, 32-len(other))...), leaf)) && m.Verify(other, root, p) {
				c.Fail("other-leaf", "%d leaves: the proof of leaf %d verifies for %x", len(leaves), i, other)
			}
		}
		for _, other := range [][]byte{leafN(-1), nil, {}, make([]byte, 32), leaf} {
			if !bytes.Equal(other, root) && m.Verify(leaf, other, p) {
				c.Fail("other-root", "%d leaves: the proof of leaf %d verifies against %x", len(leaves), i, other)
			}
		}
	}
	for i := range leaves {
		if !bytes.Equal(in[i], leaves[i]) {
			c.Fail("input-changed", "%d leaves: leaf %d was changed from %x to %x", len(leaves), i, leaves[i], in[i])
		}
	}
	strangers := [][]byte{leafN(-1), nil, {}, make([]byte, 32)}
	if len(leaves) > 0 {
		strangers = append(strangers, leaves[0][:31], append(append([]byte{}, leaves[0]...), 0), leaves[len(leaves)-1][1:])
	}
	for _, s := range strangers {
		if len(leaves) == 0 && len(s) == 0 {
			continue // the root of no leaves is no leaf
		}
		if p := m.Proofs(s); len(p) > 0 {
			c.Fail("stranger", "%d leaves: %x is not a leaf and has a proof of %d nodes", len(leaves), s, len(p))
		} else if m.Verify(s, root, p) {
			c.Fail("stranger", "%d leaves: %x is not a leaf and its proof verifies", len(leaves), s)
		}
	}
	c.State(root)
}

func c26(r *mc.Run) {
	maxN := r.Q(17, 33)
	// All lists: n leaves, all distinct or with the leaf at i copied to j, or every leaf the same.
	r.Explore("lists", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("n", maxN+1)
		var leaves [][]byte
		for i := 0; i < n; i++ {
			leaves = append(leaves, leafN(i))
		}
		c.Valid(1)
		if n < 2 {
			checkTree(c, leaves, true)
			return
		}
		i := c.Pick("i", n)
		if i == 0 {
			same := make([][]byte, n)
			for k := range same {
				same[k] = leafN(0)
			}
			checkTree(c, same, true)
		}
		for j := i; j < n; j++ {
			l := append([][]byte{}, leaves...)
			l[j] = l[i]
			checkTree(c, l, true)
		}
	})
	// All patterns over three leaf values, one of them all zeros, up to the length bound.
	vals := [][]byte{leafN(1), make([]byte, 32), append(append([]byte{}, leafN(2)[:31]...), 0)}
	maxP := r.Q(7, 10)
	r.Explore("patterns", mc.Opts{}, func(c *mc.Ctx) {
		n := 1 + c.Pick("n", maxP)
		var leaves [][]byte
		for i := 0; i < n; i++ {
			leaves = append(leaves, vals[c.Pick("leaf", 3)])
		}
		c.Valid(1)
		in := leaves
		m := xcrypto.NewMerkle(append([][]byte{}, in...))
		if !bytes.Equal(m.Root(), refMerkle(in)) {
			c.Fail("root", "pattern %x: root %x, want %x", in, m.Root(), refMerkle(in))
		}
		for i, v := range vals {
			there := false
			for _, l := range leaves {
				there = there || bytes.Equal(l, v)
			}
			p := m.Proofs(v)
			if ok := m.Verify(v, m.Root(), p); ok != there {
				c.Fail("pattern", "pattern %x: value %d is a leaf: %v, its proof verifies: %v", in, i, there, ok)
			}
			for k, o := range vals {
				if k != i && there && m.Verify(o, m.Root(), p) && n > 1 {
					c.Fail("pattern", "pattern %x: the proof of value %d verifies for value %d", in, i, k)
				}
			}
		}
		c.Step(1)
	})
	// Long lists.
	var long []int
	for k := 5; k <= r.Q(11, 16); k++ {
		long = append(long, 1<<k-1, 1<<k, 1<<k+1, 1<<k+1<<(k-1), 1<<k+1<<(k-1)+1)
	}
	r.Explore("long-lists", mc.Opts{}, func(c *mc.Ctx) {
		n := long[c.Pick("n", len(long))]
		leaves := make([][]byte, n)
		for i := range leaves {
			leaves[i] = leafN(i)
		}
		c.Valid(1)
		checkTree(c, leaves, false)
	})
	// Every change of every proof.
	r.Explore("mutations", mc.Opts{}, func(c *mc.Ctx) {
		n := 1 + c.Pick("n", maxN)
		i := c.Pick("leaf", n)
		leaves := make([][]byte, n)
		for k := range leaves {
			leaves[k] = leafN(k)
		}
		m := xcrypto.NewMerkle(leaves)
		root := m.Root()
		leaf := leaves[i]
		orig := m.Proofs(leaf)
		osteps, ok := folded(leaf, root, orig)
		if !ok {
			c.Fail("proof-wrong", "%d leaves: the path of leaf %d does not lead to the root", n, i)
			return
		}
		c.Valid(1)
		try := func(what string, l, rt []byte, p []xcrypto.Node) {
			c.Step(1)
			if !m.Verify(l, rt, p) {
				return
			}
			steps, ok := folded(l, rt, p)
			if ok && bytes.Equal(rt, root) && len(steps) == len(osteps) {
				same := true
				for k := range steps {
					same = same && bytes.Equal(steps[k], osteps[k])
				}
				if same {
					c.Outcome("another spelling")
					return
				}
			}
			c.Fail("mutation", "%d leaves, leaf %d: %s, and the proof still verifies", n, i, what)
		}
		var inj [][]byte
		inj = append(inj, nil, []byte{}, make([]byte, 32), leaf, root)
		bits := []byte{1, 0x80}
		if !r.Quick() {
			bits = []byte{1, 2, 4, 8, 16, 32, 64, 128}
		}
		flip := func(what string, b []byte, f func([]byte) ([]byte, []byte, []xcrypto.Node)) {
			for k := range b {
				for _, x := range bits {
					q := append([]byte{}, b...)
					q[k] ^= x
					l, rt, p := f(q)
					try(fmt.Sprintf("%s byte %d xor %#x", what, k, x), l, rt, p)
				}
			}
			for _, q := range [][]byte{b[:len(b)-1], append(append([]byte{}, b...), 0), append(append([]byte{}, b...), b...), append([]byte{0}, b...), b[1:]} {
				l, rt, p := f(q)
				try(fmt.Sprintf("%s changed to %x", what, q), l, rt, p)
			}
			for _, q := range inj {
				if !bytes.Equal(q, b) {
					l, rt, p := f(q)
					try(fmt.Sprintf("%s replaced by %x", what, q), l, rt, p)
				}
			}
		}
		flip("leaf", leaf, func(q []byte) ([]byte, []byte, []xcrypto.Node) { return q, root, orig })
		flip("root", root, func(q []byte) ([]byte, []byte, []xcrypto.Node) { return leaf, q, orig })
		for d := range orig {
			flip(fmt.Sprintf("hash of node %d", d), orig[d].Hash, func(q []byte) ([]byte, []byte, []xcrypto.Node) {
				p := clonePath(orig)
				p[d].Hash = q
				return leaf, root, p
			})
			flip(fmt.Sprintf("parent of node %d", d), orig[d].Parent, func(q []byte) ([]byte, []byte, []xcrypto.Node) {
				p := clonePath(orig)
				p[d].Parent = q
				return leaf, root, p
			})
			for _, pos := range []string{"left", "right", "", "LEFT", "Left", "middle"} {
				p := clonePath(orig)
				if p[d].Position != pos {
					p[d].Position = pos
					try(fmt.Sprintf("position of node %d changed to %q", d, pos), leaf, root, p)
				}
			}
			// A false sibling with the parent recomputed to match.
			p := clonePath(orig)
			p[d].Hash = leafN(-1)
			h := leaf
			if d > 0 {
				h = orig[d-1].Parent
			}
			if p[d].Position == "left" {
				p[d].Parent = dsha(append(append([]byte{}, p[d].Hash...), h...))
			} else {
				p[d].Parent = dsha(append(append([]byte{}, h...), p[d].Hash...))
			}
			try(fmt.Sprintf("another sibling at node %d", d), leaf, root, p)
			// The rest recomputed too: it now leads to another root.
			for e := d + 1; e < len(p); e++ {
				if p[e].Position == "left" {
					p[e].Parent = dsha(append(append([]byte{}, p[e].Hash...), p[e-1].Parent...))
				} else {
					p[e].Parent = dsha(append(append([]byte{}, p[e-1].Parent...), p[e].Hash...))
				}
			}
			try(fmt.Sprintf("another sibling at node %d and the path recomputed", d), leaf, root, p)
			try("cut after node", leaf, root, clonePath(orig[:d]))
			try("cut before node", leaf, root, clonePath(orig[d+1:]))
			without := append(clonePath(orig[:d]), clonePath(orig[d+1:])...)
			try("without node", leaf, root, without)
			twice := append(clonePath(orig[:d+1]), clonePath(orig[d:])...)
			try("node twice", leaf, root, twice)
			for e := d + 1; e < len(orig); e++ {
				p := clonePath(orig)
				p[d], p[e] = p[e], p[d]
				try("nodes swapped", leaf, root, p)
			}
			for k := range leaves {
				if o := m.Proofs(leaves[k]); k != i && d < len(o) {
					p := clonePath(orig)
					p[d] = o[d]
					if !bytes.Equal(o[d].Hash, orig[d].Hash) || o[d].Position != orig[d].Position || !bytes.Equal(o[d].Parent, orig[d].Parent) {
						try("another leaf's node", leaf, root, p)
					}
				}
			}
		}
		for _, extra := range []xcrypto.Node{{}, {Position: "left"}, {Position: "right"}, {Hash: root, Parent: root, Position: "right"}, {Hash: leaf, Parent: dsha(append(append([]byte{}, root...), leaf...)), Position: "right"}} {
			try("a node appended", leaf, root, append(clonePath(orig), extra))
			try("a node prepended", leaf, root, append([]xcrypto.Node{extra}, clonePath(orig)...))
		}
		// Nodes that keep the hash as it is, or seem to, anywhere in the path.
		for d := 0; d <= len(orig); d++ {
			h := leaf
			if d > 0 {
				h = orig[d-1].Parent
			}
			for _, pos := range []string{"", "left", "right", "none", "top"} {
				for _, sib := range [][]byte{nil, {}, h, leaf, root, make([]byte, 32)} {
					for _, par := range [][]byte{h, nil, root} {
						p := append(clonePath(orig[:d]), xcrypto.Node{Hash: sib, Parent: par, Position: pos})
						try(fmt.Sprintf("an idle %q node before node %d", pos, d), leaf, root, append(p, clonePath(orig[d:])...))
					}
				}
			}
		}
		if len(orig) > 0 {
			try("no path", leaf, root, nil)
		}
		// Another tree's root: one leaf more, one less, one replaced.
		more := append(append([][]byte{}, leaves...), leafN(n))
		repl := append([][]byte{}, leaves...)
		repl[(i+1)%n] = leafN(-2)
		for k, l := range [][][]byte{more, leaves[:n-1], repl} {
			if o := refMerkle(l); !bytes.Equal(o, root) {
				try(fmt.Sprintf("root of another list (%d)", k), leaf, o, orig)
			}
		}
		c.StateU(uint64(n), uint64(i))
	})
	// The paths of trees too big to be built: every length, with the sibling on each side and missing, and the ways to spoil one.
	r.Explore("deep-paths", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("depth", r.Q(33, 65))
		kind := c.Pick("kind", 4)
		c.Valid(1)
		m := xcrypto.NewMerkle([][]byte{leafN(0)})
		leaf := leafN(1)
		h := leaf
		var path []xcrypto.Node
		for i := 0; i < n; i++ {
			sib := leafN(1000 + i)
			var left, right []byte
			nd := xcrypto.Node{Hash: sib, Position: "right"}
			left, right = h, sib
			switch {
			case kind == 1 || kind == 2 && i%2 == 0:
				nd.Position = "left"
				left, right = sib, h
			case kind == 3 && i%3 == 2:
				nd.Hash = nil
				right = h
			}
			h = dsha(append(clone(left), right...))
			nd.Parent = h
			path = append(path, nd)
		}
		c.Step(1)
		if !m.Verify(leaf, h, path) {
			c.Fail("deep", "a right path of %d nodes does not verify", n)
		}
		for d := 0; d < n; d++ {
			p := clonePath(path)
			if kind == 3 && d%3 == 2 {
				p[d].Hash = leafN(-1)
			} else {
				p[d].Hash[d%32] ^= 1
			}
			c.Step(1)
			if m.Verify(leaf, h, p) {
				c.Fail("deep-wrong", "a path of %d nodes verifies with node %d changed", n, d)
			}
		}
		if n > 0 && m.Verify(leaf, h, path[:n-1]) {
			c.Fail("deep-wrong", "a path of %d nodes verifies without the last", n)
		}
	})
	r.Assume("leaves are 32-byte hashes; an inner node is not told apart from a leaf (as in Bitcoin)")
}
