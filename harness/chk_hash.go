//go:build go1.21

package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/hashtree"
)

func refHash(b []byte) [64]byte {
	if len(b) == 64 {
		var out [64]byte
		copy(out[:], b)
		return out
	}
	return sha512.Sum512(b)
}

func init() {
	register(&Check{
		ID: "C01",
		Rule: "random byte strings (lengths 0..300, biased to 0, 31..33, 63..65, 127..129), random splits of them, and random or corrupted hexadecimal text; " +
			"a case is non-trivial when it was hashed on all of the paths and compared with SHA-512 computed by the Go standard library",
		Assumptions: []string{"crypto/sha512 of the Go standard library is the reference"},
		Run:         runC01,
	})
	register(&Check{
		ID: "C03",
		Rule: "random lists of 1..40 blocks, at times up to 400 (with empty, repeated, 64-byte and digest-valued blocks) against an independent Merkle reference, plus single-edit neighbours " +
			"(flip, swap, drop, append, replace-by-digest) whose heads must differ; non-trivial: at least one neighbour compared",
		Assumptions: []string{"lists that only differ by trailing empty blocks are equivalent: a tree is padded with empty blocks", "heads are compared between trees of the same number of leaves"},
		Run:         runC03,
	})
	register(&Check{
		ID:          "C04",
		Rule:        "random block lists (repeated, empty and 64-byte blocks included), shuffled, or corrupted by a foreign or surplus block; non-trivial: the shuffle moved a block or the data was corrupted",
		Assumptions: []string{"re-ordering a sub-collection of the blocks is allowed"},
		Run:         runC04,
	})
}

func genBlob(r *Rng) []byte {
	switch r.N(8) {
	case 0:
		return []byte{}
	case 1:
		return r.Bytes(Pick(r, []int{31, 32, 33}))
	case 2:
		return r.Bytes(64)
	case 3:
		return r.Bytes(Pick(r, []int{63, 65, 127, 128, 129}))
	case 4:
		return bytes.Repeat([]byte{byte(r.N(256))}, r.N(130))
	case 5:
		if r.P(1, 8) {
			return r.Bytes(Pick(r, []int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537}))
		}
		return r.Bytes(r.N(3000))
	default:
		return r.Bytes(r.N(300))
	}
}

func splitBlob(r *Rng, b []byte) [][]byte {
	out := [][]byte{}
	rest := b
	for len(rest) > 0 && r.P(4, 5) {
		n := r.N(len(rest) + 1)
		out = append(out, append([]byte{}, rest[:n]...))
		rest = rest[n:]
	}
	out = append(out, append([]byte{}, rest...))
	if r.P(1, 4) {
		out = append(out, []byte{})
	}
	return out
}

func runC01(x *Ctx) {
	adapter := hash.NewAdapter()
	x.Each("digest", x.Scale(120000, 2000000), func(c *Case) {
		b := genBlob(c.R)
		keep := append([]byte{}, b...)
		c.Put("input", hexs(b))
		h, err := adapter.FromBytes(b)
		if err != nil || h == nil {
			c.Fail("frombytes-error", "FromBytes(%x): %v", b, err)
			return
		}
		c.Event("digests")
		if want := refHash(keep); [64]byte(*h) != want {
			c.Fail("frombytes-value", "FromBytes of %d bytes: got %s, expected %x", len(b), h.String(), want)
		}
		if !bytes.Equal(b, keep) {
			c.Fail("input-mutated", "FromBytes altered its input")
		}

		// the result does not alias the input:
		before := h.String()
		for i := range b {
			b[i] ^= 0xff
		}
		if h.String() != before {
			c.Fail("alias", "the hash changed with its input buffer")
		}

		parts := splitBlob(c.R, keep)
		copies := [][]byte{}
		for _, p := range parts {
			copies = append(copies, append([]byte{}, p...))
		}
		m, err := adapter.FromMultiBytes(parts)
		if err != nil {
			c.Fail("multi-error", "FromMultiBytes: %v", err)
			return
		}
		c.EventN("multi_parts", len(parts))
		if want := sha512.Sum512(keep); [64]byte(*m) != want {
			c.Fail("multi-value", "FromMultiBytes of %d bytes in %d parts: got %s, expected %x", len(keep), len(parts), m.String(), want)
		}
		for i := range parts {
			if !bytes.Equal(parts[i], copies[i]) {
				c.Fail("multi-input-mutated", "FromMultiBytes altered part %d", i)
			}
		}

		// text forms:
		str := hex.EncodeToString(keep)
		if c.R.P(1, 3) {
			str = strings.ToUpper(str)
		}
		fs, err := adapter.FromString(str)
		if err != nil {
			c.Fail("string-error", "FromString(%q): %v", str, err)
			return
		}
		if want := refHash(keep); [64]byte(*fs) != want {
			c.Fail("string-value", "FromString of %d bytes: got %s", len(keep), fs.String())
		}
		c.Event("string_digests")

		text := h.String()
		if len(text) != 128 || strings.ToLower(text) != text || text != hexs(h.Bytes()) || text != fmt.Sprintf("%x", [64]byte(*h)) {
			c.Fail("text-form", "text form %q of %x", text, [64]byte(*h))
		}
		back, err := adapter.FromString(text)
		if err != nil || *back != *h {
			c.Fail("text-roundtrip", "FromString(String()) differs: %v", err)
		}
		backB, err := adapter.FromBytes(h.Bytes())
		if err != nil || *backB != *h {
			c.Fail("bytes-roundtrip", "FromBytes(Bytes()) differs: %v", err)
		}
		bs := h.Bytes()
		if len(bs) != 64 {
			c.Fail("bytes-length", "Bytes() has %d bytes", len(bs))
		} else {
			bs[c.R.N(64)] ^= 1
			if h.String() != text {
				c.Fail("bytes-alias", "writing in Bytes() alters the hash")
			}
		}

		// comparison:
		other := *h
		if !h.Compare(other) || !other.Compare(*h) {
			c.Fail("compare-equal", "a hash does not equal its copy")
		}
		pos := c.R.N(64)
		other[pos] ^= 1 << uint(c.R.N(8))
		c.Event("comparisons")
		if h.Compare(other) || other.Compare(*h) {
			c.Fail("compare-diff", "hashes that differ at byte %d are equal", pos)
		}
		c.Distinct(hexs(keep), len(parts))
		if c.Index < 3 {
			c.Sample(map[string]interface{}{"input": hexs(keep), "parts": len(parts), "hash": text})
		}
	})

	// many parts, empty ones included, and long inputs
	x.Each("large", x.Scale(600, 8000), func(c *Case) {
		parts := [][]byte{}
		for i := Pick(c.R, []int{1, 2, 60, 65, 100, 130, 260, 520, c.R.Range(1, 1100)}); i > 0; i-- {
			switch c.R.N(5) {
			case 0:
				parts = append(parts, []byte{})
			case 1:
				parts = append(parts, c.R.Bytes(64))
			default:
				parts = append(parts, c.R.Bytes(c.R.N(80)))
			}
		}
		if c.R.P(1, 3) {
			parts[c.R.N(len(parts))] = c.R.Bytes(Pick(c.R, []int{4096, 16384, 32768, 65535, 65536, 65537, 131072, c.R.N(300000)}))
		}
		all := []byte{}
		for _, p := range parts {
			all = append(all, p...)
		}
		keep := cloneBlocks(parts)
		c.Put("parts", len(parts))
		c.Put("bytes", len(all))
		m, err := adapter.FromMultiBytes(parts)
		if err != nil {
			c.Fail("multi-error", "FromMultiBytes: %v", err)
			return
		}
		c.EventN("multi_parts", len(parts))
		c.EventN("large_bytes", len(all))
		if want := sha512.Sum512(all); [64]byte(*m) != want {
			c.Fail("multi-value", "FromMultiBytes of %d bytes in %d parts: got %s, expected %x", len(all), len(parts), m.String(), want)
		}
		if !sameBlocks(parts, keep) {
			c.Fail("multi-input-mutated", "FromMultiBytes altered its parts")
		}
		h, err := adapter.FromBytes(all)
		if err != nil || [64]byte(*h) != refHash(all) {
			c.Fail("frombytes-value", "FromBytes of %d bytes: %v", len(all), err)
		}
		s, err := adapter.FromString(hex.EncodeToString(all))
		if err != nil || [64]byte(*s) != refHash(all) {
			c.Fail("string-value", "FromString of %d bytes: %v", len(all), err)
		}
		c.Distinct(len(parts), hexs(m.Bytes()))
	})

	x.Each("badhex", x.Scale(30000, 500000), func(c *Case) {
		n := c.R.N(140)
		b := []byte(hexs(c.R.Bytes(n)))
		switch c.R.N(3) {
		case 0: // odd
			if len(b) == 0 {
				b = []byte("a")
			} else {
				b = b[:len(b)-1]
			}
		case 1:
			b = append(b, "zz"...)
		default:
			if len(b) == 0 {
				b = []byte("g0")
			} else {
				b[c.R.N(len(b))] = Pick(c.R, []byte("gG xz/:@`{\x00-+"))
			}
		}
		c.Put("text", string(b))
		h, err := adapter.FromString(string(b))
		c.Event("malformed_texts")
		if err == nil {
			c.Fail("badhex-accepted", "FromString(%q) was accepted: %v", string(b), h)
		}
		c.Distinct(string(b))
	})
}

// refMerkle is the reference tree: leaves are digests, padded with digests of
// the empty block to a power of two of at least two.
func refMerkle(blocks [][]byte) (head [64]byte, length int) {
	level := [][64]byte{}
	for _, b := range blocks {
		level = append(level, sha512.Sum512(b))
	}
	size := 2
	for size < len(level) {
		size *= 2
	}
	for len(level) < size {
		level = append(level, sha512.Sum512(nil))
	}
	for len(level) > 1 {
		next := [][64]byte{}
		for i := 0; i < len(level); i += 2 {
			next = append(next, sha512.Sum512(append(append([]byte{}, level[i][:]...), level[i+1][:]...)))
		}
		level = next
	}
	return level[0], size
}

func genBlocks(r *Rng, max int) [][]byte {
	n := r.Range(1, max)
	if r.P(1, 3) {
		n = Pick(r, []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17})
	} else if max >= 24 && r.P(1, 60) {
		n = Pick(r, []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, r.Range(40, 400)})
	}
	out := [][]byte{}
	for i := 0; i < n; i++ {
		switch r.N(8) {
		case 0:
			out = append(out, []byte{})
		case 1:
			if len(out) > 0 {
				out = append(out, append([]byte{}, out[r.N(len(out))]...))
				continue
			}
			out = append(out, r.Bytes(3))
		case 2:
			out = append(out, r.Bytes(64))
		case 3:
			if len(out) > 0 {
				d := sha512.Sum512(out[r.N(len(out))])
				out = append(out, d[:])
				continue
			}
			out = append(out, r.Bytes(1))
		case 4:
			if r.P(1, 10) {
				out = append(out, r.Bytes(Pick(r, []int{255, 256, 257, 1024, 4096, r.Range(100, 5000)})))
				continue
			}
			out = append(out, r.Bytes(Pick(r, []int{63, 65, 127, 128, 129})))
		default:
			out = append(out, r.Bytes(r.Range(1, 40)))
		}
	}
	return out
}

func cloneBlocks(in [][]byte) [][]byte {
	out := make([][]byte, 0, len(in))
	for _, b := range in {
		out = append(out, append([]byte{}, b...))
	}
	return out
}

func sameBlocks(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func trimEmpty(in [][]byte) [][]byte {
	for len(in) > 0 && len(in[len(in)-1]) == 0 {
		in = in[:len(in)-1]
	}
	return in
}

func hexBlocks(in [][]byte) string {
	out := []string{}
	for _, b := range in {
		out = append(out, hexs(b))
	}
	return strings.Join(out, ",")
}

// merkleFold folds leaves, whose number is a power of two, in one head
func merkleFold(level [][64]byte) [64]byte {
	for len(level) > 1 {
		next := [][64]byte{}
		for i := 0; i < len(level); i += 2 {
			next = append(next, sha512.Sum512(append(append([]byte{}, level[i][:]...), level[i+1][:]...)))
		}
		level = next
	}
	return level[0]
}

// sameLeaves tells whether the heads of the leaves are those expected
func sameLeaves(got hashtree.Leaves, want [][64]byte) bool {
	list := got.Leaves()
	if len(list) != len(want) {
		return false
	}
	for i := range list {
		if [64]byte(list[i].Head()) != want[i] {
			return false
		}
	}
	return true
}

func sameLeafHeads(a, b []hashtree.Leaf) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Head().String() != b[i].Head().String() {
			return false
		}
	}
	return true
}

// checkSubTree observes, in any order, a sub tree whose leaves are those given
func checkSubTree(c *Case, parent hashtree.ParentLeaf, leaves [][64]byte, where string) {
	half := len(leaves) / 2
	side := func(name string, leaf hashtree.Leaf, part [][64]byte) {
		at := where + name
		c.Event("sub_trees")
		obs := []func(){
			func() {
				if [64]byte(leaf.Head()) != merkleFold(part) {
					c.Fail("sub-head", "node %s: head %s, expected the one of its %d leaves", at, leaf.Head().String(), len(part))
				}
			},
			func() {
				if !sameLeaves(leaf.Leaves(), part) {
					c.Fail("sub-leaves", "node %s: %d leaves, expected its own %d", at, len(leaf.Leaves().Leaves()), len(part))
				}
			},
			func() {
				if leaf.HasParent() != (len(part) > 1) {
					c.Fail("sub-parent", "node %s over %d leaves: HasParent %v", at, len(part), leaf.HasParent())
					return
				}
				if leaf.HasParent() {
					checkSubTree(c, leaf.Parent(), part, at)
				}
			},
			func() {
				height := 0
				for 1<<uint(height) < len(part) {
					height++
				}
				if leaf.Height() != height {
					c.Fail("sub-height", "node %s over %d leaves: height %d, expected %d", at, len(part), leaf.Height(), height)
				}
			},
		}
		for _, i := range c.R.Perm(len(obs)) {
			obs[i]()
		}
	}
	obs := []func(){
		func() { side("L", parent.Left(), leaves[:half]) },
		func() { side("R", parent.Right(), leaves[half:]) },
		func() {
			if !sameLeaves(parent.BlockLeaves(), leaves) {
				c.Fail("sub-block-leaves", "node %s: %d block leaves, expected its own %d", where, len(parent.BlockLeaves().Leaves()), len(leaves))
			}
		},
		func() {
			tree, err := parent.HashTree()
			if err != nil {
				c.Fail("sub-tree", "node %s: %v", where, err)
				return
			}
			if [64]byte(tree.Head()) != merkleFold(leaves) || tree.Length() != len(leaves) {
				c.Fail("sub-tree", "node %s: tree %s of %d leaves, expected %x of %d", where, tree.Head().String(), tree.Length(), merkleFold(leaves), len(leaves))
			}
		},
	}
	for _, i := range c.R.Perm(len(obs)) {
		obs[i]()
	}
}

func runC03(x *Ctx) {
	if _, err := hashtree.NewBuilder().Create().Now(); err == nil {
		x.One("no-blocks", func(c *Case) { c.Fail("no-blocks", "a tree was built without blocks") })
	}
	x.One("empty-list", func(c *Case) {
		t, err := hashtree.NewBuilder().Create().WithBlocks([][]byte{}).Now()
		c.Event("empty_lists")
		if err == nil || t != nil {
			c.Fail("empty-accepted", "an empty list of blocks gives a tree")
		}
	})
	x.Each("tree", x.Scale(30000, 500000), func(c *Case) {
		blocks := genBlocks(c.R, 40)
		c.Put("blocks", hexBlocks(blocks))

		// the list lives in a larger array: nothing after or in it may be written
		backing := make([][]byte, len(blocks)+3)
		marker := []byte("marker")
		copy(backing, blocks)
		for i := len(blocks); i < len(backing); i++ {
			backing[i] = marker
		}
		input := backing[:len(blocks)]
		keep := cloneBlocks(blocks)

		tree, err := hashtree.NewBuilder().Create().WithBlocks(input).Now()
		if err != nil {
			c.Fail("build-error", "%d blocks: %v", len(blocks), err)
			return
		}
		head, length := refMerkle(keep)
		c.Event("trees")
		c.EventN("leaves", length)
		if [64]byte(tree.Head()) != head {
			c.Fail("head", "head of %d blocks: got %s, expected %x", len(keep), tree.Head().String(), head)
		}
		if tree.Length() != length {
			c.Fail("length", "length of %d blocks: got %d, expected %d", len(keep), tree.Length(), length)
		}
		// repeated observations do not alter the tree:
		for i := 0; i < 2; i++ {
			cmp := tree.Compact()
			if [64]byte(cmp.Head()) != head || cmp.Length() != length {
				c.Fail("compact", "compact form: head %s length %d, expected %x %d", cmp.Head().String(), cmp.Length(), head, length)
			}
			leaves := cmp.Leaves().Leaves()
			for j, l := range leaves {
				want := sha512.Sum512(nil)
				if j < len(keep) {
					want = sha512.Sum512(keep[j])
				}
				if [64]byte(l.Head()) != want {
					c.Fail("leaf", "leaf %d of %d: got %s, expected %x", j, len(leaves), l.Head().String(), want)
					break
				}
			}
			if tree.Parent() == nil {
				c.Fail("parent", "no parent")
			}
		}
		// what is done with an observed list does not reach the tree
		scratch := tree.Compact().Leaves().Leaves()
		keepLeaves := append([]hashtree.Leaf{}, scratch...)
		for i, j := 0, len(scratch)-1; i < j; i, j = i+1, j-1 {
			scratch[i], scratch[j] = scratch[j], scratch[i]
		}
		if again := tree.Compact(); [64]byte(again.Head()) != head || again.Length() != length || [64]byte(tree.Head()) != head {
			c.Fail("list-alias", "writing in an observed list alters the tree")
		} else if !sameLeafHeads(again.Leaves().Leaves(), keepLeaves) {
			c.Fail("list-alias", "writing in an observed list re-orders the leaves of the tree")
		}
		height := 1
		for 1<<uint(height) < length {
			height++
		}
		if tree.Height() != height+1 {
			c.Fail("height", "height of %d leaves: got %d, expected %d", length, tree.Height(), height+1)
		}
		if !sameBlocks(input, keep) {
			c.Fail("input-mutated", "the blocks were altered")
		}
		for i := len(blocks); i < len(backing); i++ {
			if !bytes.Equal(backing[i], marker) {
				c.Fail("array-overwritten", "the caller's array was overwritten after the list (position %d)", i)
				break
			}
		}

		// its sub trees are the ones of its halves, in whatever order they are observed
		if c.Index%4 == 0 {
			nodes := [][64]byte{}
			for j := 0; j < length; j++ {
				if j < len(keep) {
					nodes = append(nodes, sha512.Sum512(keep[j]))
					continue
				}
				nodes = append(nodes, sha512.Sum512(nil))
			}
			for i := 0; i < 2; i++ {
				checkSubTree(c, tree.Parent(), nodes, "/")
				if [64]byte(tree.Head()) != head || tree.Length() != length || tree.Height() != height+1 {
					c.Fail("sub-altered", "observing the sub trees altered the tree: head %s length %d height %d", tree.Head().String(), tree.Length(), tree.Height())
				}
			}
		}

		// neighbours
		n := 0
		for k := 0; k < 6; k++ {
			other := cloneBlocks(keep)
			p := c.R.N(len(other))
			switch k {
			case 0:
				if len(other[p]) == 0 {
					other[p] = []byte{byte(c.R.N(256))}
				} else {
					other[p][c.R.N(len(other[p]))] ^= 1 << uint(c.R.N(8))
				}
			case 1:
				q := c.R.N(len(other))
				other[p], other[q] = other[q], other[p]
			case 2:
				other = append(other[:p], other[p+1:]...)
			case 3:
				other = append(other, other[p])
			case 4:
				d := sha512.Sum512(other[p])
				other[p] = d[:]
			default:
				if len(other) > 1 && p+1 < len(other) {
					// move the border between two blocks
					if len(other[p+1]) > 0 {
						other[p] = append(other[p], other[p+1][0])
						other[p+1] = other[p+1][1:]
					}
				} else {
					other[p] = append(other[p], 0)
				}
			}
			if len(other) == 0 {
				continue
			}
			o, err := hashtree.NewBuilder().Create().WithBlocks(cloneBlocks(other)).Now()
			if err != nil {
				c.Fail("build-error", "neighbour: %v", err)
				continue
			}
			same := sameBlocks(trimEmpty(keep), trimEmpty(other))
			if o.Length() != tree.Length() && !same {
				continue
			}
			c.Event("neighbours")
			n++
			if o.Length() == tree.Length() && same != (o.Head() == tree.Head()) {
				c.Put("neighbour", hexBlocks(other))
				c.Fail("binding", "same content: %v, same head: %v (edit %d)", same, o.Head() == tree.Head(), k)
			}
		}
		if n > 0 {
			c.Distinct(hexBlocks(keep))
		}
		if c.Index < 2 {
			c.Sample(map[string]interface{}{"blocks": len(keep), "leaves": length, "head": tree.Head().String()})
		}
	})
	x.Each("large", x.Scale(12, 80), func(c *Case) {
		n := Pick(c.R, []int{255, 256, 257, 1000, 1024, 1025, 3000})
		blocks := [][]byte{}
		for i := 0; i < n; i++ {
			blocks = append(blocks, c.R.Bytes(c.R.N(20)))
		}
		c.Put("n", n)
		tree, err := hashtree.NewBuilder().Create().WithBlocks(cloneBlocks(blocks)).Now()
		if err != nil {
			c.Fail("build-error", "%d blocks: %v", n, err)
			return
		}
		head, length := refMerkle(blocks)
		c.Event("trees")
		c.EventN("leaves", length)
		if [64]byte(tree.Head()) != head || tree.Length() != length {
			c.Fail("head", "tree of %d blocks: got %s (%d), expected %x (%d)", n, tree.Head().String(), tree.Length(), head, length)
		}
		c.Distinct(n, hexs(head[:8]))
	})
}

func runC04(x *Ctx) {
	x.Each("order", x.Scale(60000, 800000), func(c *Case) {
		blocks := genBlocks(c.R, 24)
		c.Put("blocks", hexBlocks(blocks))
		tree, err := hashtree.NewBuilder().Create().WithBlocks(cloneBlocks(blocks)).Now()
		if err != nil {
			c.Fail("build-error", "%v", err)
			return
		}
		perm := c.R.Perm(len(blocks))
		moved := false
		shuffled := make([][]byte, len(blocks))
		for i, p := range perm {
			shuffled[i] = append([]byte{}, blocks[p]...)
			if i != p {
				moved = true
			}
		}
		keep := cloneBlocks(shuffled)
		got, err := tree.Order(shuffled)
		c.Event("orders")
		if err != nil {
			c.Fail("order-error", "a permutation of the blocks was rejected: %v", err)
		} else if !sameBlocks(got, blocks) {
			c.Put("got", hexBlocks(got))
			c.Fail("order-value", "the blocks were not restored to their order")
		}
		if !sameBlocks(shuffled, keep) {
			c.Fail("input-mutated", "Order altered its input")
		}
		// again: ordering leaves the tree as it was
		got2, err2 := tree.Order(keep)
		if err2 != nil || !sameBlocks(got2, blocks) {
			c.Fail("order-twice", "the second Order differs: %v", err2)
		}

		// some of the blocks, in the order of the tree as well
		some := [][]byte{}
		left := map[string]int{}
		for _, b := range shuffled {
			if c.R.P(1, 2) {
				some = append(some, append([]byte{}, b...))
				left[string(b)]++
			}
		}
		want := [][]byte{}
		for _, b := range padded(blocks) {
			if left[string(b)] > 0 {
				left[string(b)]--
				want = append(want, b)
			}
		}
		if got3, err := tree.Order(some); err != nil || !sameBlocks(got3, want) {
			c.Put("some", hexBlocks(some))
			c.Put("got", hexBlocks(got3))
			c.Fail("order-some", "some of the blocks were not put in the order of the tree: %v", err)
		}
		c.Event("partial_orders")

		// foreign or surplus blocks
		bad := cloneBlocks(shuffled)
		kind := c.R.N(4)
		p := c.R.N(len(bad))
		foreign := append(c.R.Bytes(9), 'f')
		switch kind {
		case 0:
			bad[p] = foreign
		case 1:
			bad = append(bad, foreign)
		case 2:
			// one block more than the tree has of that content
			bad = append(bad, bad[p])
		default:
			// replaced by the duplicate of another one
			q := c.R.N(len(bad))
			bad[p] = append([]byte{}, bad[q]...)
		}
		if subMultiset(bad, padded(blocks)) {
			if moved {
				c.Distinct(hexBlocks(keep))
			}
			return
		}
		c.Put("bad", hexBlocks(bad))
		c.Event("corrupted_orders")
		if out, err := tree.Order(bad); err == nil {
			c.Put("got", hexBlocks(out))
			c.Fail("order-foreign", "data that is not in the tree was accepted (kind %d)", kind)
		}
		c.Distinct(hexBlocks(keep), kind)
		if c.Index < 2 {
			c.Sample(map[string]interface{}{"blocks": len(blocks), "perm": fmt.Sprint(perm), "corruption": kind})
		}
	})
}

// padded adds the filling blocks of the tree
func padded(blocks [][]byte) [][]byte {
	out := cloneBlocks(blocks)
	size := 2
	for size < len(out) {
		size *= 2
	}
	for len(out) < size {
		out = append(out, []byte{})
	}
	return out
}

func subMultiset(sub, all [][]byte) bool {
	count := map[string]int{}
	for _, b := range all {
		count[string(b)]++
	}
	for _, b := range sub {
		count[string(b)]--
		if count[string(b)] < 0 {
			return false
		}
	}
	return true
}
