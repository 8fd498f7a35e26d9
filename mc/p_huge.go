package main

// Dictionaries of up to 2^32-3 keys, composed as images: every state is stored once, so a handful of units stands for
// billions of keys. Counts and numbers are computed by arithmetic.

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/deNULL/dawg"
)

// levels describes the language: a key takes one of k letters at each of depth positions; keys[d] tells if a text of d
// letters is itself a key (always true at the end).
type levels struct {
	k, depth int
	keys     []bool
	order    int // of the ranked guide: 0 byte order with the end first, 1 reversed with the end last, 2 reversed with the end second
}

// letters in byte order, spread over all byte values
func (h *levels) letter(j int) byte { return byte(1 + j*254/h.k + 254/h.k/2) }

// count of keys below a node of depth d, and false if it does not fit
func (h *levels) counts() ([]uint64, bool) {
	n := make([]uint64, h.depth+1)
	for d := h.depth; d >= 0; d-- {
		if h.keys[d] {
			n[d] = 1
		}
		if d < h.depth {
			n[d] += uint64(h.k) * n[d+1]
		}
		if n[d] >= 1<<32-2 {
			return nil, false
		}
	}
	return n, true
}

// childOrder lists the continuations of a node of depth d in the order of the guide; -1 stands for the end of the key.
func (h *levels) childOrder(d int, ranked bool) []int {
	var out []int
	if d < h.depth {
		for j := 0; j < h.k; j++ {
			if ranked && h.order > 0 {
				out = append(out, h.k-1-j)
			} else {
				out = append(out, j)
			}
		}
	}
	if ranked && h.keys[d] {
		at := 0
		if h.order == 1 {
			at = len(out)
		} else if h.order == 2 && len(out) > 0 {
			at = 1
		}
		out = append(out[:at], append([]int{-1}, out[at:]...)...)
	}
	return out
}

func (h *levels) byteOf(j int) byte {
	if j < 0 {
		return 0
	}
	return h.letter(j)
}

// images: the children of all nodes of depth d lie in block d+1.
func (h *levels) images() (dict, guide, ranked []byte) {
	size := 256 * (h.depth + 2)
	units := make([]uint32, size)
	g := make([][2]byte, size)
	r := make([][2]byte, size)
	for i := range units {
		units[i] = uint32(byte(i) ^ 1) // not to be followed
	}
	node := func(i uint32, label byte, d int) {
		units[i] = uint32(label) | (i^uint32(256*(d+1)))<<10
		if h.keys[d] {
			units[i] |= 1 << 8
		}
		if c := h.childOrder(d, false); len(c) > 0 {
			g[i][0] = h.byteOf(c[0])
		}
		if c := h.childOrder(d, true); len(c) > 0 {
			r[i][0] = h.byteOf(c[0])
		}
	}
	node(0, 0, 0)
	for d := 0; d <= h.depth; d++ {
		base := uint32(256 * (d + 1))
		if h.keys[d] {
			units[base] = 1<<31 | uint32(d)
		}
		if d < h.depth {
			for j := 0; j < h.k; j++ {
				node(base^uint32(h.letter(j)), h.letter(j), d+1)
			}
		}
		c := h.childOrder(d, false)
		for x := 1; x < len(c); x++ {
			g[base^uint32(h.byteOf(c[x-1]))][1] = h.byteOf(c[x])
		}
		c = h.childOrder(d, true)
		for x := 1; x < len(c); x++ {
			r[base^uint32(h.byteOf(c[x-1]))][1] = h.byteOf(c[x])
		}
	}
	put := func(v interface{}) []byte {
		var b bytes.Buffer
		binary.Write(&b, binary.LittleEndian, uint32(size))
		binary.Write(&b, binary.LittleEndian, v)
		return b.Bytes()
	}
	return put(units), put(g), put(r)
}

// keyOf is the key with number x among those below a node of depth d. A key comes before the longer ones.
func (h *levels) keyOf(n []uint64, x uint64, ranked bool) []byte {
	out := []byte{}
	for d := 0; ; d++ {
		if h.keys[d] {
			if x == 0 {
				return out
			}
			x--
		}
		for _, j := range h.childOrder(d, ranked) {
			if j < 0 {
				continue
			}
			if x < n[d+1] {
				out = append(out, h.letter(j))
				break
			}
			x -= n[d+1]
		}
	}
}

func (h *levels) String() string {
	return fmt.Sprintf("all words of %d letters, %d long (keys at depths %v, ranked order %d)", h.k, h.depth, h.keys, h.order)
}

func hugeLevels(tier string) []*levels {
	var out []*levels
	for k := 1; k <= 254; k++ {
		if tier != "thorough" && k > 9 && !nearPow2(k) && k < 254 {
			continue
		}
		for depth := 1; depth <= 64; depth++ {
			fits := false
			for pat := 0; pat < 4; pat++ {
				h := &levels{k: k, depth: depth, keys: make([]bool, depth+1), order: (k + depth) % 3}
				for d := range h.keys {
					h.keys[d] = d == depth || pat == 1 || pat == 2 && d%2 == 1 || pat == 3 && d == depth/2
				}
				if _, ok := h.counts(); ok {
					fits = true
					out = append(out, h)
				}
			}
			if !fits {
				break
			}
		}
	}
	return out
}

func hugeFamily(tier string) *Family {
	all := hugeLevels(tier)
	which := "1..254"
	if tier != "thorough" {
		which = "1..9, 254 and around every power of two"
	}
	return &Family{Name: "billions-of-keys", N: len(all), What: "all words of " + which + " letters and every length up to 2^32-3 keys (composed images), 4 patterns of shorter keys, both guides: counts of all nodes, numbers at both ends of every subtree of every first deviation, around all powers of two, and beyond the end",
		Show: func(i int) string { return all[i].String() },
		Run:  func(w *W, i int) { all[i].check(w) }}
}

func (h *levels) check(w *W) {
	n, _ := h.counts()
	di, gi, ri := h.images()
	dict := dawg.ReadDictionary(bytes.NewReader(di))
	guide := dawg.ReadGuide(bytes.NewReader(gi))
	rguide := dawg.ReadRankedGuide(bytes.NewReader(ri))
	if dict == nil || guide == nil || rguide == nil {
		w.Failf("reading the image failed")
	}
	w.State(fnvInt(fnvInt(fnvInit, uint64(h.k*100+h.depth)), n[0]))
	for _, ranked := range []bool{false, true} {
		var g dawg.SomeGuide = guide
		if ranked {
			g = rguide
		}
		w.Tracef("index over the guide (ranked: %v)", ranked)
		index := dawg.BuildIndex(dict, g)
		if index == nil {
			w.Failf("building the index failed")
		}
		in := dawg.NewIndexer(dict, g, index)
		if uint64(index.TotalCount()) != n[0] || uint64(in.TotalCount()) != n[0] {
			w.Failf("%d keys counted, want %d", index.TotalCount(), n[0])
		}
		for d := 0; d <= h.depth; d++ {
			for j := 0; j < h.k; j++ {
				i := dict.Root()
				for x := 0; x < d; x++ {
					if !dict.Follow(h.letter((x+j)%h.k), &i) {
						w.Failf("a word of %d letters cannot be followed", d)
					}
				}
				if uint64(index.ChildCount(i)) != n[d] {
					w.Failf("%d keys counted below a node of depth %d, want %d", index.ChildCount(i), d, n[d])
				}
				w.Transitions++
				if d == 0 {
					break
				}
			}
		}
		number := func(x uint64) {
			w.Transitions++
			if x >= n[0] {
				if b := in.IndexToBytes(uint32(x)); b != nil {
					w.Failf("IndexToBytes(%d)=%q with %d keys", x, b, n[0])
				}
				return
			}
			want := h.keyOf(n, x, ranked)
			if b := in.IndexToBytes(uint32(x)); b == nil || !bytes.Equal(b, want) {
				w.Failf("IndexToBytes(%d)=%q, want %q (%d keys)", x, b, want, n[0])
			}
			if y := in.BytesToIndex(want); uint64(y) != x {
				w.Failf("BytesToIndex(%q)=%d, want %d (%d keys)", want, y, x, n[0])
			}
		}
		around := func(x uint64) {
			for y := x - 1; y != x+2; y++ {
				if y < 1<<32 {
					number(y)
				}
			}
		}
		for b := uint(0); b < 32; b++ {
			around(1 << b)
		}
		around(n[0])
		around(n[0] / 2)
		number(1<<32 - 1)
		number(1<<32 - 2)
		at := uint64(0) // first number below the first node of depth d
		for d := 0; d < h.depth; d++ {
			if h.keys[d] {
				at++
			}
			for j := 0; j <= h.k; j++ {
				around(at + uint64(j)*n[d+1])
			}
		}
		at = 0 // the same below the last node of depth d
		for d := 0; d < h.depth; d++ {
			if h.keys[d] {
				at++
			}
			for j := 0; j <= h.k; j++ {
				around(at + uint64(j)*n[d+1])
			}
			at += uint64(h.k-1) * n[d+1]
		}
	}
}
