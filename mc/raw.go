package main

// Independent reader of the dawgdic file layout, and helpers for streams.

import (
	"bytes"
	"encoding/binary"
	"io"
)

type writer interface{ Write(io.Writer) bool }

func writeTo(w *W, what string, o writer) []byte {
	var b bytes.Buffer
	if !o.Write(&b) {
		w.Failf("writing the %s to memory reported failure", what)
	}
	return b.Bytes()
}

type rawDict []uint32

// parseDict decodes a dictionary image: little-endian count, then that many words.
func parseDict(w *W, b []byte) rawDict {
	if len(b) < 4 {
		w.Failf("dictionary image of %d bytes", len(b))
	}
	n := int(binary.LittleEndian.Uint32(b))
	if len(b) != 4+4*n {
		w.Failf("dictionary image: count %d but %d bytes follow", n, len(b)-4)
	}
	u := make(rawDict, n)
	for i := range u {
		u[i] = binary.LittleEndian.Uint32(b[4+4*i:])
	}
	return u
}

func (r rawDict) offset(i uint32) uint32 {
	u := r[i]
	if u&(1<<9) != 0 {
		return u >> 10 << 8
	}
	return u >> 10
}

func (r rawDict) isLeaf(i uint32) bool  { return r[i]>>31 != 0 }
func (r rawDict) hasLeaf(i uint32) bool { return r[i]&(1<<8) != 0 }
func (r rawDict) leaf(i uint32) uint32  { return i ^ r.offset(i) }
func (r rawDict) value(i uint32) int32  { return int32(r[i] & 0x7fffffff) }

// follow takes one transition; ok is false if there is none.
func (r rawDict) follow(i uint32, b byte) (uint32, bool) {
	j := i ^ r.offset(i) ^ uint32(b)
	if int(j) >= len(r) || r[j]>>31 != 0 || byte(r[j]) != b {
		return 0, false
	}
	return j, true
}

// reachable counts the units that carry the root, a node or a leaf.
func (r rawDict) reachable() int {
	if len(r) == 0 {
		return 0
	}
	seen := make([]bool, len(r))
	seen[0] = true
	n := 1
	stack := []uint32{0}
	for len(stack) > 0 {
		i := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if r.hasLeaf(i) {
			if j := r.leaf(i); int(j) < len(r) && !seen[j] {
				seen[j] = true
				n++
			}
		}
		for b := 1; b < 256; b++ {
			if j, ok := r.follow(i, byte(b)); ok && !seen[j] {
				seen[j] = true
				n++
				stack = append(stack, j)
			}
		}
	}
	return n
}
