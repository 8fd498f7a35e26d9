package main

// Reference model of a key set, and the enumerated families of key sets ("lexicons").

import (
	"fmt"
	"sort"
	"strings"

	"github.com/deNULL/dawg"
)

// A Lex is a set of keys, sorted as unsigned bytes, with their values. It is the reference model.
type Lex struct {
	Keys []string
	Vals []int32
	Big  bool // per-node work is limited where the cost would be quadratic
	XL   bool // more than 2^21 dictionary units
	trie []Node
}

const MaxInt32 = 1<<31 - 1

func (l *Lex) Len() int           { return len(l.Keys) }
func (l *Lex) Less(i, j int) bool { return l.Keys[i] < l.Keys[j] }
func (l *Lex) Swap(i, j int) {
	l.Keys[i], l.Keys[j] = l.Keys[j], l.Keys[i]
	l.Vals[i], l.Vals[j] = l.Vals[j], l.Vals[i]
}

func (l *Lex) add(k string, v int32) {
	l.Keys = append(l.Keys, k)
	l.Vals = append(l.Vals, v)
}

func (l *Lex) hash() uint64 {
	h := uint64(fnvInit)
	for i, k := range l.Keys {
		h = fnv(h, k)
		h = fnvInt(h, uint64(l.Vals[i])|1<<40)
	}
	return h
}

// find is the reference lookup.
func (l *Lex) find(k string) (int32, bool) {
	i := sort.SearchStrings(l.Keys, k)
	if i < len(l.Keys) && l.Keys[i] == k {
		return l.Vals[i], true
	}
	return -1, false
}

// matched is the length of the longest prefix of s that is a prefix of a key.
func (l *Lex) matched(s string) int {
	if len(l.Keys) == 0 {
		return 0
	}
	i := sort.SearchStrings(l.Keys, s)
	best := 0
	for _, j := range []int{i - 1, i} {
		if j >= 0 && j < len(l.Keys) {
			n := 0
			for n < len(s) && n < len(l.Keys[j]) && s[n] == l.Keys[j][n] {
				n++
			}
			if n > best {
				best = n
			}
		}
	}
	return best
}

func (l *Lex) String() string {
	var sb strings.Builder
	for i, k := range l.Keys {
		if i == 60 {
			fmt.Fprintf(&sb, " ... (%d keys)", len(l.Keys))
			break
		}
		if len(k) > 60 {
			fmt.Fprintf(&sb, "%q...(%d bytes)=%d ", k[:60], len(k), l.Vals[i])
			continue
		}
		fmt.Fprintf(&sb, "%q=%d ", k, l.Vals[i])
	}
	return "{" + strings.TrimSpace(sb.String()) + "}"
}

// A Node is a node of the reference trie: the set of keys Keys[Lo:Hi] share their first Depth bytes.
type Node struct {
	Lo, Hi, Depth int32
	First, Next   int32 // first child, next sibling, -1 if none
	Parent        int32
	Label         byte
	IsKey         bool
}

func (l *Lex) prefix(n *Node) string {
	if n.Hi == n.Lo {
		return ""
	}
	return l.Keys[n.Lo][:n.Depth]
}

// Trie returns the reference trie in preorder; the root is node 0 (also for an empty set).
func (l *Lex) Trie() []Node {
	if l.trie != nil {
		return l.trie
	}
	t := make([]Node, 1, 16+2*len(l.Keys))
	t[0] = Node{Lo: 0, Hi: int32(len(l.Keys)), First: -1, Next: -1, Parent: -1}
	for ni := 0; ni < len(t); ni++ {
		lo, hi, d := t[ni].Lo, t[ni].Hi, t[ni].Depth
		if lo < hi && len(l.Keys[lo]) == int(d) {
			t[ni].IsKey = true
			lo++
		}
		prev := int32(-1)
		for lo < hi {
			c := l.Keys[lo][d]
			e := lo + 1
			if l.Keys[hi-1][d] == c {
				e = hi
			} else {
				for e < hi && l.Keys[e][d] == c {
					e++
				}
			}
			id := int32(len(t))
			t = append(t, Node{Lo: lo, Hi: e, Depth: d + 1, First: -1, Next: -1, Parent: int32(ni), Label: c})
			if prev < 0 {
				t[ni].First = id
			} else {
				t[prev].Next = id
			}
			prev = id
			lo = e
		}
	}
	l.trie = t
	return t
}

// ---- building with the real code ----

func buildDawg(w *W, l *Lex) *dawg.Dawg {
	b := dawg.NewDawgBuilder()
	return finish(w, b, l)
}

func insertAll(w *W, b *dawg.DawgBuilder, l *Lex) {
	for i, k := range l.Keys {
		w.Tracef("InsertStringValue(%q, %d)", k, l.Vals[i])
		if !b.InsertStringValue(k, l.Vals[i]) {
			w.Failf("insertion of key %q (value %d) refused although keys come in order", k, l.Vals[i])
		}
		w.Transitions++
	}
}

func finish(w *W, b *dawg.DawgBuilder, l *Lex) *dawg.Dawg {
	insertAll(w, b, l)
	d := dawg.NewDawg()
	w.Tracef("Finish")
	b.Finish(d)
	return d
}

func buildDict(w *W, l *Lex) (*dawg.Dawg, *dawg.Dictionary) {
	d := buildDawg(w, l)
	w.Tracef("Build")
	dict := d.Build()
	if dict == nil {
		w.Failf("building the dictionary failed")
	}
	return d, dict
}

// ---- families of lexicons ----

type LexFam struct {
	Name string
	N    int
	Gen  func(i int) *Lex
	What string
	XL   bool
	Big  bool
}

// universe lists all strings over letters with length <= depth in byte order (letters ascending).
func universe(letters string, depth int) []string {
	out := []string{""}
	if depth > 0 {
		for i := 0; i < len(letters); i++ {
			for _, s := range universe(letters, depth-1) {
				out = append(out, letters[i:i+1]+s)
			}
		}
	}
	return out
}

func exactLen(letters string, n int) []string {
	if n == 0 {
		return []string{""}
	}
	var out []string
	for i := 0; i < len(letters); i++ {
		for _, s := range exactLen(letters, n-1) {
			out = append(out, letters[i:i+1]+s)
		}
	}
	return out
}

var schemeNames = []string{"all 0", "rank", "reverse rank", "label-colliding", "near maximum", "rank mod 2"}

// scheme assigns a value to the rank-th of n chosen keys; u is the key's position in the universe.
func scheme(s int, rank, n, u int, letters string) int32 {
	switch s {
	case 0:
		return 0
	case 1:
		return int32(rank)
	case 2:
		return int32(n - rank)
	case 3:
		return int32(letters[u%len(letters)]) + int32(u%3)*256 + int32(u%2)*0x40000000
	case 4:
		return MaxInt32 - int32(rank)
	default:
		return int32(rank % 2)
	}
}

func subsetLex(u []string, mask int, sch int, letters string) *Lex {
	l := &Lex{}
	n := 0
	for m := mask; m != 0; m &= m - 1 {
		n++
	}
	r := 0
	for k := range u {
		if mask>>k&1 != 0 {
			l.add(u[k], scheme(sch, r, n, k, letters))
			r++
		}
	}
	return l
}

// assignLex: base-(len(vals)+1) digits of i choose absent or a value for every key of u.
func assignLex(u []string, i int, vals []int32) *Lex {
	l := &Lex{}
	b := len(vals) + 1
	for k := range u {
		d := i % b
		i /= b
		if d > 0 {
			l.add(u[k], vals[d-1])
		}
	}
	return l
}

func pow(b, e int) int {
	r := 1
	for ; e > 0; e-- {
		r *= b
	}
	return r
}

var alphabets = []string{"ab", "\x01\xff", "\x7f\x80", "\x01\x02"}

func specialValues() []int32 {
	m := map[int32]bool{}
	var out []int32
	put := func(v int64) {
		if v >= 0 && v <= MaxInt32 && !m[int32(v)] {
			m[int32(v)] = true
			out = append(out, int32(v))
		}
	}
	for v := int64(0); v <= 5; v++ {
		put(v)
	}
	for k := uint(2); k <= 31; k++ {
		put(1<<k - 1)
		put(1 << k)
		put(1<<k + 1)
	}
	put(0x55555555)
	put(0x2aaaaaaa)
	for k := uint(0); k <= 31; k++ {
		put(MaxInt32 - 1<<k)
	}
	return out
}

// shapes over two bytes x, y.
var shapes = [][]string{
	{"x"}, {"x", "y"}, {"xy"}, {"x", "xy"}, {"xx", "yx"}, {"xy", "yx", "yy"}, {"", "x", "y"}, {"xyx", "yyx", "xx", "y"},
	{"x", "y", "xy", "yx", "xyx", "yxy"},
}

func shapeLex(sh []string, x, y byte, vs int) *Lex {
	m := map[string]int32{}
	for i, t := range sh {
		k := []byte(t)
		for j := range k {
			if k[j] == 'x' {
				k[j] = x
			} else {
				k[j] = y
			}
		}
		var v int32
		switch vs {
		case 0: // low byte equals a label
			v = int32([]byte{x, y}[i%2]) + int32(i%2)*256
		case 1:
			v = int32(i % 3)
		case 2: // has-leaf/extension/offset bits of a leaf word set
			v = int32(y) | 0x300 | int32(i)<<10
		}
		m[string(k)] = v
	}
	l := &Lex{}
	for k, v := range m {
		l.add(k, v)
	}
	sort.Sort(l)
	return l
}

// counterKey writes i in base len(digits) with the given width.
func counterKey(i int, digits string, width int) string {
	b := make([]byte, width)
	for p := width - 1; p >= 0; p-- {
		b[p] = digits[i%len(digits)]
		i /= len(digits)
	}
	return string(b)
}

var allBytes = func() string {
	b := make([]byte, 255)
	for i := range b {
		b[i] = byte(i + 1)
	}
	return string(b)
}()

type growKind struct {
	name string
	max  int
	gen  func(n int) *Lex
}

func fromCounter(digits string, width int, val func(i int) int32) func(n int) *Lex {
	return func(n int) *Lex {
		l := &Lex{Keys: make([]string, n), Vals: make([]int32, n)}
		for i := 0; i < n; i++ {
			l.Keys[i], l.Vals[i] = counterKey(i, digits, width), val(i)
		}
		return l
	}
}

func constVal(v int32) func(int) int32 { return func(int) int32 { return v } }
func modVal(m int) func(int) int32     { return func(i int) int32 { return int32(i % m) } }
func rankVal(i int) int32              { return int32(i) }
func mixVal(i int) int32               { return int32(uint32(i*2654435761) & MaxInt32) }

var growKinds = []growKind{
	{"binary width 16, constant value", 1 << 16, fromCounter("ab", 16, constVal(7))},
	{"decimal width 5, distinct values", 100000, fromCounter("0123456789", 5, rankVal)},
	{"ternary width 11, values mod 5", 177147, fromCounter("abc", 11, modVal(5))},
	{"all bytes width 2, distinct values", 255 * 255, fromCounter(allBytes, 2, rankVal)},
	{"all bytes width 2, constant value", 255 * 255, fromCounter(allBytes, 2, constVal(0))},
	{"preorder of the full binary trie, values mod 7", 1 << 16, func(n int) *Lex {
		// the n shortest strings in breadth-first order, sorted
		l := &Lex{}
		for i := 0; i < n; i++ {
			j := i + 1
			var b []byte
			for j > 1 {
				b = append(b, "ab"[j&1])
				j >>= 1
			}
			l.add(string(b), int32(i%7))
		}
		sort.Sort(l)
		return l
	}},
	{"caterpillar a^i b", 3000, func(n int) *Lex {
		l := &Lex{}
		a := strings.Repeat("a", n)
		for i := n - 1; i >= 0; i-- {
			l.add(a[:i]+"b", int32(i%3))
		}
		return l
	}},
	{"shared stems and endings, values mod 11", 46656, func(n int) *Lex {
		ends := []string{"", "ed", "ing", "s", "ness", "nesses"}
		l := &Lex{}
		for i := 0; i < n; i++ {
			l.add(counterKey(i, "aeioty", 6)+ends[i*i%6], int32(i*31%11))
		}
		sort.Sort(l)
		return l
	}},
	{"sparse labels width 6, scrambled values", 15625, fromCounter("\x01\x40\x80\xc8\xff", 6, mixVal)},
	{"all bytes width 2 then shared tail, values mod 3", 65025, func(n int) *Lex {
		l := &Lex{}
		for i := 0; i < n; i++ {
			l.add(counterKey(i, allBytes, 2)+"\x02\x01tail", int32(i/255%3))
		}
		return l
	}},
	{"all bytes width 2 then one of 4999 shared endings", 65025, func(n int) *Lex {
		l := &Lex{}
		for i := 0; i < n; i++ {
			l.add(counterKey(i, allBytes, 2)+"xy"[:1+i*i%2], int32(i*7919%4999))
		}
		return l
	}},
	{"all bytes width 2 then one of 1201 shared endings, values over the whole range", 65025, func(n int) *Lex {
		l := &Lex{}
		for i := 0; i < n; i++ {
			l.add(counterKey(i, allBytes, 2)+"xy"[:1+i*i%2], MaxInt32-int32(i*7919%1201)*1500007)
		}
		return l
	}},
	{"stems with one of 2003 shared sets of three endings", 52728, func(n int) *Lex {
		ends := []string{"", "g", "ls"}
		l := &Lex{}
		for i := 0; i < n; i++ {
			s := i / 3
			l.add(counterKey(s, "abcdefghijklmnopqrstuvwxyz", 3)+ends[i%3], int32(s*s%2003*2+i%2))
		}
		return l
	}},
}

func xlLexicons() []func() *Lex {
	return []func() *Lex{
		func() *Lex { // distinct values: nothing shared, > 2^21 units
			d := make([]byte, 128)
			for i := range d {
				d[i] = byte(i + 1)
			}
			return fromCounter(string(d), 3, rankVal)(1150000)
		},
		func() *Lex { // shared tails placed early, then > 2^21 units, then the same tails again from far away
			l := &Lex{}
			tails := []string{"", "s", "ed", "er", "ers", "ing", "ion", "ions", "ate", "ates", "ly", "zz"}
			for i := 0; i < 4000; i++ {
				st := "A" + counterKey(i, "abcdefgh", 5)
				for _, t := range tails[i%4 : 4+i%9] {
					l.add(st+t, int32(i%401))
				}
			}
			for i := 0; i < 1100000; i++ {
				l.add("B"+counterKey(i, allBytes[:110], 3), int32(i))
			}
			// the early tails again (C), new tails (D), those in other combinations (E) and in the same ones (0xff)
			for _, p := range []string{"C", "D", "Eaaa", "\xff"} {
				for i := 0; i < 4000; i++ {
					st := p + counterKey(i, "abcdefgh", 5)
					v := int32(i * 3 % 401)
					switch p {
					case "D", "\xff":
						v = int32(1000 + i%401)
					case "Eaaa":
						v = int32(1000 + i*3%401)
					}
					for _, t := range tails[i%4 : 4+i%9] {
						l.add(st+t, v)
					}
				}
			}
			sort.Sort(l)
			return l
		},
		func() *Lex { // scrambled values, sparse labels, keys that are prefixes of others
			dg := make([]byte, 64)
			for i := range dg {
				dg[i] = byte(3 + 4*i)
			}
			l := &Lex{}
			for i := 0; i < 64*64*64; i++ {
				k := counterKey(i, string(dg), 3)
				l.add(k, mixVal(i))
				for j := 0; j < 3; j++ {
					l.add(k+string([]byte{byte(1 + 100*j), dg[i%64]}), mixVal(i*3+j))
				}
			}
			return l
		},
		func() *Lex { // a full table of states (the longest probe chains), each of them looked up again
			l := &Lex{}
			for _, p := range []string{"A", "Bb"} {
				for i := 0; i < 387500; i++ {
					l.add(p+counterKey(i, allBytes[40:113], 3), int32(i))
				}
			}
			return l
		},
		func() *Lex { // nodes at the front whose children come just before, at and just behind a distance of 2^21 units
			l := &Lex{}
			for i := 0; i < 1032000; i++ {
				l.add("\x01"+counterKey(i, allBytes[:110], 3), int32(i))
			}
			for a := 2; a < 256; a++ {
				for x := 0; x < 60; x++ {
					l.add(string([]byte{byte(a), byte(1 + x*4)}), int32(len(l.Keys)))
				}
			}
			return l
		},
		func() *Lex { // chains that fill every unit: nodes at the front get their children when no unit is free, far away
			l := &Lex{}
			for i := 0; i < 9000; i++ {
				l.add(strings.Repeat("\x01", 6)+counterKey(i, allBytes[:100], 2)+strings.Repeat("m", 240), int32(i))
			}
			for depth := 5; depth >= 0; depth-- {
				for a := 2; a < 256; a++ {
					l.add(strings.Repeat("\x01", depth)+string([]byte{byte(a)})+strings.Repeat("c", 256), int32(len(l.Keys)))
				}
			}
			return l
		},
	}
}

// lexFamilies enumerates lexicons, simplest first. heavyOracle marks checks whose oracle costs more per lexicon.
func lexFamilies(tier string) []LexFam {
	thorough := tier == "thorough"
	var fs []LexFam
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}

	u2 := map[string][]string{}
	for _, a := range alphabets {
		u2[a] = universe(a, 3)
	}
	nsub := 1 << 15
	fs = append(fs, LexFam{Name: "subsets-2letters-depth3", N: len(alphabets) * len(schemeNames) * nsub,
		What: "every subset of the 15 strings of length <=3 over 2 letters (incl. the empty key) x 6 value schemes x 4 alphabets",
		Gen: func(i int) *Lex {
			a := alphabets[i%len(alphabets)]
			i /= len(alphabets)
			return subsetLex(u2[a], i/len(schemeNames), i%len(schemeNames), a)
		}})
	u7 := universe("ab", 2)
	v5 := []int32{0, 1, 97, 98 + 256, MaxInt32}
	fs = append(fs, LexFam{Name: "assign-2letters-depth2-5values", N: pow(6, 7),
		What: "every assignment of absent/5 values to the 7 strings of length <=2 over 2 letters",
		Gen:  func(i int) *Lex { return assignLex(u7, i, v5) }})
	u13 := universe("abc", 2)
	fs = append(fs, LexFam{Name: "subsets-3letters-depth2", N: len(schemeNames) << 13,
		What: "every subset of the 13 strings of length <=2 over 3 letters x 6 value schemes",
		Gen:  func(i int) *Lex { return subsetLex(u13, i/len(schemeNames), i%len(schemeNames), "abc") }})
	for _, vv := range [][]int32{{0, 1}, {98, 353}, {5, 5}}[:pick(0, 3)] {
		vv := vv
		fs = append(fs, LexFam{Name: fmt.Sprintf("assign-3letters-depth2-values-%d-%d", vv[0], vv[1]), N: pow(3, 13),
			What: "every assignment of absent/2 values to the 13 strings of length <=2 over 3 letters",
			Gen:  func(i int) *Lex { return assignLex(u13, i, vv) }})
	}
	if thorough {
		u15 := universe("ab", 3)
		fs = append(fs, LexFam{Name: "assign-2letters-depth3-2values", N: pow(3, 15),
			What: "every assignment of absent/2 values to the 15 strings of length <=3 over 2 letters",
			Gen:  func(i int) *Lex { return assignLex(u15, i, []int32{0, 1}) }})
	}
	t16 := exactLen("ab", 4)
	tsch := []int{0, 5, 1}
	fs = append(fs, LexFam{Name: "subsets-length4", N: len(tsch) << 16,
		What: "every subset of the 16 strings of length 4 over 2 letters x 3 value schemes (tail sharing)",
		Gen:  func(i int) *Lex { return subsetLex(t16, i/len(tsch), tsch[i%len(tsch)], "ab") }})
	fs = append(fs, LexFam{Name: "byte-intervals", N: 2 * 255 * 256 / 2,
		What: "every interval [i..j] of one-byte keys x values {equal to the byte, rank mod 2}",
		Gen: func(i int) *Lex {
			vs := i % 2
			i /= 2
			lo := 0
			for i >= 255-lo {
				i -= 255 - lo
				lo++
			}
			l := &Lex{}
			for b := lo; b <= lo+i; b++ {
				if vs == 0 {
					l.add(string([]byte{byte(b + 1)}), int32(b+1))
				} else {
					l.add(string([]byte{byte(b + 1)}), int32(b%2))
				}
			}
			return l
		}})
	nshape := len(shapes)
	nvs := pick(2, 3)
	fs = append(fs, LexFam{Name: "byte-pair-shapes", N: nshape * nvs * 255 * 255,
		What: "9 key-set shapes over two bytes x every ordered byte pair 1..255 x 2 (thorough 3) value schemes",
		Gen: func(i int) *Lex {
			x := byte(i%255 + 1)
			i /= 255
			y := byte(i%255 + 1)
			i /= 255
			return shapeLex(shapes[i%nshape], x, y, i/nshape)
		}})
	sv := specialValues()
	fs = append(fs, LexFam{Name: "special-values", N: 2 * 255 * len(sv),
		What: "every byte as (first) label x every boundary value 2^k-1, 2^k, 2^k+1, max-2^k, ... as leaf value, alone and beside a sibling",
		Gen: func(i int) *Lex {
			two := i%2 == 1
			i /= 2
			b := byte(i%255 + 1)
			v := sv[i/255]
			l := &Lex{}
			l.add(string([]byte{b}), v)
			if two {
				l.add(string([]byte{b, 255 - b/2}), v/2)
				l.add(string([]byte{b, 255 - b/2, 1}), v)
			}
			return l
		}})
	gmax := pick(400, 2500)
	fs = append(fs, LexFam{Name: "growing-histories", N: len(growKinds) * (gmax + 1), Big: true,
		What: fmt.Sprintf("%d growing insertion histories, finished after every number of keys 0..%d", len(growKinds), gmax),
		Gen: func(i int) *Lex {
			l := growKinds[i%len(growKinds)].gen(i / len(growKinds))
			l.Big = l.Len() > 40
			return l
		}})
	const nearMax = 24
	fs = append(fs, LexFam{Name: "near-equal-states", N: 3 * nearMax * (nearMax + 1) / 2, Big: true,
		What: fmt.Sprintf("90 states of every width 1..%d that differ in one transition only, at every position: in the value below it, in its label, or in its absence", nearMax),
		Gen: func(i int) *Lex {
			kind := i % 3
			i /= 3
			w := 1
			for i >= w {
				i -= w
				w++
			}
			l := &Lex{Big: true}
			for s := 0; s < 90; s++ {
				for c := 0; c < w; c++ {
					b, v := byte(5+10*c), int32(c%2)
					if c == i {
						switch kind {
						case 0:
							v = int32(100 + s)
						case 1:
							b += byte(s % 9)
							v += int32(s / 9)
						case 2:
							if s%2 == 1 {
								continue
							}
							v = int32(s / 2)
						}
					} else if kind == 2 && c == (i+1)%w {
						v = int32(s / 2)
					}
					l.add(string([]byte{byte(1 + s), b}), v)
				}
			}
			return l
		}})
	fs = append(fs, LexFam{Name: "wide-nodes", N: 256 * 12, Big: true,
		What: "nodes of every width 0..255, with and without an end of key beside, in 6 surroundings (root; two equal nodes below other bytes; every child with a key and a continuation; the same below 0xff with falling values; equal nodes before and after one and two growths of the hash table)",
		Gen: func(i int) *Lex {
			form, term, n := i%6, i/6%2 == 1, i/12
			l := &Lex{Big: n > 40 || form > 3}
			node := func(p string) {
				if term {
					l.add(p, int32(n))
				}
				for c := 0; c < n; c++ {
					b := c + 1
					if form%2 == 1 {
						b += 255 - n
					}
					k := p + string([]byte{byte(b)})
					switch form {
					case 0:
						l.add(k, int32(c%3))
					case 1:
						l.add(k, int32(c*7%5))
					case 2:
						l.add(k, int32(c))
						l.add(k+"x", int32(2*c))
					case 3:
						l.add(k+"\x01", int32(1000-c))
						l.add(k+"\xff", int32(500+c))
					case 4, 5:
						l.add(k, int32(c%2))
					}
				}
			}
			switch form {
			case 0, 2:
				node("")
			case 1:
				node("m")
				node("n")
			case 3:
				l.add("\x01", 3)
				node("\xff")
			case 4, 5:
				node("a")
				node("b")
				for c := 0; c < 210*(form-3)*(form-3); c++ {
					l.add("m"+string([]byte{byte(1 + c/30), byte(1 + c%30)}), int32(10+c))
				}
				node("y")
				node("z")
			}
			return l
		}})
	longs := []int{}
	for n := 0; n <= pick(300, 1200); n++ {
		longs = append(longs, n)
	}
	for _, n := range []int{1023, 1024, 1025, 2048, 4095, 4096, 4097, 10000, 65535, 65536, 100000} {
		if n > longs[len(longs)-1] {
			longs = append(longs, n)
		}
	}
	fs = append(fs, LexFam{Name: "long-keys", N: 3 * len(longs), Big: true,
		What: "every key length 0..300 (thorough 1200) and lengths around powers of two up to 100000, in 3 forms (one key; fork at the end; fork at both ends with shared tail)",
		Gen: func(i int) *Lex {
			n := longs[i/3]
			a := strings.Repeat("q\xf0\x01", n/3+1)[:n]
			l := &Lex{Big: n > 40}
			switch i % 3 {
			case 0:
				l.add(a, int32(n))
			case 1:
				l.add(a, 1)
				l.add(a+"\x01", 0x171)
				l.add(a+"\xff", 2)
			case 2:
				l.add("\x01"+a+"z", 3)
				l.add("\x01"+a+"zz", 4)
				l.add("b"+a+"z", 3)
				l.add("b"+a+"zz", 4)
			}
			return l
		}})
	var ths []int
	for _, n := range []int{1000, 1535, 1536, 1537, 2047, 2048, 2049, 3071, 3072, 3073, 4095, 4096, 4097, 6143, 6144, 6145, 8192, 12287, 12288, 12289, 15625, 20000, 24576, 33000, 46656, 49152, 65025} {
		ths = append(ths, n)
	}
	type kn struct{ k, n int }
	var bigs []kn
	for k := range growKinds {
		for _, n := range ths {
			if n <= growKinds[k].max {
				bigs = append(bigs, kn{k, n})
			}
		}
	}
	fs = append(fs, LexFam{Name: "large-histories", N: len(bigs), Big: true,
		What: "the growing histories at and around table-growth and block-count thresholds up to 65025 keys",
		Gen: func(i int) *Lex {
			l := growKinds[bigs[i].k].gen(bigs[i].n)
			l.Big = true
			return l
		}})
	xl := xlLexicons()
	fs = append(fs, LexFam{Name: "xl", N: len(xl), XL: true, Big: true,
		What: "key sets of about a million keys, most of them needing more than 2^21 units (extended offsets, tails too far away to share, distances of exactly 2^21), one with a full hash table of states each of which occurs twice, one in which far nodes are placed while no unit is free",
		Gen: func(i int) *Lex {
			l := xl[i]()
			l.Big, l.XL = true, true
			return l
		}})
	return fs
}

// overLex turns an oracle on one lexicon into families.
func overLex(fams []LexFam, oracle func(w *W, l *Lex)) []*Family {
	var out []*Family
	for _, lf := range fams {
		lf := lf
		out = append(out, &Family{Name: lf.Name, N: lf.N, What: lf.What, Heavy: lf.XL || lf.Name == "large-histories",
			Run: func(w *W, i int) {
				l := lf.Gen(i)
				w.State(l.hash())
				oracle(w, l)
				if i == lf.N/2 && l.Len() < 12 {
					w.Sample(lf.Name + ": " + l.String())
				}
			},
			Show: func(i int) string { return lf.Gen(i).String() }})
	}
	return out
}

// only keeps the named families.
func without(fams []LexFam, names ...string) []LexFam {
	var out []LexFam
next:
	for _, f := range fams {
		for _, n := range names {
			if f.Name == n {
				continue next
			}
		}
		out = append(out, f)
	}
	return out
}
