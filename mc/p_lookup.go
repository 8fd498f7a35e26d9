package main

// C01 exact lookup, C02 prefix navigation, C03 insertion contract.

import (
	"strings"

	"github.com/deNULL/dawg"
)

// language runs the product of the real automaton with the reference trie: every node, every next byte.
// It returns the dictionary index of every trie node.
func language(w *W, l *Lex, dict *dawg.Dictionary) []uint32 {
	t := l.Trie()
	pos := make([]uint32, len(t))
	pos[0] = dict.Root()
	var want [256]int32
	for i := range want {
		want[i] = -1
	}
	for ni := range t {
		n := &t[ni]
		at := pos[ni]
		if has := dict.HasValue(at); has != n.IsKey {
			w.Failf("at prefix %q: HasValue=%v, want %v", l.prefix(n), has, n.IsKey)
		}
		if n.IsKey {
			if v := dict.Value(at); v != l.Vals[n.Lo] {
				w.Failf("at key %q: Value=%d, want %d", l.prefix(n), v, l.Vals[n.Lo])
			}
		}
		for c := n.First; c >= 0; c = t[c].Next {
			want[t[c].Label] = c
		}
		for b := 0; b < 256; b++ {
			idx := at
			ok := dict.Follow(byte(b), &idx)
			c := want[b]
			if ok != (c >= 0) {
				w.Failf("at prefix %q: Follow(0x%02x)=%v, want %v", l.prefix(n), b, ok, c >= 0)
			}
			if ok {
				pos[c] = idx
			} else if idx != at {
				w.Failf("at prefix %q: failed Follow(0x%02x) moved the position", l.prefix(n), b)
			}
		}
		w.Transitions += 256
		for c := n.First; c >= 0; c = t[c].Next {
			want[t[c].Label] = -1
		}
	}
	return pos
}

// accepts compares the sets of accepted strings (and their values) of the real automaton and the reference trie. A step
// that succeeds outside the trie is an error only if a value can be found behind it (explored two more steps deep).
func accepts(w *W, l *Lex, dict *dawg.Dictionary) []uint32 {
	t := l.Trie()
	pos := make([]uint32, len(t))
	pos[0] = dict.Root()
	var want [256]int32
	for i := range want {
		want[i] = -1
	}
	for ni := range t {
		n := &t[ni]
		at := pos[ni]
		if has := dict.HasValue(at); has != n.IsKey {
			w.Failf("string %q: reported present=%v, want %v", l.prefix(n), has, n.IsKey)
		}
		if n.IsKey {
			if v := dict.Value(at); v != l.Vals[n.Lo] {
				w.Failf("key %q: value %d, want %d", l.prefix(n), v, l.Vals[n.Lo])
			}
		}
		for c := n.First; c >= 0; c = t[c].Next {
			want[t[c].Label] = c
		}
		for b := 0; b < 256; b++ {
			idx := at
			ok := dict.Follow(byte(b), &idx)
			if c := want[b]; c >= 0 {
				if !ok {
					w.Failf("key %q not found (stuck after %q)", l.Keys[t[c].Lo], l.prefix(n))
				}
				pos[c] = idx
			} else if ok {
				if s, bad := strayValue(dict, idx, 2); bad {
					w.Failf("string %q reported present although never inserted", l.prefix(n)+string([]byte{byte(b)})+s)
				}
			}
		}
		w.Transitions += 256
		for c := n.First; c >= 0; c = t[c].Next {
			want[t[c].Label] = -1
		}
	}
	return pos
}

func strayValue(dict *dawg.Dictionary, idx uint32, depth int) (string, bool) {
	if int(idx) >= dict.Size() {
		return "", false
	}
	if dict.HasValue(idx) {
		return "", true
	}
	if depth == 0 {
		return "", false
	}
	for b := 0; b < 256; b++ {
		at := idx
		if dict.Follow(byte(b), &at) {
			if s, bad := strayValue(dict, at, depth-1); bad {
				return string([]byte{byte(b)}) + s, true
			}
		}
	}
	return "", false
}

// neighbours looks up, for every trie node and every next byte, the extended string.
func neighbours(w *W, l *Lex, dict *dawg.Dictionary) {
	t := l.Trie()
	limit := 4000000 // bytes of query text
	var buf []byte
	for ni := range t {
		n := &t[ni]
		p := l.prefix(n)
		buf = append(append(buf[:0], p...), 0)
		limit -= 256 * len(buf)
		if limit < 0 {
			break
		}
		c := n.First
		for b := 0; b < 256; b++ {
			buf[len(p)] = byte(b)
			v := int32(-1)
			if c >= 0 && int(t[c].Label) == b {
				if t[c].IsKey {
					v = l.Vals[t[c].Lo]
				}
				c = t[c].Next
			}
			s := string(buf)
			if got := dict.FindString(s); got != v {
				w.Failf("FindString(%q)=%d, want %d", s, got, v)
			}
		}
		w.Transitions += 256
	}
}

func checkLookup(w *W, l *Lex, dict *dawg.Dictionary, s string) {
	v, in := l.find(s)
	if got := dict.ContainsString(s); got != in {
		w.Failf("ContainsString(%q)=%v, want %v", s, got, in)
	}
	if got := dict.FindString(s); got != v {
		w.Failf("FindString(%q)=%d, want %d", s, got, v)
	}
	out := int32(-77)
	if got := dict.FindStringValue(s, &out); got != in || (in && out != v) || (!in && out != -77) {
		w.Failf("FindStringValue(%q)=%v,%d, want %v,%d (out parameter -77 before)", s, got, out, in, v)
	}
	w.Transitions += 3
}

func checkLookupLen(w *W, l *Lex, dict *dawg.Dictionary, s string, n int) {
	v, in := l.find(s[:n])
	if got := dict.ContainsStringLen(s, n); got != in {
		w.Failf("ContainsStringLen(%q,%d)=%v, want %v", s, n, got, in)
	}
	if got := dict.FindStringLen(s, n); got != v {
		w.Failf("FindStringLen(%q,%d)=%d, want %d", s, n, got, v)
	}
	out := int32(-78)
	if got := dict.FindStringLenValue(s, n, &out); got != in || (in && out != v) || (!in && out != -78) {
		w.Failf("FindStringLenValue(%q,%d)=%v,%d, want %v,%d (out parameter -78 before)", s, n, got, out, in, v)
	}
	w.Transitions += 3
}

// letters used by a lexicon (at most max), plus a foreign byte and NUL.
func lettersOf(l *Lex, max int) string {
	seen := map[byte]bool{}
	var out []byte
	for _, k := range l.Keys {
		for i := 0; i < len(k) && len(out) < max; i++ {
			if !seen[k[i]] {
				seen[k[i]] = true
				out = append(out, k[i])
			}
		}
	}
	for b := 255; b > 0; b-- {
		if !seen[byte(b)] {
			out = append(out, byte(b))
			break
		}
	}
	return string(append(out, 0))
}

// nearPow2 reports whether n is within one of a power of two (or 0).
func nearPow2(n int) bool {
	for _, m := range []int{n - 1, n, n + 1} {
		if m >= 0 && m&(m-1) == 0 {
			return true
		}
	}
	return false
}

// queries calls f with every query string of a complete neighbourhood of the lexicon.
func queries(l *Lex, f func(s string)) {
	if !l.Big {
		ls := lettersOf(l, 3)
		maxLen := 0
		for _, k := range l.Keys {
			if len(k) > maxLen {
				maxLen = len(k)
			}
		}
		depth := 3
		if maxLen > 2 {
			depth = 3
		}
		buf := make([]byte, 0, 8)
		var rec func(d int)
		rec = func(d int) {
			f(string(buf))
			if d == 0 {
				return
			}
			for i := 0; i < len(ls); i++ {
				buf = append(buf, ls[i])
				rec(d - 1)
				buf = buf[:len(buf)-1]
			}
		}
		rec(depth)
	}
	step := 1
	if len(l.Keys) > 20000 {
		step = len(l.Keys)/20000 + 1
	}
	total := 0
	for i := 0; i < len(l.Keys); i += step {
		k := l.Keys[i]
		f(k)
		f(k + "\x00")
		f(k + "a")
		f(k + "\xff")
		f("\x00" + k)
		if k == "" {
			continue
		}
		f(k[:len(k)-1])
		f(k[1:])
		f(k[:len(k)-1] + string([]byte{k[len(k)-1] + 1}))
		f(k[:len(k)-1] + string([]byte{k[len(k)-1] - 1}))
		f(k + k)
		if len(k) > 1 {
			f(k[:len(k)/2] + "\x00" + k[len(k)/2:])
			f(k[:len(k)/2] + k[len(k)/2+1:])
		}
		if len(l.Keys) <= 4 { // an intruder, a substitution and a gap at every position of a long key
			for j := range k {
				if len(k) > 120 && !nearPow2(j) && !nearPow2(len(k)-j) {
					continue
				}
				f(k[:j] + "\x00" + k[j:])
				f(k[:j] + "\x02" + k[j:])
				f(k[:j] + string([]byte{k[j] ^ 1}) + k[j+1:])
				f(k[:j] + k[j+1:])
			}
		}
		total += len(k)
		if total > 3000000 {
			break
		}
	}
}

func init() {
	register(&Check{
		Prop:    "C01",
		StateIs: "state: one key/value set built by the real builders; transition: one (trie node, next byte) or lookup call compared with the reference set; trace: one build-and-query history",
		Assumptions: []string{
			"key sets beyond the enumerated families are not covered",
			"a dictionary is a deterministic automaton: agreement on every (node, byte) decides all query strings for Follow-based lookups; the lookup wrappers themselves are compared on the enumerated neighbourhood of the keys",
		},
		Families: func(tier string) []*Family {
			return overLex(lexFamilies(tier), func(w *W, l *Lex) {
				_, dict := buildDict(w, l)
				accepts(w, l, dict)
				neighbours(w, l, dict)
				n := 0
				queries(l, func(s string) {
					checkLookup(w, l, dict, s)
					n++
					if !l.Big && len(s) <= 3 {
						checkLookupLen(w, l, dict, s, len(s)*(n%2))
						checkLookupLen(w, l, dict, s, len(s)-len(s)/2)
					} else {
						checkLookupLen(w, l, dict, s, len(s))
						if n%2 == 0 && len(s) > 0 {
							checkLookupLen(w, l, dict, s, len(s)-1)
						}
					}
				})
			})
		},
	})
	register(&Check{
		Prop:    "C02",
		StateIs: "state: one key/value set built by the real builders; transition: one (trie node, next byte) step or one string walk compared with the reference trie; trace: one build-and-navigate history",
		Assumptions: []string{
			"key sets beyond the enumerated families are not covered",
		},
		Families: func(tier string) []*Family {
			return overLex(lexFamilies(tier), func(w *W, l *Lex) {
				_, dict := buildDict(w, l)
				pos := language(w, l, dict)
				t := l.Trie()
				// index of every prefix, reached step by step, for comparison with the string forms
				at := func(s string) uint32 {
					n := int32(0)
				outer:
					for i := 0; i < len(s); i++ {
						for c := t[n].First; c >= 0; c = t[c].Next {
							if t[c].Label == s[i] {
								n = c
								continue outer
							}
						}
						break
					}
					return pos[n]
				}
				k := 0
				queries(l, func(s string) {
					k++
					n := len(s)
					m := l.matched(s)
					end := at(s[:m])
					idx := dict.Root()
					if ok := dict.FollowString(s, &idx); ok != (m == n) || idx != end {
						w.Failf("FollowString(%q)=%v at %d, want %v at %d (longest match %d)", s, ok, idx, m == n, end, m)
					}
					idx, cnt := dict.Root(), 5
					if ok := dict.FollowStringCount(s, &idx, &cnt); ok != (m == n) || idx != end || cnt != 5+m {
						w.Failf("FollowStringCount(%q)=%v at %d, matched %d, want %v at %d matched %d", s, ok, idx, cnt-5, m == n, end, m)
					}
					half := n - k%2
					if half < 0 {
						half = 0
					}
					hm := m
					if hm > half {
						hm = half
						end = at(s[:hm])
					}
					idx = dict.Root()
					if ok := dict.FollowStringLen(s, half, &idx); ok != (hm == half) || idx != end {
						w.Failf("FollowStringLen(%q,%d)=%v at %d, want %v at %d", s, half, ok, idx, hm == half, end)
					}
					idx, cnt = dict.Root(), 0
					if ok := dict.FollowStringLenCount(s, half, &idx, &cnt); ok != (hm == half) || idx != end || cnt != hm {
						w.Failf("FollowStringLenCount(%q,%d)=%v at %d, matched %d, want %v at %d matched %d", s, half, ok, idx, cnt, hm == half, end, hm)
					}
					w.Transitions += 4
					// continuing from an inner node
					if n > 1 && m == n {
						idx, cnt = at(s[:1]), 0
						if !dict.FollowStringCount(s[1:], &idx, &cnt) || idx != at(s) || cnt != n-1 {
							w.Failf("FollowStringCount(%q) continued from %q differs from the direct walk", s[1:], s[:1])
						}
						w.Transitions++
					}
				})
			})
		},
	})
	register(&Check{
		Prop:    "C03",
		StateIs: "state: accepted key set after a history; transition: one insert call with its result compared; trace: one insert history, finished, built and compared with the set of accepted keys",
		Assumptions: []string{
			"histories longer than the bound, and keys outside the alphabet, are covered only by the parametric families",
		},
		Families: c03Families,
	})
}

type insOp struct {
	key  string
	val  int32
	form int // 0 InsertKeyValue exact, 1 InsertKeyValue with longer buffer, 2 InsertStringValue, 3 InsertString
}

func c03Families(tier string) []*Family {
	var out []*Family
	keys := []string{"", "a", "aa", "ab", "b", "a\xff", "\x00", "a\x00", "a\x00b"}
	var ops []insOp
	for i, k := range keys {
		ops = append(ops, insOp{k, 0, i % 3}, insOp{k, 3, (i + 1) % 3})
	}
	ops = append(ops, insOp{"a", -1, 0}, insOp{"b", -2147483648, 2}, insOp{"ab", MaxInt32, 1}, insOp{"aa", 0, 3}, insOp{"b", 0, 3}, insOp{"a\xff", 0, 3}, insOp{"a\x00", 0, 3})
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	for d := 1; d <= depth; d++ {
		d := d
		decode := func(i int) []insOp {
			h := make([]insOp, d)
			for k := range h {
				h[k] = ops[i%len(ops)]
				i /= len(ops)
			}
			return h
		}
		out = append(out, &Family{Name: "histories-depth" + string(rune('0'+d)), N: pow(len(ops), d),
			What: "every sequence of insert calls of this length over 25 calls (ordered, equal, smaller, prefix, NUL, negative, all forms)",
			Run:  func(w *W, i int) { insertHistory(w, decode(i)) },
			Show: func(i int) string { return showOps(decode(i)) }})
	}
	// every pair of keys over a byte class alphabet: acceptance is exactly byte order
	al := universe("\x01a\x7f\x80\xff", 2)
	n := len(al)
	out = append(out, &Family{Name: "all-key-pairs", N: n * n * 2 * 16, What: "every ordered pair of the 31 keys of length <=2 over bytes 01,61,7f,80,ff x all pairs of insert forms, followed by a third larger key or not",
		Run: func(w *W, i int) {
			f := i / n / n / 2
			h := []insOp{{al[i%n], 1, f & 3}, {al[i/n%n], 2, f >> 2}}
			if i/n/n&1 == 1 {
				h = append(h, insOp{"\xff\xff\xff", 3, f & 3})
			}
			insertHistory(w, h)
		}})
	out = append(out, &Family{Name: "byte-order", N: 4 * 256 * 256, What: "every pair of one-byte keys 00..ff x 4 rotations of the insert forms",
		Run: func(w *W, i int) {
			f := i >> 16
			insertHistory(w, []insOp{{string([]byte{byte(i)}), 1, f}, {string([]byte{byte(i >> 8)}), 2, (f + 1) & 3}, {string([]byte{byte(i)}), 7, (f + 2) & 3}})
		}})
	// growing histories with a refused insert at every position
	max := 160
	if tier == "thorough" {
		max = 700
	}
	out = append(out, &Family{Name: "refusals-in-growing-histories", N: len(growKinds) * max,
		What: "13 growing histories of every length, each accepted insert surrounded by refused ones (smaller key, prefix, NUL, negative) and value replacement",
		Run: func(w *W, i int) {
			l := growKinds[i%len(growKinds)].gen(i/len(growKinds) + 1)
			var h []insOp
			for j, k := range l.Keys {
				if j > 0 {
					prev := l.Keys[j-1]
					h = append(h, insOp{l.Keys[j/2], l.Vals[j/2], 0})
					if prev != "" {
						h = append(h, insOp{prev[:len(prev)-1], 1, 1})
						h = append(h, insOp{prev[:len(prev)-1] + "\x01", 1, 2})
					}
				}
				h = append(h, insOp{k + "\x00", 1, 0}, insOp{k + "z", -5, 2}, insOp{k + "\x00", 0, 3}, insOp{k, 0, 3}, insOp{k, 900 + int32(j), j % 3}, insOp{k, l.Vals[j], (j + 1) % 3})
				h = append(h, insOp{k, -1, 0})
			}
			insertHistory(w, h)
		}})
	// exact-length form: long buffers
	out = append(out, &Family{Name: "lengths", N: 4 * 400, What: "inserts of every length 0..199 in 4 forms (explicit-length ones from one long buffer), ascending and descending",
		Run: func(w *W, i int) {
			f := i / 400
			i %= 400
			n := i % 200
			buf := strings.Repeat("kz\xfe", 70)
			var h []insOp
			if i < 200 {
				for j := 0; j <= n; j++ {
					h = append(h, insOp{buf[:j], int32(j), f})
				}
			} else {
				for j := n; j >= 0; j-- {
					h = append(h, insOp{buf[:j], int32(j), f})
				}
			}
			insertHistory(w, h)
		}})
	// order, NUL and replacement decided at every position of a long key
	type np struct{ n, p int }
	var nps []np
	for n := 1; n <= 130; n++ {
		for p := 0; p < n; p++ {
			nps = append(nps, np{n, p})
		}
	}
	nSmall := len(nps)
	for _, n := range []int{255, 256, 257, 1000, 4096, 65535, 65536, 65537, 100000} {
		for p := 0; p < n; p++ {
			if nearPow2(p) || p >= n-2 {
				nps = append(nps, np{n, p})
			}
		}
	}
	npAt := func(i int) np { // four rotations of the forms for the shorter keys
		if i < 4*nSmall {
			return nps[i/4]
		}
		return nps[i-3*nSmall]
	}
	out = append(out, &Family{Name: "long-key-contract", N: 4*nSmall + len(nps) - nSmall,
		What: "4 rotations of the insert forms (one for keys over 130 bytes) x keys of every length 1..130 and of 255..100000 bytes: a NUL, a smaller byte, a missing rest, a larger byte at every position (positions around powers of two in keys over 130), between replacements of the value",
		Run: func(w *W, i int) {
			n, p := npAt(i).n, npAt(i).p
			k := strings.Repeat("\x80m\x7f", n/3+1)[:n]
			with := func(b byte) string { return k[:p] + string([]byte{b}) + k[p+1:] }
			h := []insOp{{"\x01", 4, 2}, {with(0), 6, i % 3}, {k[:p+1] + "\x00" + k[p+1:], 6, 0}, {k, 5, 0}, {with(0), 6, 1}, {with(k[p] - 1), 6, 2}, {k[:p], 6, 0}, {k, 9, 1},
				{k[:p] + "\x00" + k[p:], 6, 0}, {k, -1, 2}, {k, 3, 2}, {with(k[p] + 1), 8, i % 3}, {k, 2, 0}, {with(k[p]+1) + "\x00", 6, 2}, {with(k[p] + 1), 1, 1}}
			for j := range h {
				h[j].form = (h[j].form + i) & 3
			}
			insertHistory(w, h)
		},
		Show: func(i int) string {
			return "key length " + itoa(int64(npAt(i).n)) + ", position " + itoa(int64(npAt(i).p))
		}})
	return out
}

func showOps(h []insOp) string {
	var sb strings.Builder
	for _, o := range h {
		sb.WriteString(o.String())
		sb.WriteString("; ")
	}
	return sb.String()
}

func (o insOp) String() string {
	switch o.form {
	case 2:
		return "InsertStringValue(" + quote(o.key) + "," + itoa(int64(o.val)) + ")"
	case 3:
		return "InsertString(" + quote(o.key) + ")"
	case 1:
		return "InsertKeyValue(" + quote(o.key) + "+junk," + itoa(int64(len(o.key))) + "," + itoa(int64(o.val)) + ")"
	}
	return "InsertKeyValue(" + quote(o.key) + "," + itoa(int64(len(o.key))) + "," + itoa(int64(o.val)) + ")"
}

func doInsert(b *dawg.DawgBuilder, o insOp) bool {
	switch o.form {
	case 2:
		return b.InsertStringValue(o.key, o.val)
	case 3:
		return b.InsertString(o.key)
	}
	buf := []byte(o.key)
	n := len(buf)
	if o.form == 1 {
		buf = append(buf, "\x00j\xff"...)
	}
	ok := b.InsertKeyValue(buf, n, o.val)
	for i := range buf { // the caller may reuse its buffer
		buf[i] = 0x5a
	}
	return ok
}

// model of the insertion contract
func (l *Lex) accept(o insOp) bool {
	if o.form == 3 { // InsertString
		o.val = 0
	}
	if o.val < 0 || strings.IndexByte(o.key, 0) >= 0 {
		return false
	}
	n := len(l.Keys)
	if n > 0 && o.key < l.Keys[n-1] {
		return false
	}
	if n > 0 && o.key == l.Keys[n-1] {
		l.Vals[n-1] = o.val
		return true
	}
	l.add(o.key, o.val)
	return true
}

func insertHistory(w *W, h []insOp) {
	b := dawg.NewDawgBuilder()
	l := &Lex{}
	for _, o := range h {
		w.Tracef("%v", o)
		want := l.accept(o)
		if got := doInsert(b, o); got != want {
			w.Failf("%v returned %v, want %v (last accepted key %s)", o, got, want, lastKey(l))
		}
		w.Transitions++
	}
	w.State(l.hash())
	d := dawg.NewDawg()
	b.Finish(d)
	dict := d.Build()
	if dict == nil {
		w.Failf("building the dictionary failed")
	}
	accepts(w, l, dict)
}

func lastKey(l *Lex) string {
	if len(l.Keys) == 0 {
		return "none"
	}
	return quote(l.Keys[len(l.Keys)-1])
}
