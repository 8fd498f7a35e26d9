package main

// C06 plain completion, C07 ranked completion, C08 ranked guide orders, C09 indexing, C19 completer sessions.

import (
	"fmt"
	"sort"
	"strings"

	"github.com/deNULL/dawg"
)

// completer is what both completers offer.
type completer interface {
	Start(uint32)
	StartString(uint32, string)
	StartStringLen(uint32, string, int)
	Next() bool
	Key() string
	Value() int32
	Length() int
}

// positions walks to every trie node.
func positions(w *W, l *Lex, dict *dawg.Dictionary) []uint32 {
	t := l.Trie()
	pos := make([]uint32, len(t))
	pos[0] = dict.Root()
	for ni := 1; ni < len(t); ni++ {
		idx := pos[t[ni].Parent]
		if !dict.Follow(t[ni].Label, &idx) {
			w.Failf("prefix %q of a key cannot be reached", l.prefix(&t[ni]))
		}
		pos[ni] = idx
	}
	return pos
}

// starts lists the trie nodes completions are started from.
func starts(l *Lex) []int32 {
	t := l.Trie()
	var out []int32
	if !l.Big {
		for i := range t {
			out = append(out, int32(i))
		}
		return out
	}
	budget := 6000
	if l.XL {
		budget = 200000
	}
	big := 0
	for i := range t {
		n := int(t[i].Hi - t[i].Lo)
		if t[i].Depth <= 1 && big < 40000 {
			out = append(out, int32(i))
			big += n
		} else if n <= 64 && budget > 0 {
			out = append(out, int32(i))
			budget -= n + int(t[i].Depth)
		}
	}
	return out
}

// check one full run of a completer started at node ni with the text given as prefix.
func fullRun(w *W, l *Lex, c completer, ni int32, text string, ranked bool, seen []bool) {
	t := l.Trie()
	n := &t[ni]
	lo, hi := int(n.Lo), int(n.Hi)
	last := int32(MaxInt32)
	for k := lo; k < hi; k++ {
		if !c.Next() {
			w.Failf("from prefix %q: exhausted after %d of %d keys", l.prefix(n), k-lo, hi-lo)
		}
		key, val, length := c.Key(), c.Value(), c.Length()
		w.Transitions++
		if !ranked {
			want := text + l.Keys[k][n.Depth:]
			if key != want || val != l.Vals[k] || length != len(want) {
				w.Failf("from prefix %q, completion %d: key %q value %d length %d, want %q value %d length %d", l.prefix(n), k-lo, key, val, length, want, l.Vals[k], len(want))
			}
			continue
		}
		if !strings.HasPrefix(key, text) {
			w.Failf("from prefix %q started with text %q: completion %q does not begin with the text", l.prefix(n), text, key)
		}
		full := l.prefix(n) + key[len(text):]
		j := lo + sort.SearchStrings(l.Keys[lo:hi], full)
		if j >= hi || l.Keys[j] != full {
			w.Failf("from prefix %q: completion %q is not a key", l.prefix(n), key)
		}
		if seen[j] {
			w.Failf("from prefix %q: completion %q came twice", l.prefix(n), key)
		}
		seen[j] = true
		if val != l.Vals[j] || length != len(key) {
			w.Failf("from prefix %q: completion %q has value %d length %d, want %d and %d", l.prefix(n), key, val, length, l.Vals[j], len(key))
		}
		if val > last {
			w.Failf("from prefix %q: completion %q with value %d came after one with value %d", l.prefix(n), key, val, last)
		}
		last = val
	}
	if ranked {
		for k := lo; k < hi; k++ {
			seen[k] = false
		}
	}
	for i := 0; i < 3; i++ {
		if c.Next() {
			w.Failf("from prefix %q: %q came after all %d keys", l.prefix(n), c.Key(), hi-lo)
		}
	}
}

// runAll starts a completer at every start node in every form.
func runAll(w *W, l *Lex, dict *dawg.Dictionary, c completer, ranked bool) {
	pos := positions(w, l, dict)
	t := l.Trie()
	seen := make([]bool, l.Len())
	for _, ni := range starts(l) {
		p := l.prefix(&t[ni])
		w.Tracef("StartString(node of %q)", p)
		c.StartString(pos[ni], p)
		fullRun(w, l, c, ni, p, ranked, seen)
		if l.Big && t[ni].Hi-t[ni].Lo > 2000 {
			continue
		}
		w.Tracef("Start(node of %q)", p)
		c.Start(pos[ni])
		fullRun(w, l, c, ni, "", ranked, seen)
		w.Tracef("StartStringLen(node of %q)", p)
		c.StartStringLen(pos[ni], p+"\xffjunk", len(p))
		fullRun(w, l, c, ni, p, ranked, seen)
	}
}

func checkCompleter(w *W, l *Lex) {
	d, dict := buildDict(w, l)
	g := dawg.BuildGuide(d, dict)
	if g == nil {
		w.Failf("building the guide failed")
	}
	runAll(w, l, dict, dawg.NewCompleter(dict, g), false)
}

func checkRankedCompleter(w *W, l *Lex) {
	d, dict := buildDict(w, l)
	g := dawg.BuildRankedGuide(d, dict)
	if g == nil {
		w.Failf("building the ranked guide failed")
	}
	runAll(w, l, dict, dawg.NewRankedCompleter(dict, g), true)
}

// rankFamilies: all value assignments matter for ranking.
func rankFamilies(tier string) []LexFam {
	u7 := universe("ab", 2)
	vals := []int32{0, 1, 2, 3}
	fs := []LexFam{{Name: "assign-2letters-depth2-4ranks", N: pow(5, 7), What: "every assignment of absent/values 0..3 to the 7 strings of length <=2 over 2 letters",
		Gen: func(i int) *Lex { return assignLex(u7, i, vals) }}}
	// permutations: every order of 6 distinct values on 6 keys, in several shapes
	shapes := [][]string{
		{"", "a", "ab", "abc", "abd", "b"}, {"a", "aa", "aaa", "ab", "b", "ba"}, {"a", "b", "c", "d", "e", "f"},
		{"ax", "ay", "az", "bx", "by", "bz"}, {"", "a", "aa", "aaa", "aaaa", "aaaaa"}, {"x", "xa", "xab", "xb", "xba", "y"},
	}
	fs = append(fs, LexFam{Name: "permutations-6", N: len(shapes) * 720, What: "6 key-set shapes of 6 keys x every order of 6 distinct values",
		Gen: func(i int) *Lex {
			sh := shapes[i%len(shapes)]
			i /= len(shapes)
			pool := []int32{10, 20, 30, 40, 50, 60}
			l := &Lex{}
			for k := range sh {
				n := len(sh) - k
				j := i % n
				i /= n
				l.add(sh[k], pool[j])
				pool = append(pool[:j:j], pool[j+1:]...)
			}
			return l
		}})
	// shared tails below differently ranked prefixes
	fs = append(fs, LexFam{Name: "shared-tails-ranked", N: pow(3, 8), What: "4 prefixes x shared 4-key tails: every choice of 3 tail value patterns for 4 prefixes and every value of each prefix itself (absent, 1, 2)",
		Gen: func(i int) *Lex {
			l := &Lex{}
			pats := [][]int32{{1, 2, 3, 0}, {3, 1, 2, 0}, {2, 2, 1, 5}}
			for _, p := range []string{"a", "b", "c", "d"} {
				pt := pats[i%3]
				i /= 3
				own := i % 3
				i /= 3
				if own > 0 {
					l.add(p, int32(own))
				}
				for k, tl := range []string{"s", "sx", "t", "tyz"} {
					l.add(p+tl, pt[k])
				}
			}
			return l
		}})
	return append(fs, lexFamilies(tier)...)
}

// weakOrders lists all 13 weak orders on the values 0,1,2 as rank arrays.
func weakOrders(n int) [][]int32 {
	seen := map[string]bool{}
	var out [][]int32
	for i := 0; i < pow(n, n); i++ {
		r := make([]int32, n)
		x := i
		used := map[int32]bool{}
		for k := range r {
			r[k] = int32(x % n)
			x /= n
			used[r[k]] = true
		}
		ok := true // ranks contiguous from 0
		for v := int32(0); int(v) < len(used); v++ {
			ok = ok && used[v]
		}
		if s := fmt.Sprint(r); ok && !seen[s] {
			seen[s] = true
			out = append(out, r)
		}
	}
	return out
}

// checkOrder: the guide built with comparator rank(v) lists continuations best first.
func checkOrder(w *W, l *Lex, rank func(int32) int64) {
	d, dict := buildDict(w, l)
	g := dawg.BuildRankedGuideCmp(d, dict, func(a, b int32) bool { return rank(a) < rank(b) })
	if g == nil {
		w.Failf("building the ranked guide failed")
	}
	if l.Len() == 0 {
		c := dawg.NewRankedCompleter(dict, g)
		c.Start(dict.Root())
		if c.Next() {
			w.Failf("completion %q from an empty dictionary", c.Key())
		}
		return
	}
	raw := parseDict(w, writeTo(w, "dictionary", dict))
	t := l.Trie()
	pos := positions(w, l, dict)
	best := make([]int64, len(t))
	for ni := len(t) - 1; ni >= 0; ni-- {
		n := &t[ni]
		b := int64(-1) << 62
		if n.IsKey {
			b = rank(l.Vals[n.Lo])
		}
		for c := n.First; c >= 0; c = t[c].Next {
			if best[c] > b {
				b = best[c]
			}
		}
		best[ni] = b
	}
	var child [256]int32
	for i := range child {
		child[i] = -1
	}
	checked := map[uint32]bool{}
	for ni := range t {
		n := &t[ni]
		if checked[pos[ni]] {
			continue
		}
		checked[pos[ni]] = true
		want := 0
		if n.IsKey {
			want++
		}
		for c := n.First; c >= 0; c = t[c].Next {
			child[t[c].Label] = c
			want++
		}
		got, terminal := 0, false
		prev := int64(1) << 62
		label := g.Child(pos[ni])
		for got < want {
			var at uint32
			var b int64
			if label == 0 {
				if !n.IsKey || terminal {
					w.Failf("at prefix %q the guide ends after %d of %d continuations", l.prefix(n), got, want)
				}
				terminal = true
				at, b = raw.leaf(pos[ni]), rank(l.Vals[n.Lo])
			} else {
				c := child[label]
				if c < 0 {
					w.Failf("at prefix %q the guide lists byte 0x%02x twice or without a key behind it", l.prefix(n), label)
				}
				child[label] = -1
				at, b = pos[c], best[c]
			}
			if b > prev {
				w.Failf("at prefix %q the guide lists continuation 0x%02x (best rank %d) after one of rank %d", l.prefix(n), label, b, prev)
			}
			prev = b
			got++
			w.Transitions++
			if int(at) >= g.Size() {
				w.Failf("at prefix %q the guide has no unit for continuation 0x%02x", l.prefix(n), label)
			}
			label = g.Sibling(at)
		}
		if label != 0 {
			w.Failf("at prefix %q the guide lists 0x%02x after all continuations", l.prefix(n), label)
		}
	}
	c := dawg.NewRankedCompleter(dict, g)
	seen := make([]bool, l.Len())
	budget := 20000
	for _, ni := range starts(l) {
		n := &t[ni]
		c.Start(pos[ni])
		lo, hi := int(n.Lo), int(n.Hi)
		if budget -= hi - lo; budget < 0 && ni != 0 {
			break
		}
		for k := lo; k < hi; k++ {
			if !c.Next() {
				w.Failf("from prefix %q: exhausted after %d of %d keys", l.prefix(n), k-lo, hi-lo)
			}
			full := l.prefix(n) + c.Key()
			j := lo + sort.SearchStrings(l.Keys[lo:hi], full)
			if j >= hi || l.Keys[j] != full || seen[j] {
				w.Failf("from prefix %q: completion %q is not a key or came twice", l.prefix(n), full)
			}
			seen[j] = true
			if c.Value() != l.Vals[j] {
				w.Failf("from prefix %q: completion %q has value %d, want %d", l.prefix(n), full, c.Value(), l.Vals[j])
			}
			if k == lo && rank(l.Vals[j]) != best[ni] {
				w.Failf("from prefix %q: first completion %q has rank %d, best is %d", l.prefix(n), full, rank(l.Vals[j]), best[ni])
			}
			w.Transitions++
		}
		if c.Next() {
			w.Failf("from prefix %q: %q came after all keys", l.prefix(n), c.Key())
		}
		for k := lo; k < hi; k++ {
			seen[k] = false
		}
	}
}

func c08Families(tier string) []*Family {
	orders := weakOrders(3)
	no := len(orders)
	rankOf := func(o []int32) func(int32) int64 { return func(v int32) int64 { return int64(o[int(v)%len(o)]) } }
	var out []*Family
	u7 := universe("ab", 2)
	add := func(name, what string, n int, heavy bool, gen func(i int) *Lex) {
		out = append(out, &Family{Name: name, N: n * no, Heavy: heavy, What: what + " x all 13 weak orders on 3 values",
			Run: func(w *W, i int) {
				l := gen(i / no)
				w.State(fnvInt(l.hash(), uint64(i%no)))
				w.Tracef("comparator: rank of values 0,1,2 = %v", orders[i%no])
				checkOrder(w, l, rankOf(orders[i%no]))
			},
			Show: func(i int) string { return fmt.Sprintf("ranks %v, %v", orders[i%no], gen(i/no)) }})
	}
	v3 := []int32{0, 1, 2}
	add("assign-2letters-depth2", "every assignment of absent/values 0..2 to 7 keys", pow(4, 7), false, func(i int) *Lex { return assignLex(u7, i, v3) })
	u15 := universe("ab", 3)
	sub := func(i int, f func(rank int) int32) *Lex {
		l := &Lex{}
		for k := range u15 {
			if i>>k&1 != 0 {
				l.add(u15[k], f(len(l.Keys)))
			}
		}
		return l
	}
	add("subsets-2letters-depth3", "every subset of 15 keys, values rank mod 3", 1<<15, false, func(i int) *Lex { return sub(i, func(r int) int32 { return int32(r % 3) }) })
	// wide nodes: 1..255 children, with and without a terminal
	add("wide-nodes", "every number of one-byte keys 0..255, with and without the empty key, values in 3 patterns", 256*2*3, false, func(i int) *Lex {
		l := &Lex{}
		pat := i % 3
		i /= 3
		if i%2 == 1 {
			l.add("", int32(i%3))
		}
		for b := 0; b < i/2; b++ {
			l.add(string([]byte{byte(255 - i/2 + 1 + b)}), []int32{int32(b % 3), int32(2 - b*3/(i/2+1)), int32(b * b % 7 % 3)}[pat])
		}
		return l
	})
	gm := 120
	if tier == "thorough" {
		gm = 400
		t16 := exactLen("ab", 4)
		add("subsets-length4", "every subset of 16 keys of length 4, values rank mod 3", 1<<16, false, func(i int) *Lex { return subsetLex3(t16, i) })
		u13 := universe("abc", 2)
		add("assign-3letters", "every assignment of absent/values {0,1} to 13 keys (3 letters)", pow(3, 13), false, func(i int) *Lex { return assignLex(u13, i, v3[:2]) })
	}
	add("growing-histories", fmt.Sprintf("13 growing histories of every size 0..%d", gm), len(growKinds)*(gm+1), false, func(i int) *Lex {
		l := growKinds[i%len(growKinds)].gen(i / len(growKinds))
		l.Big = true
		return l
	})
	add("large-histories", "13 growing histories of 3000 keys and more", len(growKinds)*2, true, func(i int) *Lex {
		k := growKinds[i%len(growKinds)]
		n := []int{3000, 14000}[i/len(growKinds)]
		if n > k.max {
			n = k.max
		}
		l := k.gen(n)
		l.Big = true
		return l
	})
	// comparators on unbounded values: reverse, by residue, by distance
	big := []struct {
		n string
		f func(int32) int64
	}{
		{"ascending", func(v int32) int64 { return int64(v) }},
		{"descending", func(v int32) int64 { return -int64(v) }},
		{"by residue mod 5", func(v int32) int64 { return int64(v % 5) }},
		{"by distance from 2^30", func(v int32) int64 {
			d := int64(v) - 1<<30
			if d < 0 {
				return d
			}
			return -d
		}},
		{"all equivalent", func(v int32) int64 { return 0 }},
	}
	for _, lf := range lexFamilies(tier) {
		lf := lf
		switch lf.Name {
		case "assign-2letters-depth2-5values", "special-values", "growing-histories", "long-keys", "large-histories", "subsets-3letters-depth2":
		case "xl":
			if tier != "thorough" {
				continue
			}
		default:
			continue
		}
		nb := len(big)
		out = append(out, &Family{Name: "comparators-" + lf.Name, N: lf.N * nb, Heavy: lf.Big, What: lf.What + " x 5 comparators (ascending, descending, by residue, by distance, all equivalent)",
			Run: func(w *W, i int) {
				l := lf.Gen(i / nb)
				w.State(fnvInt(l.hash(), 100+uint64(i%nb)))
				w.Tracef("comparator %s", big[i%nb].n)
				checkOrder(w, l, big[i%nb].f)
			},
			Show: func(i int) string { return big[i%nb].n + ": " + lf.Gen(i/nb).String() }})
	}
	return out
}

func subsetLex3(u []string, mask int) *Lex {
	l := &Lex{}
	for k := range u {
		if mask>>k&1 != 0 {
			l.add(u[k], int32(len(l.Keys)%3))
		}
	}
	return l
}

// checkIndex: numbering over one guide.
func checkIndex(w *W, l *Lex, dict *dawg.Dictionary, g dawg.SomeGuide, plain bool) {
	ix := dawg.BuildIndex(dict, g)
	if ix == nil {
		w.Failf("building the index failed")
	}
	in := dawg.NewIndexer(dict, g, ix)
	n := l.Len()
	if got := in.TotalCount(); got != uint32(n) {
		w.Failf("TotalCount=%d, want %d", got, n)
	}
	if got := ix.TotalCount(); got != uint32(n) {
		w.Failf("Index.TotalCount=%d, want %d", got, n)
	}
	if g.Root() != dict.Root() || n > 0 && ix.ChildCount(ix.Root()) != uint32(n) {
		w.Failf("the root is %d in the guide, %d in the dictionary, %d in the index", g.Root(), dict.Root(), ix.Root())
	}
	t := l.Trie()
	pos := positions(w, l, dict)
	for ni := range t {
		if got := ix.ChildCount(pos[ni]); got != uint32(t[ni].Hi-t[ni].Lo) {
			w.Failf("ChildCount at prefix %q is %d, want %d", l.prefix(&t[ni]), got, t[ni].Hi-t[ni].Lo)
		}
		w.Transitions++
	}
	// key -> number, number -> key
	seen := make([]bool, n)
	step := 1
	if l.XL {
		step = 17
	}
	for i := 0; i < n; i += step {
		k := l.Keys[i]
		x := in.StringToIndex(k)
		if x >= uint32(n) {
			w.Failf("StringToIndex(%q)=%d (0x%x), want a number below %d", k, x, x, n)
		}
		if seen[x] {
			w.Failf("StringToIndex(%q)=%d, a number already given to another key", k, x)
		}
		seen[x] = true
		if plain && x != uint32(i) {
			w.Failf("StringToIndex(%q)=%d, want its rank %d", k, x, i)
		}
		back := in.IndexToBytes(x)
		if back == nil || string(back) != k {
			w.Failf("IndexToBytes(%d)=%q, want %q", x, back, k)
		}
		if !l.Big {
			if s := in.IndexToString(x); s != k {
				w.Failf("IndexToString(%d)=%q, want %q", x, s, k)
			}
			if y := in.BytesToIndex([]byte(k)); y != x {
				w.Failf("BytesToIndex(%q)=%d but StringToIndex=%d", k, y, x)
			}
		}
		w.Transitions += 2
	}
	for _, x := range []uint32{uint32(n), uint32(n) + 1, 1 << 31, dawg.Failed, dawg.NotFound} {
		if b := in.IndexToBytes(x); b != nil {
			w.Failf("IndexToBytes(%d)=%q although there are %d keys", x, b, n)
		}
		if s := in.IndexToString(x); s != "" {
			w.Failf("IndexToString(%d)=%q although there are %d keys", x, s, n)
		}
		w.Transitions++
	}
	queries(l, func(s string) {
		if _, ok := l.find(s); ok {
			return
		}
		if x := in.StringToIndex(s); x != dawg.NotFound {
			w.Failf("StringToIndex(%q)=%d (0x%x), want not found", s, x, x)
		}
		w.Transitions++
	})
}

func init() {
	common := []string{"key sets beyond the enumerated families are not covered", "completions are started at every node for small key sets; for large ones at the root, all first bytes and a fixed prefix of the deeper nodes"}
	register(&Check{
		Prop:        "C06",
		StateIs:     "state: one key/value set; transition: one completion compared with the reference list; trace: one build history with complete runs from its nodes",
		Assumptions: common,
		Families: func(tier string) []*Family {
			return overLex(lexFamilies(tier), checkCompleter)
		},
	})
	register(&Check{
		Prop:        "C07",
		StateIs:     "state: one key/value set; transition: one completion compared with the reference set; trace: one build history with complete runs from its nodes",
		Assumptions: append([]string{"the order among equal values is not constrained"}, common...),
		Families: func(tier string) []*Family {
			return overLex(rankFamilies(tier), checkRankedCompleter)
		},
	})
	register(&Check{
		Prop:        "C08",
		StateIs:     "state: (key/value set, value order); transition: one guide link or completion compared; trace: one build with a comparator",
		Assumptions: []string{"comparators are strict weak orders; all of them on 3 values, five selected ones on all values"},
		Families:    c08Families,
	})
	register(&Check{
		Prop:        "C09",
		StateIs:     "state: one key/value set; transition: one count, number or key compared; trace: one build history with full numbering over a plain and a ranked guide",
		Assumptions: []string{"key sets beyond the enumerated families are not covered", "dictionaries of more than about two million keys are composed images, not built from a list"},
		Families: func(tier string) []*Family {
			fams := overLex(rankFamilies(tier), func(w *W, l *Lex) {
				d, dict := buildDict(w, l)
				g := dawg.BuildGuide(d, dict)
				r := dawg.BuildRankedGuide(d, dict)
				if g == nil || r == nil {
					w.Failf("building a guide failed")
				}
				w.Tracef("index over the plain guide")
				checkIndex(w, l, dict, g, true)
				w.Tracef("index over the ranked guide")
				checkIndex(w, l, dict, r, false)
			})
			return append(fams, hugeFamily(tier))
		},
	})
	register(&Check{
		Prop:        "C19",
		StateIs:     "state: (lexicon, completer kind, start node, prefix text, completions left) of the session model; transition: one call on the completer; trace: one call sequence",
		Assumptions: []string{"sessions up to the stated length over the stated lexicons"},
		Families:    c19Families,
	})
}

// ---- C19 ----

func mk(kv ...interface{}) *Lex {
	l := &Lex{}
	for i := 0; i < len(kv); i += 2 {
		l.add(kv[i].(string), int32(kv[i+1].(int)))
	}
	sort.Sort(l)
	return l
}

type session struct {
	l      *Lex
	dict   *dawg.Dictionary
	c      completer
	ranked bool
	pos    map[string]uint32
	// model
	node    string
	text    string
	left    []int // indices of keys not yet delivered, in byte order
	current int   // key delivered last, -1 if none
	kept    []string
	keptOK  []string
}

func newSession(w *W, l *Lex, dict *dawg.Dictionary, g *dawg.Guide, rg *dawg.RankedGuide) *session {
	s := &session{l: l, dict: dict, current: -1}
	if rg != nil {
		s.c, s.ranked = dawg.NewRankedCompleter(dict, rg), true
	} else {
		s.c = dawg.NewCompleter(dict, g)
	}
	return s
}

func (s *session) start(w *W, node, text string, form int) {
	idx := s.dict.Root()
	if !s.dict.FollowString(node, &idx) {
		w.Failf("prefix %q cannot be followed", node)
	}
	switch form {
	case 0:
		w.Tracef("Start(node of %q)", node)
		text = ""
		s.c.Start(idx)
	case 1:
		w.Tracef("StartString(node of %q, %q)", node, text)
		s.c.StartString(idx, text)
	case 2:
		w.Tracef("StartStringLen(node of %q, %q, %d)", node, text+"#!", len(text))
		s.c.StartStringLen(idx, text+"#!", len(text))
	}
	s.node, s.text, s.current = node, text, -1
	s.left = nil
	for i := sort.SearchStrings(s.l.Keys, node); i < len(s.l.Keys) && strings.HasPrefix(s.l.Keys[i], node); i++ {
		s.left = append(s.left, i)
	}
	w.Transitions++
}

func (s *session) next(w *W) {
	ok := s.c.Next()
	w.Tracef("Next() = %v", ok)
	w.Transitions++
	if ok != (len(s.left) > 0) {
		w.Failf("Next()=%v with %d keys left (started at %q)", ok, len(s.left), s.node)
	}
	s.current = -1
	if !ok {
		return
	}
	at := 0
	if s.ranked {
		key := s.c.Key()
		at = -1
		best := int32(-1)
		for i, k := range s.left {
			if s.l.Vals[k] > best {
				best = s.l.Vals[k]
			}
			if s.text+s.l.Keys[k][len(s.node):] == key {
				at = i
			}
		}
		if at < 0 || s.l.Vals[s.left[at]] != best {
			w.Failf("started at %q with text %q: Next delivered %q, not a best one of the keys left", s.node, s.text, key)
		}
	}
	s.current = s.left[at]
	if at == 0 {
		s.left = s.left[1:]
	} else {
		s.left = append(s.left[:at:at], s.left[at+1:]...)
	}
	s.read(w)
	s.kept = append(s.kept, s.c.Key())
	s.keptOK = append(s.keptOK, s.text+s.l.Keys[s.current][len(s.node):])
}

func (s *session) read(w *W) {
	if s.current < 0 {
		return
	}
	want := s.text + s.l.Keys[s.current][len(s.node):]
	if k := s.c.Key(); k != want {
		w.Failf("started at %q with text %q: Key()=%q, want %q", s.node, s.text, k, want)
	}
	if v := s.c.Value(); v != s.l.Vals[s.current] {
		w.Failf("key %q: Value()=%d, want %d", want, v, s.l.Vals[s.current])
	}
	if n := s.c.Length(); n != len(want) {
		w.Failf("key %q: Length()=%d, want %d", want, n, len(want))
	}
	w.Transitions++
}

func (s *session) state() uint64 {
	h := fnv(fnvInit, s.node+"\x00"+s.text)
	for _, i := range s.left {
		h = fnvInt(h, uint64(i))
	}
	h = fnvInt(h, uint64(s.current+1))
	if s.ranked {
		h++
	}
	return h
}

func c19Families(tier string) []*Family {
	lexes := []*Lex{
		mk("", 3, "a", 1, "ab", 2, "b", 2),
		mk("a", 1, "ab", 5, "abc", 2, "b", 4, "bc", 0),
		mk("a", 1, "ab", 1, "abc", 1, "b", 1, "bc", 1),
		mk("", 0),
		mk("ab", 97),
		mk(),
		mk("ax", 1, "ay", 9, "bx", 1, "by", 9, "cx", 1, "cy", 8),
	}
	// two start nodes per lexicon besides the root: an inner one and a deepest one
	nodes := [][2]string{{"a", "ab"}, {"ab", "b"}, {"a", "abc"}, {"", ""}, {"a", "ab"}, {"", ""}, {"b", "cy"}}
	ops := []string{"Start(root)", "StartString(inner, its prefix)", "StartStringLen(deep, other text)", "Next", "Next x3", "reads", "StartString(root, long text)"}
	depth := 6
	if tier == "thorough" {
		depth = 8
	}
	var out []*Family
	for d := 1; d <= depth; d++ {
		d := d
		n := pow(len(ops), d)
		out = append(out, &Family{Name: "sessions-depth" + itoa(int64(d)), N: n * len(lexes),
			What: fmt.Sprintf("every sequence of %d calls over %v on 7 lexicons x both completers", d, ops),
			Run: func(w *W, i int) {
				li := i / n
				l := lexes[li]
				dw, dict := buildDict(w, l)
				g, rg := dawg.BuildGuide(dw, dict), dawg.BuildRankedGuide(dw, dict)
				for kind := 0; kind < 2; kind++ {
					s := newSession(w, l, dict, g, nil)
					w.Tracef("plain completer over %v", l)
					if kind == 1 {
						s = newSession(w, l, dict, g, rg)
						w.Tracef("ranked completer over %v", l)
					}
					x := i % n
					for k := 0; k < d; k++ {
						switch x % len(ops) {
						case 0:
							s.start(w, "", "", 0)
						case 1:
							s.start(w, nodes[li][0], nodes[li][0], 1)
						case 2:
							s.start(w, nodes[li][1], "Q\xfe", 2)
						case 3:
							s.next(w)
						case 4:
							s.next(w)
							s.next(w)
							s.next(w)
						case 5:
							s.read(w)
							s.read(w)
						case 6:
							s.start(w, "", "a long prefix text, longer than any key", 1)
						}
						x /= len(ops)
						w.State(fnvInt(s.state(), uint64(li)))
					}
					// drain
					for len(s.left) > 0 {
						s.next(w)
					}
					s.next(w)
					s.next(w)
					for k := range s.kept {
						if s.kept[k] != s.keptOK[k] {
							w.Failf("key %q delivered earlier has become %q", s.keptOK[k], s.kept[k])
						}
					}
				}
			}})
	}
	// every prefix text, of which any part is used, at every node
	texts := universe("\x00a\xff", 4)
	for n := 5; n <= 300; n++ {
		texts = append(texts, strings.Repeat("t\x00\xe9", n/3+1)[:n])
	}
	for _, n := range []int{1023, 1024, 1025, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 100000} {
		texts = append(texts, strings.Repeat("t\x00\xe9", n/3+1)[:n])
	}
	tl := mk("", 3, "a", 1, "ab", 2, "abc", 2, "b", 4, "ba", 1, "c", 9)
	out = append(out, &Family{Name: "prefix-texts", N: len(texts), What: fmt.Sprintf("%d prefix texts (all of length <= 4 over 00, 61, ff; every length up to 300; up to 100000 bytes) at every node, whole and every part of it (parts of short texts only), a shorter one afterwards; both completers", len(texts)),
		Run: func(w *W, i int) {
			text := texts[i]
			dw, dict := buildDict(w, tl)
			g, rg := dawg.BuildGuide(dw, dict), dawg.BuildRankedGuide(dw, dict)
			for kind := 0; kind < 2; kind++ {
				s := newSession(w, tl, dict, g, nil)
				if kind == 1 {
					s = newSession(w, tl, dict, g, rg)
				}
				run := func(node, text string, form int) {
					s.start(w, node, text, form)
					for len(s.left) > 0 {
						s.next(w)
					}
					s.next(w)
				}
				for _, n := range tl.Trie() {
					p := tl.prefix(&n)
					run(p, text, 1)
					run(p, text, 2)
					if len(text) <= 40 {
						for k := range text {
							run(p, text[:k], 2)
						}
					}
					run(p, text[len(text)/2:], 2)
					run(p, "", 0)
					w.State(fnv(fnvInt(fnvInit, uint64(kind)), p+"|"+text))
				}
				for k := range s.kept {
					if s.kept[k] != s.keptOK[k] {
						w.Failf("a key delivered earlier has changed (prefix text of %d bytes)", len(text))
					}
				}
			}
		},
		Show: func(i int) string { return fmt.Sprintf("prefix text of %d bytes %.40q", len(texts[i]), texts[i]) }})
	// restarts in the middle of deep runs, and of runs over many keys
	var deep []int
	for n := 1; n <= 300; n++ {
		deep = append(deep, n)
	}
	for n := 512; n <= 65536; n *= 2 {
		deep = append(deep, n-1, n, n+1)
	}
	deepLex := func(i int) *Lex {
		n := deep[i/2]
		l := &Lex{Big: n > 40}
		if i%2 == 0 { // few long keys
			p := strings.Repeat("m\xf1", n/2+1)[:n]
			l.add(p, 2)
			l.add(p+"b", 7)
			l.add(p+"c"+p, 5)
			l.add("z", 6)
			l.add("zz", 1)
		} else { // many short keys
			for k := 0; k < n; k++ {
				l.add("m"+counterKey(k, "0123456789abcdef", 5), int32(k*7%11))
			}
			l.add("z", 6)
		}
		return l
	}
	out = append(out, &Family{Name: "deep-restarts", N: 2 * len(deep), What: "lexicons with keys of every length 1..300 and around powers of two up to 65537 bytes, and with that number of short keys: start at each of two nodes, steps 0..3 or almost all, restart at each of six nodes with or without text, run to the end; both completers",
		Run: func(w *W, i int) {
			l := deepLex(i)
			dw, dict := buildDict(w, l)
			g, rg := dawg.BuildGuide(dw, dict), dawg.BuildRankedGuide(dw, dict)
			first := l.Keys[0]
			for kind := 0; kind < 2; kind++ {
				s := newSession(w, l, dict, g, nil)
				if kind == 1 {
					s = newSession(w, l, dict, g, rg)
				}
				many := i%2 == 1 && l.Len() > 1000
				for _, p1 := range []string{"", "m"} {
					for n1 := 0; n1 < 5; n1++ {
						for x, p2 := range []string{"", first[:(len(first)+1)/2], first, "z", l.Keys[1], "m"} {
							if many && (x == 5 || x < 2 && n1 != 3 || n1 == 4 && (kind == 1 || p1 != "")) {
								continue // a complete run costs too much for a ranked completer's oracle
							}
							if many && x < 2 {
								p2 = first[:len(first)-1]
							}
							s.kept, s.keptOK = s.kept[:0], s.keptOK[:0]
							s.start(w, p1, "", 0)
							steps := n1
							if n1 == 4 {
								steps = len(s.left) - 1
							}
							for k := 0; k < steps; k++ {
								s.next(w)
							}
							s.start(w, p2, "T", x&1)
							for len(s.left) > 0 {
								s.next(w)
							}
							s.next(w)
							s.next(w)
							w.State(fnvInt(fnvInt(fnv(fnvInt(fnvInit, uint64(i)), p1), uint64(n1)), uint64(x*2+kind)))
							for k := range s.kept {
								if s.kept[k] != s.keptOK[k] {
									w.Failf("a key delivered earlier has changed")
								}
							}
						}
					}
				}
			}
		},
		Show: func(i int) string {
			return fmt.Sprintf("%d keys, the first of %d bytes", deepLex(i).Len(), len(deepLex(i).Keys[0]))
		}})
	// every pair of starts with every number of steps in between
	full := []*Lex{
		mk("", 3, "a", 1, "ab", 2, "abc", 2, "b", 4, "ba", 1, "bab", 0, "c", 9),
		mk("\x01", 300, "\x01\xff", 2, "\xff", 257, "\xff\x01", 2, "\xff\x01\x01", 2),
	}
	for fi, l := range full {
		l := l
		var pre []string
		for _, n := range l.Trie() {
			pre = append(pre, l.prefix(&n))
		}
		np, m := len(pre), l.Len()+2
		out = append(out, &Family{Name: "restart-" + itoa(int64(fi)), N: np * m * np * m * 3, What: fmt.Sprintf("start at each of %d nodes, every number of steps 0..%d, restart at each node in each form, every number of steps, start again; both completers", np, m-1),
			Run: func(w *W, i int) {
				dw, dict := buildDict(w, l)
				g, rg := dawg.BuildGuide(dw, dict), dawg.BuildRankedGuide(dw, dict)
				for kind := 0; kind < 2; kind++ {
					s := newSession(w, l, dict, g, nil)
					if kind == 1 {
						s = newSession(w, l, dict, g, rg)
					}
					x := i
					p1, x := pre[x%np], x/np
					n1, x := x%m, x/m
					p2, x := pre[x%np], x/np
					n2, x := x%m, x/m
					s.start(w, p1, p1, 1)
					for k := 0; k < n1; k++ {
						s.next(w)
					}
					s.start(w, p2, p2, x%3)
					for k := 0; k < n2; k++ {
						s.next(w)
					}
					s.start(w, p1, "", 0)
					for len(s.left) > 0 {
						s.next(w)
					}
					s.next(w)
					w.State(fnvInt(s.state(), uint64(100+fi)))
				}
			}})
	}
	return out
}
