package main

// C04 reuse and tuning, C05 word graph.

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/deNULL/dawg"
)

type graphStats struct {
	states, transitions, mergedStates, mergedTransitions, mergingStates int
}

// minimal computes the statistics of the minimal automaton of l from the reference trie: classes of equal
// right-languages. class[n] identifies node n's right-language, occ[class] counts the prefixes having it.
func minimal(l *Lex) (st graphStats, class []int32, occ []int32) {
	t := l.Trie()
	class = make([]int32, len(t))
	type key struct {
		first, next int32 // hash-consed list of (label, class) pairs
		label       int32
	}
	ids := map[key]int32{}
	intern := func(k key) int32 {
		id, ok := ids[k]
		if !ok {
			id = int32(len(ids)) + 1
			ids[k] = id
		}
		return id
	}
	classes := map[int32]int32{}
	trieTrans := 0
	var stack []int32
	for n := len(t) - 1; n >= 0; n-- {
		stack = stack[:0]
		for c := t[n].First; c >= 0; c = t[c].Next {
			stack = append(stack, c)
		}
		list := int32(0)
		deg := 0
		for i := len(stack) - 1; i >= 0; i-- {
			c := stack[i]
			list = intern(key{class[c], list, int32(t[c].Label)})
			deg++
		}
		if t[n].IsKey {
			list = intern(key{l.Vals[t[n].Lo], list, -1})
			deg++
		}
		if deg == 0 {
			continue // empty dictionary
		}
		trieTrans += deg
		id, ok := classes[list]
		if !ok {
			id = int32(len(occ))
			classes[list] = id
			occ = append(occ, 0)
			st.transitions += deg
		}
		occ[id]++
		class[n] = id
	}
	// one more state: the common end of all keys
	st.states = len(occ) + 1
	st.mergedTransitions = trieTrans - st.transitions
	st.mergedStates = trieTrans + 1 - st.states
	for _, o := range occ {
		if o > 1 {
			st.mergingStates++
		}
	}
	return
}

func statsOf(d *dawg.Dawg) graphStats {
	return graphStats{d.NumOfStates(), d.NumOfTransitions(), d.NumOfMergedStates(), d.NumOfMergedTransitions(), d.NumOfMergingStates()}
}

// graph compares the real word graph with the reference, walking both in parallel. Two trie nodes must be the same
// graph state exactly when they have the same right-language.
func graph(w *W, l *Lex, d *dawg.Dawg) {
	st, class, occ := minimal(l)
	if got := statsOf(d); got != st {
		w.Failf("statistics {states transitions mergedStates mergedTransitions mergingStates} = %v, want %v", got, st)
	}
	if d.Size() != d.NumOfTransitions()+1 {
		w.Failf("Size()=%d with %d transitions", d.Size(), d.NumOfTransitions())
	}
	t := l.Trie()
	if len(l.Keys) == 0 {
		if c := d.Child(d.Root()); c != 0 {
			w.Failf("empty graph: root has child %d", c)
		}
		return
	}
	at := make([]uint32, len(t)) // transition entering the node
	at[0] = d.Root()
	child := make([]uint32, len(occ)) // class -> first outgoing transition
	owner := map[uint32]int32{}
	for n := range t {
		nd := &t[n]
		i := d.Child(at[n])
		cl := class[n]
		if child[cl] == 0 {
			if o, dup := owner[i]; dup && o != cl {
				w.Failf("prefixes with different continuations share one state (at %q)", l.prefix(nd))
			}
			owner[i] = cl
			child[cl] = i
		} else if child[cl] != i {
			w.Failf("prefix %q: state %d, but an equivalent prefix has state %d (not minimal)", l.prefix(nd), i, child[cl])
		}
		if m := d.IsMerging(i); m != (occ[cl] > 1) {
			w.Failf("prefix %q: state %d IsMerging=%v, but %d prefixes reach it", l.prefix(nd), i, m, occ[cl])
		}
		w.Transitions++
		if nd.IsKey {
			if i == 0 || !d.IsLeaf(i) || d.Label(i) != 0 {
				w.Failf("prefix %q is a key, but the graph has no leaf there", l.prefix(nd))
			}
			if v := d.Value(i); v != l.Vals[nd.Lo] {
				w.Failf("key %q: graph value %d, want %d", l.prefix(nd), v, l.Vals[nd.Lo])
			}
			i = d.Sibling(i)
		}
		for c := nd.First; c >= 0; c = t[c].Next {
			if i == 0 {
				w.Failf("after %q: child 0x%02x missing in the graph", l.prefix(nd), t[c].Label)
			}
			if d.IsLeaf(i) || d.Label(i) != t[c].Label {
				w.Failf("after %q: graph label 0x%02x leaf=%v, want 0x%02x", l.prefix(nd), d.Label(i), d.IsLeaf(i), t[c].Label)
			}
			at[c] = i
			i = d.Sibling(i)
			w.Transitions++
		}
		if i != 0 {
			w.Failf("after %q: the graph has a further child 0x%02x", l.prefix(nd), d.Label(i))
		}
	}
}

// checkUnused: the units that carry the dictionary plus the reported unused ones are all units.
func checkUnused(w *W, d *dawg.Dawg) {
	n := uint32(0xdeadbeef)
	dict := d.BuildWithUnused(&n)
	if dict == nil {
		w.Failf("building the dictionary failed")
	}
	raw := parseDict(w, writeTo(w, "dictionary", dict))
	used := raw.reachable()
	if dict.Size()-used != int(n) {
		w.Failf("unused units reported %d, but %d of %d are in use", n, used, dict.Size())
	}
	// shared states are stored once, as long as every unit is in reach of every other
	if trans := d.NumOfTransitions(); trans > 0 && dict.Size() <= 1<<21 && used != trans+1 {
		w.Failf("the dictionary uses %d units for %d transitions", used, trans)
	}
	w.Transitions++
}

func init() {
	register(&Check{
		Prop:    "C05",
		StateIs: "state: one key/value set; transition: one graph edge or statistic compared with the minimal automaton of the reference trie; trace: one build-and-walk history",
		Assumptions: []string{
			"key sets beyond the enumerated families are not covered",
			"state counting convention: sibling groups plus the common final state, as documented by the existing statistics",
		},
		Families: func(tier string) []*Family {
			return overLex(lexFamilies(tier), func(w *W, l *Lex) {
				d := buildDawg(w, l)
				graph(w, l, d)
				checkUnused(w, d)
			})
		},
	})
	register(&Check{
		Prop:    "C04",
		StateIs: "state: contents of builder and containers after a step of a lifecycle; transition: one lifecycle operation; trace: one lifecycle with every result compared with that of a new builder",
		Assumptions: []string{
			"lifecycles longer than three rounds are covered only by the growing-round families",
		},
		Families: c04Families,
	})
}

// sameResult checks a container's contents against the reference.
func sameResult(w *W, l *Lex, d *dawg.Dawg) *dawg.Dictionary {
	st, _, _ := minimal(l)
	if got := statsOf(d); got != st {
		w.Failf("statistics after reuse %v, want %v as from a new builder", got, st)
	}
	dict := d.Build()
	if dict == nil {
		w.Failf("building the dictionary failed")
	}
	accepts(w, l, dict)
	return dict
}

func isCleared(w *W, d *dawg.Dawg) {
	if got, want := statsOf(d), statsOf(dawg.NewDawg()); got != want || d.Size() != 0 {
		w.Failf("cleared container reports %v (size %d), a new one %v", got, d.Size(), want)
	}
}

func c04Families(tier string) []*Family {
	thorough := tier == "thorough"
	var out []*Family
	u7 := universe("ab", 2)
	lexOf := func(mask, sch int) *Lex { return subsetLex(u7, mask, sch, "ab") }
	targets := []string{"new containers", "same container", "same container cleared", "container filled by another builder"}
	sizes := []int{256, 1, 2, 3, 7}
	nt, ns := len(targets), len(sizes)
	run := func(w *W, ls []*Lex, target int, b *dawg.DawgBuilder) {
		var ds []*dawg.Dawg
		var dicts []*dawg.Dictionary
		shared := dawg.NewDawg()
		if target == 3 {
			shared = buildDawg(w, lexOf(0x5b, 1))
		}
		for r, l := range ls {
			w.Tracef("round %d: %v into %s", r, l, targets[target])
			insertAll(w, b, l)
			d := shared
			if target == 0 {
				d = dawg.NewDawg()
			}
			if target == 2 {
				d.Clear()
				isCleared(w, d)
			}
			b.Finish(d)
			ds = append(ds, d)
			dicts = append(dicts, sameResult(w, l, d))
			w.Transitions++
		}
		for r, l := range ls { // results handed out earlier are untouched
			w.Tracef("recheck of round %d", r)
			accepts(w, l, dicts[r])
			if target == 0 {
				sameResult(w, l, ds[r])
			}
			w.State(l.hash())
		}
	}
	out = append(out, &Family{Name: "two-rounds", N: 128 * 128 * nt * ns, What: "every pair of subsets of 7 keys, built one after the other with one builder x 4 kinds of target container x 5 initial table sizes",
		Run: func(w *W, i int) {
			t := i % nt
			s := i / nt % ns
			i /= nt * ns
			run(w, []*Lex{lexOf(i%128, i%3), lexOf(i/128, 5)}, t, dawg.NewDawgBuilderWithSize(sizes[s]))
		}})
	out = append(out, &Family{Name: "used-targets", N: 128 * 128, What: "every pair of subsets of 7 keys: the dictionary, guide and index of the second built into the objects that hold the first",
		Run: func(w *W, i int) {
			dict, guide, index := dawg.NewDictionary(), dawg.NewGuide(), dawg.NewIndex()
			for r, l := range []*Lex{lexOf(i%128, i%3), lexOf(i/128, 5)} {
				w.Tracef("round %d: %v", r, l)
				d := buildDawg(w, l)
				if !dawg.NewDictionaryBuilder(d, dict).BuildDictionary() || !dawg.NewGuideBuilder(d, dict, guide).Build() || !dawg.NewIndexBuilder(dict, guide, index).Build() {
					w.Failf("building into a used object failed")
				}
				b := &bundle{dict: dict, guide: guide, index: index, ranked: dawg.BuildRankedGuide(d, dict)}
				b.rindex = dawg.BuildIndex(dict, b.ranked)
				answers(w, l, b)
				w.State(l.hash())
			}
		}})
	out = append(out, &Family{Name: "cleared-parts", N: 128 * 128, What: "every pair of subsets of 7 keys: guide, ranked guide and word graph of the first cleared (empty afterwards), then filled with the second",
		Run: func(w *W, i int) {
			l, l2 := lexOf(i%128, 5), lexOf(i/128, 0)
			b, b2 := buildBundle(w, l), buildBundle(w, l2)
			b.guide.Clear()
			b.ranked.Clear()
			for k, g := range []dawg.SomeGuide{b.guide, b.ranked} {
				if g.Size() != 0 || g.TotalSize() != 0 || g.FileSize() != 4 || string(writeTo(w, "guide", g)) != "\x00\x00\x00\x00" {
					w.Failf("guide kind %d of %v: not empty after Clear", k, l)
				}
			}
			c, rc := dawg.NewCompleter(b.dict, b.guide), dawg.NewRankedCompleter(b.dict, b.ranked)
			c.Start(b.dict.Root())
			rc.Start(b.dict.Root())
			if c.Next() || rc.Next() {
				w.Failf("a completion over a cleared guide")
			}
			if !b.guide.Read(bytes.NewReader(writeTo(w, "guide", b2.guide))) || !b.ranked.Read(bytes.NewReader(writeTo(w, "guide", b2.ranked))) {
				w.Failf("reading into a cleared guide failed")
			}
			answers(w, l2, &bundle{dict: b2.dict, guide: b.guide, ranked: b.ranked, index: b2.index, rindex: b2.rindex})
			w.State(l.hash()*31 ^ l2.hash())
			w.Transitions += 4
		}})
	u4 := []string{"a", "ab", "b", "bb"}
	lex4 := func(i int) *Lex { return assignLex(u4, i, []int32{2}) }
	out = append(out, &Family{Name: "three-rounds", N: 16 * 16 * 16 * nt, What: "every triple of subsets of 4 keys, three rounds with one builder x 4 kinds of target",
		Run: func(w *W, i int) {
			t := i % nt
			i /= nt
			run(w, []*Lex{lex4(i % 16), lex4(i / 16 % 16), lex4(i / 256)}, t, dawg.NewDawgBuilder())
		}})
	// all operation sequences over one builder and two containers
	ops := []string{"ins a", "ins ab", "ins b=1", "ins b\x00", "finish d0", "finish d1", "clear d0", "build d0", "build d1"}
	depth := 6
	if thorough {
		depth = 7
	}
	for dpt := 1; dpt <= depth; dpt++ {
		dpt := dpt
		out = append(out, &Family{Name: fmt.Sprintf("lifecycle-depth%d", dpt), N: pow(len(ops), dpt),
			What: "every sequence of insert (accepted, out of order, with NUL)/Finish/Clear/Build operations of this length over one builder and two containers",
			Run:  func(w *W, i int) { lifecycle(w, ops, i, dpt) }})
	}
	// table sizes: every initial size x growing histories
	smax := 70
	lens := []int{0, 1, 2, 3, 5, 8, 13, 21, 40, 90, 200, 500}
	if thorough {
		smax = 300
		lens = append(lens, 1000, 3000)
	}
	var tsizes []int
	for s := -1; s <= smax; s++ {
		tsizes = append(tsizes, s)
	}
	tsizes = append(tsizes, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1024, 4095, 4096, 65535, 65536, 65537, 100003, 1<<20-1, 1<<20, -7, -1<<31)
	out = append(out, &Family{Name: "table-sizes", N: len(tsizes) * len(growKinds) * len(lens),
		What: fmt.Sprintf("every initial table size -1..%d, sizes around powers of two up to 2^20, negative ones x 13 growing histories x 12 (thorough 14) lengths, two rounds", smax),
		Run: func(w *W, i int) {
			g := growKinds[i%len(growKinds)]
			i /= len(growKinds)
			n := lens[i%len(lens)]
			size := tsizes[i/len(lens)]
			l := g.gen(n)
			w.Tracef("NewDawgBuilderWithSize(%d)", size)
			b := dawg.NewDawgBuilderWithSize(size)
			d := finish(w, b, l)
			sameResult(w, l, d)
			l2 := g.gen(n/2 + 1)
			d2 := finish(w, b, l2)
			sameResult(w, l2, d2)
			w.State(fnvInt(l.hash(), uint64(size)))
		}})
	// growing rounds: round r has r keys, then shrinking again, all with one builder
	rounds := 60
	if thorough {
		rounds = 300
	}
	out = append(out, &Family{Name: "many-rounds", N: len(growKinds) * 2, What: "one builder through 60 (thorough 300) rounds of growing and then shrinking key sets, one container or many",
		Run: func(w *W, i int) {
			g := growKinds[i/2]
			var ls []*Lex
			for r := 0; r < rounds; r++ {
				ls = append(ls, g.gen(r*r/8+r))
			}
			for r := rounds - 1; r >= 0; r -= 7 {
				ls = append(ls, g.gen(r))
			}
			run(w, ls, i%2, dawg.NewDawgBuilder())
		}})
	// large round then small round and back
	big := []int{3000, 20000}
	out = append(out, &Family{Name: "large-then-small", N: len(growKinds) * len(big), Heavy: true, What: "a large round followed by small and large rounds with the same builder and container",
		Run: func(w *W, i int) {
			g := growKinds[i%len(growKinds)]
			n := big[i/len(growKinds)]
			if n > g.max {
				n = g.max
			}
			run(w, []*Lex{g.gen(n), g.gen(3), {}, g.gen(n / 2), g.gen(1)}, i%3, dawg.NewDawgBuilder())
		}})
	return out
}

func lifecycle(w *W, ops []string, i, depth int) {
	b := dawg.NewDawgBuilder()
	cur := &Lex{}
	ds := [2]*dawg.Dawg{dawg.NewDawg(), dawg.NewDawg()}
	content := [2]*Lex{{}, {}}
	filled := [2]bool{}
	type built struct {
		l *Lex
		d *dawg.Dictionary
	}
	var handed []built
	for k := 0; k < depth; k++ {
		op := ops[i%len(ops)]
		i /= len(ops)
		w.Tracef("%s", op)
		w.Transitions++
		switch {
		case strings.HasPrefix(op, "ins "):
			o := insOp{key: strings.TrimSuffix(op[4:], "=1"), form: 2}
			if strings.HasSuffix(op, "=1") {
				o.val = 1
			}
			want := cur.accept(o)
			if got := doInsert(b, o); got != want {
				w.Failf("%v returned %v, want %v", o, got, want)
			}
		case strings.HasPrefix(op, "finish"):
			c := int(op[len(op)-1] - '0')
			b.Finish(ds[c])
			content[c], cur = cur, &Lex{}
			filled[c] = true
		case strings.HasPrefix(op, "clear"):
			c := int(op[len(op)-1] - '0')
			ds[c].Clear()
			content[c] = &Lex{}
			filled[c] = false
			isCleared(w, ds[c])
		case strings.HasPrefix(op, "build"):
			c := int(op[len(op)-1] - '0')
			dict := ds[c].Build()
			if dict == nil {
				w.Failf("building the dictionary failed")
			}
			handed = append(handed, built{content[c], dict})
		}
	}
	h := uint64(fnvInit)
	for c := range ds {
		dict := ds[c].Build()
		if dict == nil {
			w.Failf("building the dictionary failed")
		}
		w.Tracef("final check of container %d", c)
		accepts(w, content[c], dict)
		if filled[c] {
			st, _, _ := minimal(content[c])
			if got := statsOf(ds[c]); got != st {
				w.Failf("statistics of container %d: %v, want %v", c, got, st)
			}
		}
		h = fnvInt(h, content[c].hash())
	}
	for _, x := range handed {
		w.Tracef("final check of a dictionary built earlier")
		accepts(w, x.l, x.d)
	}
	w.State(fnvInt(h, cur.hash()))
}
