package main

// C17: independence of objects, read-only queries, determinism, freedom from data races among readers.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/deNULL/dawg"
)

// shared is the world the sessions of one interleaving live in.
type shared struct {
	d  *dawg.Dawg
	b  *bundle
	in [2]*dawg.Indexer // an indexer has no operation that changes it: it is shared like an index
}

// kept remembers returned slices together with a copy taken when they were returned.
type kept struct{ live, copy [][]byte }

func (k *kept) add(b []byte) {
	k.live = append(k.live, b)
	k.copy = append(k.copy, append([]byte{}, b...))
}

func (k *kept) check(w *W, what string) {
	for i := range k.live {
		if !bytes.Equal(k.live[i], k.copy[i]) {
			w.Failf("%s: the slice returned by step %d was %q and has become %q", what, i, k.copy[i], k.live[i])
		}
	}
}

// shareLex: shared tails below "a" and "b", no two completions of one start node with the same value.
var shareLex = func() *Lex {
	l := mk("", 900, "c", 901, "ca", 902, "caa", 950, "\xff", 903, "\xff\x01", 904)
	for _, p := range []string{"a", "b", "dd"} {
		for i, t := range []string{"", "x", "xy", "xyz", "\x01", "\xfe", "long tail", "long tales"} {
			l.add(p+t, int32(i*7%8))
		}
	}
	l = &Lex{Keys: l.Keys, Vals: l.Vals}
	sortLex(l)
	return l
}()

func newShared(w *W) *shared {
	d, dict := buildDict(w, shareLex)
	b := &bundle{dict: dict, guide: dawg.BuildGuide(d, dict), ranked: dawg.BuildRankedGuide(d, dict)}
	if b.guide == nil || b.ranked == nil {
		w.Failf("building a guide failed")
	}
	b.index, b.rindex = dawg.BuildIndex(dict, b.guide), dawg.BuildIndex(dict, b.ranked)
	if b.index == nil || b.rindex == nil {
		w.Failf("building an index failed")
	}
	return &shared{d, b, [2]*dawg.Indexer{dawg.NewIndexer(b.dict, b.guide, b.index), dawg.NewIndexer(b.dict, b.ranked, b.rindex)}}
}

func (s *shared) print(w *W) [][]byte {
	var out [][]byte
	for k := 0; k < nKinds; k++ {
		out = append(out, writeTo(w, kindNames[k], s.b.obj(k)))
	}
	return append(out, dawgPrint(s.d))
}

// dawgPrint walks the word graph.
func dawgPrint(d *dawg.Dawg) []byte {
	var out []byte
	var walk func(i uint32, depth int)
	walk = func(i uint32, depth int) {
		for c := d.Child(i); c != 0; c = d.Sibling(c) {
			if depth > 40 || len(out) > 1<<20 {
				out = append(out, "..."...)
				return
			}
			l := d.Label(c)
			out = append(out, l, '(')
			if l == 0 {
				out = strconv.AppendInt(out, int64(d.Value(c)), 10)
			} else {
				walk(c, depth+1)
			}
			out = append(out, ')')
		}
	}
	walk(d.Root(), 0)
	return strconv.AppendInt(append(out, fmt.Sprint(d.NumOfStates(), d.NumOfTransitions(), d.NumOfMergedStates(), d.NumOfMergingStates(), d.NumOfMergedTransitions())...), int64(d.Size()), 10)
}

// A sess is one object's operation sequence. step(k) performs its k-th operation and returns what was observed;
// end renders what the session still holds (returned strings and slices).
type sess struct {
	name string
	make func(w *W, sh *shared) (step func(k int) string, end func() string)
}

const maxSteps = 6

func digest(b []byte) string { return fmt.Sprintf("%d:%x", len(b), fnv(fnvInit, string(b))) }

func images(w *W, d *dawg.Dawg) string {
	dict := d.Build()
	if dict == nil {
		return "build failed"
	}
	g, r := dawg.BuildGuide(d, dict), dawg.BuildRankedGuide(d, dict)
	if g == nil || r == nil {
		return "guide failed"
	}
	x, y := dawg.BuildIndex(dict, g), dawg.BuildIndex(dict, r)
	if x == nil || y == nil {
		return "index failed"
	}
	var sb strings.Builder
	for k, o := range []writer{dict, g, r, x, y} {
		sb.WriteString(digest(writeTo(w, kindNames[k], o)) + " ")
	}
	return sb.String()
}

func builderSession(name string, mkb func() *dawg.DawgBuilder, batches [][]string, reuse bool) sess {
	return sess{name, func(w *W, sh *shared) (func(int) string, func() string) {
		b := mkb()
		var d *dawg.Dawg
		var dict *dawg.Dictionary
		var kept strings.Builder
		step := func(k int) string {
			if reuse {
				for i, key := range batches[k%len(batches)] {
					fmt.Fprint(&kept, b.InsertStringValue(key, int32(i+k)), " ")
				}
				d = dawg.NewDawg()
				b.Finish(d)
				return images(w, d) + digest(dawgPrint(d))
			}
			if k < len(batches) {
				s := ""
				for i, key := range batches[k] {
					s += fmt.Sprint(b.InsertStringValue(key, int32(i%5)), " ")
				}
				return s
			}
			switch k - len(batches) {
			case 0:
				d = dawg.NewDawg()
				b.Finish(d)
				return digest(dawgPrint(d))
			case 1:
				dict = d.Build()
				return digest(writeTo(w, "dictionary", dict))
			default:
				return images(w, d) + digest(writeTo(w, "dictionary", dict))
			}
		}
		return step, kept.String
	}}
}

func completerSession(name, node, text string, ranked, plainStart bool) sess {
	return sess{name, func(w *W, sh *shared) (func(int) string, func() string) {
		var c completer
		if ranked {
			c = dawg.NewRankedCompleter(sh.b.dict, sh.b.ranked)
		} else {
			c = dawg.NewCompleter(sh.b.dict, sh.b.guide)
		}
		var keys, copies []string
		return func(k int) string {
				if k == 0 {
					idx := sh.b.dict.Root()
					ok := sh.b.dict.FollowString(node, &idx)
					if plainStart {
						c.Start(idx)
					} else {
						c.StartString(idx, text)
					}
					return fmt.Sprint(ok)
				}
				if !c.Next() {
					return "end"
				}
				keys = append(keys, c.Key())
				copies = append(copies, strings.Clone(keys[len(keys)-1]))
				return fmt.Sprintf("%q %d %d", c.Key(), c.Value(), c.Length())
			}, func() string {
				for i := range keys {
					if keys[i] != copies[i] {
						w.Failf("%s: the key returned by step %d was %q and has become %q", name, i+1, copies[i], keys[i])
					}
				}
				return fmt.Sprintf("%q", keys)
			}
	}}
}

func shareSessions() []sess {
	many := func(p string, n int) []string {
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, p+counterKey(i, "abcd", 4))
		}
		return out
	}
	std := dawg.NewDawgBuilder
	small := func() *dawg.DawgBuilder { return dawg.NewDawgBuilderWithSize(1) }
	texts := []string{"aя", "☀漢", "あ", "😀\x00", "ñ", "ya"}
	ss := []sess{
		builderSession("builder A (small)", std, [][]string{{"", "ab", "abc"}, {"b", "bb", "bbc"}}, false),
		builderSession("builder B (small, same shapes)", std, [][]string{{"ab", "abc", "b"}, {"bbc", "c"}}, false),
		builderSession("builder C (table of size 1)", small, [][]string{many("a", 40), many("b", 40)}, false),
		builderSession("builder D (reused after Finish)", std, [][]string{{"x", "xy"}, {"ab", "abc", "b"}, {}, {"q"}}, true),
		builderSession("builder E (many keys)", std, [][]string{many("q", 150), many("r", 150), many("s", 150)}, false),
		{"builders over the shared word graph", func(w *W, sh *shared) (func(int) string, func() string) {
			var kept []writer
			return func(k int) string {
					var o writer
					switch k % 6 {
					case 0:
						o = sh.d.Build()
					case 1:
						o = dawg.BuildGuide(sh.d, sh.b.dict)
					case 2:
						o = dawg.BuildRankedGuide(sh.d, sh.b.dict)
					case 3:
						o = dawg.BuildIndex(sh.b.dict, sh.b.guide)
					case 4:
						o = dawg.BuildRankedGuideCmp(sh.d, sh.b.dict, func(a, b int32) bool { return a > b })
					case 5:
						o = dawg.BuildIndex(sh.b.dict, sh.b.ranked)
					}
					kept = append(kept, o)
					return digest(writeTo(w, "object", o))
				}, func() string {
					s := ""
					for _, o := range kept {
						s += digest(writeTo(w, "object", o)) + " "
					}
					return s
				}
		}},
		completerSession("completer at the root", "", "", false, true),
		completerSession("completer at a with text", "a", "PRE", false, false),
		completerSession("completer at b", "b", "", false, true),
		completerSession("ranked completer at a", "a", "", true, true),
		completerSession("ranked completer at b with text", "b", "TEXT", true, false),
		completerSession("ranked completer at c", "c", "c", true, false),
		{"completer restarted", func(w *W, sh *shared) (func(int) string, func() string) {
			c := dawg.NewCompleter(sh.b.dict, sh.b.guide)
			r := dawg.NewRankedCompleter(sh.b.dict, sh.b.ranked)
			return func(k int) string {
				p := []string{"a", "dd", "c"}[k%3]
				idx := sh.b.dict.Root()
				sh.b.dict.FollowString(p, &idx)
				s := ""
				for _, x := range []completer{c, r} {
					x.StartString(idx, p)
					for j := 0; j < 2 && x.Next(); j++ {
						s += fmt.Sprintf("%q %d ", x.Key(), x.Value())
					}
				}
				return s
			}, func() string { return "" }
		}},
		{"lookups", func(w *W, sh *shared) (func(int) string, func() string) {
			idx, count := sh.b.dict.Root(), 0
			return func(k int) string {
				s := ""
				for _, q := range []string{"", "a", "axy", "zz", "c", "caa", "bxyzz", "ddlong tail", "\xff\x01"} {
					q = q[:len(q)*(k+1)/maxSteps]
					var v int32
					ok := sh.b.dict.FindStringValue(q, &v)
					s += fmt.Sprint(sh.b.dict.ContainsString(q), sh.b.dict.FindString(q), ok, v, sh.b.dict.ContainsStringLen(q, len(q)/2), " ")
				}
				ok := sh.b.dict.FollowStringCount("ddlong tale"[2*k%10:2*k%10+2], &idx, &count)
				return s + fmt.Sprint(ok, sh.b.dict.HasValue(idx), count)
			}, func() string { return "" }
		}},
		{"guide and word graph walks", func(w *W, sh *shared) (func(int) string, func() string) {
			n := sh.d.Root()
			return func(k int) string {
				c := sh.d.Child(n)
				s := fmt.Sprint(sh.d.Label(c))
				for x := sh.d.Sibling(c); x != 0; x = sh.d.Sibling(x) {
					s += fmt.Sprint(" ", sh.d.Label(x))
				}
				if !sh.d.IsLeaf(c) {
					n = c
				} else if x := sh.d.Sibling(c); x != 0 {
					n = x
				}
				i := sh.b.dict.Root()
				sh.b.dict.FollowString([]string{"", "a", "b", "c", "ax", "dd"}[k%6], &i)
				return s + fmt.Sprint(sh.b.guide.Child(i), sh.b.guide.Sibling(i), sh.b.ranked.Child(i), sh.b.ranked.Sibling(i), sh.b.index.ChildCount(i), sh.b.rindex.ChildCount(i))
			}, func() string { return "" }
		}},
	}
	for k := 0; k < 4; k++ {
		k := k
		name := []string{"indexer over the guide", "indexer over the ranked guide", "shared indexer over the guide", "shared indexer over the ranked guide"}[k]
		ss = append(ss, sess{name, func(w *W, sh *shared) (func(int) string, func() string) {
			var in *dawg.Indexer
			switch k {
			case 0:
				in = dawg.NewIndexer(sh.b.dict, sh.b.guide, sh.b.index)
			case 1:
				in = dawg.NewIndexer(sh.b.dict, sh.b.ranked, sh.b.rindex)
			default:
				in = sh.in[k-2]
			}
			var ks kept
			return func(j int) string {
				b := in.IndexToBytes(uint32(4*j + 1))
				s := fmt.Sprintf("%q ", b)
				if j == 1 { // the caller owns what it was given
					for i := range b {
						b[i] = '#'
					}
				}
				ks.add(b)
				s += fmt.Sprintf("%q %d %d %d %d", in.IndexToString(uint32(5*j)), in.StringToIndex(shareLex.Keys[3*j]), in.BytesToIndex([]byte(shareLex.Keys[2*j+9])), in.StringToIndex("axq"), in.TotalCount())
				ks.check(w, name)
				return s
			}, func() string { ks.check(w, name); return fmt.Sprintf("%q", ks.live) }
		}})
	}
	for k := 0; k < 2; k++ {
		k := k
		ss = append(ss, sess{fmt.Sprintf("encoder state %d", k), func(w *W, sh *shared) (func(int) string, func() string) {
			st := dawg.NewUtfcState()
			return func(j int) string {
				f := &collector{}
				for _, c := range texts[(j+3*k)%len(texts)] {
					st.Follow(c, f)
				}
				return fmt.Sprintf("% x", f.b)
			}, func() string { return "" }
		}})
	}
	ss = append(ss,
		sess{"one-shot encoding, slices kept", func(w *W, sh *shared) (func(int) string, func() string) {
			var ks kept
			return func(j int) string {
				b := dawg.UtfcEncode(strings.Repeat(texts[j%len(texts)], 1+j))
				ks.add(b)
				ks.check(w, "one-shot encoding")
				return fmt.Sprintf("% x", b)
			}, func() string { ks.check(w, "one-shot encoding"); return fmt.Sprintf("% x", ks.live) }
		}},
		sess{"one-shot following with aborts", func(w *W, sh *shared) (func(int) string, func() string) {
			return func(j int) string {
				f := &collector{}
				ok := dawg.UtfcFollow(texts[j%len(texts)]+"☁", &limited{f, j % 3})
				return fmt.Sprintf("%v % x", ok, f.b)
			}, func() string { return "" }
		}},
		sess{"decoding", func(w *W, sh *shared) (func(int) string, func() string) {
			var kept []string
			return func(j int) string {
				kept = append(kept, dawg.UtfcDecode(uEncode(texts[j%len(texts)]+texts[(j+1)%len(texts)])))
				return fmt.Sprintf("%q", kept[len(kept)-1])
			}, func() string { return fmt.Sprintf("%q", kept) }
		}},
		sess{"saving and loading", func(w *W, sh *shared) (func(int) string, func() string) {
			var kept []writer
			return func(j int) string {
					k := j % nKinds
					img := writeTo(w, kindNames[k], sh.b.obj(k))
					o := readCtor(k, bytes.NewReader(img))
					if o == nil {
						return "failed"
					}
					for i := range img {
						img[i] = 0xee
					}
					kept = append(kept, o.(writer))
					return digest(writeTo(w, kindNames[k], o))
				}, func() string {
					s := ""
					for _, o := range kept {
						s += digest(writeTo(w, "object", o)) + " "
					}
					return s
				}
		}},
		sess{"own small dictionary", func(w *W, sh *shared) (func(int) string, func() string) {
			var c []completer
			return func(j int) string {
				l := mk("a"+strconv.Itoa(j), 3, "b", j, "bc", 9)
				d, dict := buildDict(w, l)
				r := dawg.NewRankedCompleter(dict, dawg.BuildRankedGuide(d, dict))
				r.Start(dict.Root())
				c = append(c, r)
				s := ""
				for _, x := range c {
					s += fmt.Sprint(x.Next(), x.Key(), " ")
				}
				return s
			}, func() string { return "" }
		}},
	)
	return ss
}

type limited struct {
	f     *collector
	limit int // 0: never refuse
}

func (l *limited) Follow(b byte) bool {
	l.f.Follow(b)
	return l.limit == 0 || len(l.f.b) < l.limit
}

// schedules lists all interleavings of n sessions with k steps each.
func schedules(n, k int) [][]int {
	var out [][]int
	left := make([]int, n)
	for i := range left {
		left[i] = k
	}
	cur := make([]int, 0, n*k)
	var rec func()
	rec = func() {
		if len(cur) == n*k {
			out = append(out, append([]int{}, cur...))
			return
		}
		for i := 0; i < n; i++ {
			if left[i] > 0 {
				left[i]--
				cur = append(cur, i)
				rec()
				cur = cur[:len(cur)-1]
				left[i]++
			}
		}
	}
	rec()
	return out
}

var soloMemo = map[string][]string{}
var printMemo [][]byte

// solo is the transcript of a session run alone in a fresh world; the last element is what it holds after k steps.
func solo(w *W, s sess, k int) []string {
	id := s.name + "/" + strconv.Itoa(k)
	if t, ok := soloMemo[id]; ok {
		return t
	}
	step, end := s.make(w, newShared(w))
	var t []string
	for i := 0; i < k; i++ {
		t = append(t, step(i))
	}
	t = append(t, end())
	soloMemo[id] = t
	return t
}

// interleave runs the sessions in the given order in one world and compares every step with the solo transcripts.
func interleave(w *W, ss []sess, k int, order []int) {
	if printMemo == nil {
		printMemo = newShared(w).print(w)
	}
	want := make([][]string, len(ss))
	for i, s := range ss {
		want[i] = solo(w, s, k)
	}
	sh := newShared(w)
	steps := make([]func(int) string, len(ss))
	ends := make([]func() string, len(ss))
	at := make([]int, len(ss))
	for _, i := range order {
		if steps[i] == nil {
			steps[i], ends[i] = ss[i].make(w, sh)
		}
		got := steps[i](at[i])
		w.Tracef("%s: step %d = %s", ss[i].name, at[i], got)
		if got != want[i][at[i]] {
			w.Failf("%s, step %d: %s; used alone: %s", ss[i].name, at[i], got, want[i][at[i]])
		}
		at[i]++
		w.Transitions++
	}
	for i := range ss {
		if got := ends[i](); got != want[i][k] {
			w.Failf("%s holds in the end %s; used alone: %s", ss[i].name, got, want[i][k])
		}
	}
	for i, p := range sh.print(w) {
		if !bytes.Equal(p, printMemo[i]) {
			w.Failf("the shared %s was changed by the sessions", append(append([]string{}, kindNames[:]...), "word graph")[i])
		}
	}
}

var longKinds = []string{"completer", "ranked completer", "indexer", "indexer over the ranked guide", "shared indexer", "one-shot encoding", "builder", "saving and loading"}

// longWorld is a dictionary of six long keys with all that belongs to it, shared by the objects of a case.
type longWorld struct {
	l     *Lex
	b     *bundle
	in    *dawg.Indexer
	live  [][]byte // slices and strings returned to the objects of the case, with copies
	copy  []string
	keys  []string
	clone []string
}

var longMemo = map[int]*longWorld{}

func longWorldOf(w *W, n int) *longWorld {
	lw := longMemo[n]
	if lw == nil {
		l := &Lex{Big: true}
		mid := strings.Repeat("k\xf0\x01", n/3+1)[:n]
		for i, t := range []string{"a", "b", "bc"} {
			l.add("1"+mid+t, int32(10+i*7%5))
			l.add("2"+mid[1:]+t, int32(20+i*7%5))
		}
		sortLex(l)
		lw = &longWorld{l: l, b: buildBundle(w, l)}
		lw.in = dawg.NewIndexer(lw.b.dict, lw.b.guide, lw.b.index)
		longMemo[n] = lw
	}
	lw.live, lw.copy, lw.keys, lw.clone = nil, nil, nil, nil
	return lw
}

func (lw *longWorld) slice(w *W, what string, b []byte, want string) {
	if string(b) != want {
		w.Failf("%s: %d bytes, or other bytes, than the %d expected", what, len(b), len(want))
	}
	lw.live, lw.copy = append(lw.live, b), append(lw.copy, want)
}

func (lw *longWorld) str(w *W, what, s, want string) {
	if s != want {
		w.Failf("%s: %d bytes, or other bytes, than the %d expected", what, len(s), len(want))
	}
	lw.keys, lw.clone = append(lw.keys, s), append(lw.clone, want)
}

func (lw *longWorld) end(w *W) {
	for i := range lw.live {
		if string(lw.live[i]) != lw.copy[i] {
			w.Failf("a slice of %d bytes returned earlier has changed", len(lw.copy[i]))
		}
	}
	for i := range lw.keys {
		if lw.keys[i] != lw.clone[i] {
			w.Failf("a key of %d bytes returned earlier has changed", len(lw.clone[i]))
		}
	}
	for i, k := range lw.l.Keys {
		if v := lw.b.dict.FindString(k); v != lw.l.Vals[i] {
			w.Failf("key %d of the shared dictionary has value %d, want %d", i, v, lw.l.Vals[i])
		}
	}
}

func (lw *longWorld) object(w *W, kind int) func(k int) {
	l, what := lw.l, longKinds[kind]
	switch kind {
	case 0, 1:
		var c completer = dawg.NewCompleter(lw.b.dict, lw.b.guide)
		order := []int{0, 1, 2}
		if kind == 1 {
			c = dawg.NewRankedCompleter(lw.b.dict, lw.b.ranked)
			order = []int{4, 5, 3} // by value
			for a := range order {
				for b := a + 1; b < 3; b++ {
					if l.Vals[order[b]] > l.Vals[order[a]] {
						order[a], order[b] = order[b], order[a]
					}
				}
			}
		}
		c.Start(lw.b.dict.Root())
		return func(k int) {
			if !c.Next() {
				w.Failf("%s: step %d yields nothing", what, k)
			}
			lw.str(w, what, c.Key(), l.Keys[order[k]])
			if c.Value() != l.Vals[order[k]] {
				w.Failf("%s: value %d, want %d", what, c.Value(), l.Vals[order[k]])
			}
		}
	case 2, 3, 4:
		in := lw.in
		if kind == 2 {
			in = dawg.NewIndexer(lw.b.dict, lw.b.guide, lw.b.index)
		} else if kind == 3 {
			in = dawg.NewIndexer(lw.b.dict, lw.b.ranked, lw.b.rindex)
		}
		return func(k int) {
			for j := 2 * k; j < 2*k+2; j++ {
				i := j
				if kind == 3 {
					i = int(in.StringToIndex(l.Keys[j]))
				}
				lw.slice(w, what, in.IndexToBytes(uint32(i)), l.Keys[j])
				lw.str(w, what, in.IndexToString(uint32(i)), l.Keys[j])
				if n := in.BytesToIndex([]byte(l.Keys[j])); int(n) != i {
					w.Failf("%s: key %d has number %d, want %d", what, j, n, i)
				}
			}
		}
	case 5:
		return func(k int) {
			t := strings.Repeat([]string{"aя", "漢", "é😀"}[k], 1+len(l.Keys[0])/2)
			lw.slice(w, what, dawg.UtfcEncode(t), string(uEncode(t)))
		}
	case 6:
		b := dawg.NewDawgBuilder()
		return func(k int) {
			for j := 2 * k; j < 2*k+2; j++ {
				buf := []byte(l.Keys[j])
				if !b.InsertKeyValue(buf, len(buf), l.Vals[j]) {
					w.Failf("%s: key %d refused", what, j)
				}
				for i := range buf {
					buf[i] = 0
				}
			}
			if k == 2 {
				d := dawg.NewDawg()
				b.Finish(d)
				dict := d.Build()
				if dict == nil {
					w.Failf("%s: building the dictionary failed", what)
				}
				for i, key := range l.Keys {
					if v := dict.FindString(key); v != l.Vals[i] {
						w.Failf("%s: key %d has value %d, want %d", what, i, v, l.Vals[i])
					}
				}
			}
		}
	default:
		return func(k int) {
			img := writeTo(w, "dictionary", lw.b.dict)
			d := dawg.ReadDictionary(bytes.NewReader(img))
			if d == nil {
				w.Failf("%s: reading failed", what)
			}
			for i := range img {
				img[i] = 0xee
			}
			for i, key := range l.Keys {
				if v := d.FindString(key); v != l.Vals[i] {
					w.Failf("%s: key %d has value %d, want %d", what, i, v, l.Vals[i])
				}
			}
		}
	}
}

func c17Families(tier string) []*Family {
	ss := shareSessions()
	n := len(ss)
	steps2, steps3 := 5, 2
	if tier == "thorough" {
		steps2, steps3 = 6, 3
	}
	var out []*Family
	// determinism and read-only queries over lexicons
	fams := without(lexFamilies(tier), "byte-pair-shapes", "byte-intervals", "special-values")
	if tier != "thorough" {
		fams = thin(fams, map[string]int{"subsets-2letters-depth3": 17, "assign-2letters-depth2-5values": 7, "subsets-3letters-depth2": 5, "subsets-length4": 17, "growing-histories": 7, "long-keys": 4, "large-histories": 7, "xl": 3})
	} else {
		fams = thin(without(fams, "assign-2letters-depth3-2values"), map[string]int{"assign-3letters-depth2-values-0-1": 4, "assign-3letters-depth2-values-98-353": 5, "assign-3letters-depth2-values-5-5": 16})
	}
	for _, f := range overLex(fams, repeatable) {
		f.Name = "repeat/" + f.Name
		out = append(out, f)
	}
	sch2 := schedules(2, steps2)
	out = append(out, &Family{Name: "pairs", N: n * n * len(sch2), What: fmt.Sprintf("every ordered pair of %d sessions (incl. two of the same kind) x all %d interleavings of %d+%d steps", n, len(sch2), steps2, steps2),
		Run: func(w *W, i int) {
			o := i % len(sch2)
			i /= len(sch2)
			w.State(fnvInt(fnvInt(fnvInit, uint64(i)), uint64(o)))
			interleave(w, []sess{ss[i/n], ss[i%n]}, steps2, sch2[o])
		},
		Show: func(i int) string {
			p := i / len(sch2)
			return fmt.Sprintf("%s | %s, order %v", ss[p/n].name, ss[p%n].name, sch2[i%len(sch2)])
		}})
	// the same with keys of every magnitude
	lens := []int{20, 63, 64, 65, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 30000}
	if tier == "thorough" {
		lens = append(lens, 8193, 16385, 65535, 65536, 65537, 100000)
	}
	schL := schedules(2, 3)
	nk := len(longKinds)
	out = append(out, &Family{Name: "long-key-pairs", N: nk * nk * len(schL) * len(lens), What: fmt.Sprintf("keys of %d lengths up to %d bytes: every ordered pair of %d kinds of objects over them x all %d interleavings of 3+3 steps, with everything returned kept", len(lens), lens[len(lens)-1], nk, len(schL)),
		Run: func(w *W, i int) {
			o := i % len(schL)
			i /= len(schL)
			a, b, n := i%nk, i/nk%nk, lens[i/nk/nk]
			w.State(fnvInt(fnvInt(fnvInit+21, uint64(i)), uint64(o)))
			lw := longWorldOf(w, n)
			steps := [2]func(int){lw.object(w, a), lw.object(w, b)}
			at := [2]int{}
			for _, k := range schL[o] {
				w.Tracef("%s: step %d", longKinds[[2]int{a, b}[k]], at[k])
				steps[k](at[k])
				at[k]++
				w.Transitions++
			}
			lw.end(w)
		},
		Show: func(i int) string {
			p := i / len(schL)
			return fmt.Sprintf("%s | %s, order %v, keys of %d bytes", longKinds[p%nk], longKinds[p/nk%nk], schL[i%len(schL)], lens[p/nk/nk])
		}})
	sch3 := schedules(3, steps3)
	var triples [][3]int
	for a := 0; a < n; a++ {
		for b := a; b < n; b++ {
			for c := b; c < n; c++ {
				triples = append(triples, [3]int{a, b, c})
			}
		}
	}
	out = append(out, &Family{Name: "triples", N: len(triples) * len(sch3), What: fmt.Sprintf("every combination of three of %d sessions x all %d interleavings of %d steps each", n, len(sch3), steps3),
		Run: func(w *W, i int) {
			t := triples[i/len(sch3)]
			w.State(fnvInt(fnvInt(fnvInit+7, uint64(i/len(sch3))), uint64(i%len(sch3))))
			interleave(w, []sess{ss[t[0]], ss[t[1]], ss[t[2]]}, steps3, sch3[i%len(sch3)])
		},
		Show: func(i int) string {
			t := triples[i/len(sch3)]
			return fmt.Sprintf("%s | %s | %s, order %v", ss[t[0]].name, ss[t[1]].name, ss[t[2]].name, sch3[i%len(sch3)])
		}})
	return out
}

// thin keeps every k-th case of the named families.
func thin(fams []LexFam, every map[string]int) []LexFam {
	var out []LexFam
	for _, f := range fams {
		f := f
		if k := every[f.Name]; k > 1 {
			gen := f.Gen
			f.Gen = func(i int) *Lex { return gen(i * k) }
			f.N = (f.N + k - 1) / k
			f.What = fmt.Sprintf("every %d. of: %s", k, f.What)
		}
		out = append(out, f)
	}
	return out
}

// repeatable: answering everything changes nothing; building again gives the same bytes.
func repeatable(w *W, l *Lex) {
	d, dict := buildDict(w, l)
	b := &bundle{dict: dict, guide: dawg.BuildGuide(d, dict), ranked: dawg.BuildRankedGuide(d, dict)}
	if b.guide == nil || b.ranked == nil {
		w.Failf("building a guide failed")
	}
	b.index, b.rindex = dawg.BuildIndex(dict, b.guide), dawg.BuildIndex(dict, b.ranked)
	if b.index == nil || b.rindex == nil {
		w.Failf("building an index failed")
	}
	var first [nKinds][]byte
	for k := 0; k < nKinds; k++ {
		first[k] = writeTo(w, kindNames[k], b.obj(k))
	}
	use(w, l, b)
	for k := 0; k < nKinds; k++ {
		if img := writeTo(w, kindNames[k], b.obj(k)); !bytes.Equal(img, first[k]) {
			w.Failf("queries changed the %s", kindNames[k])
		}
	}
	w.Tracef("the same key set built again")
	b2 := buildBundle(w, l)
	for k := 0; k < nKinds; k++ {
		if img := writeTo(w, kindNames[k], b2.obj(k)); !bytes.Equal(img, first[k]) {
			w.Failf("the second build of the same key set gives a different %s", kindNames[k])
		}
	}
	again := d.Build()
	if again == nil || !bytes.Equal(writeTo(w, "dictionary", again), first[kDict]) {
		w.Failf("building a dictionary from the same word graph again gives a different image")
	}
	w.Transitions += 20
}

// use runs every kind of query without judging the answers (that is the business of other properties).
func use(w *W, l *Lex, b *bundle) {
	step := 1 + l.Len()/200
	for i := 0; i < l.Len(); i += step {
		k := l.Keys[i]
		b.dict.ContainsString(k)
		b.dict.FindString(k + "\x01")
		b.dict.FindString(k[:len(k)/2])
		idx := b.dict.Root()
		n := 0
		b.dict.FollowStringCount(k+"zz", &idx, &n)
		idx = b.dict.Root()
		if !b.dict.FollowString(k[:len(k)/2], &idx) {
			continue
		}
		for _, c := range []completer{dawg.NewCompleter(b.dict, b.guide), dawg.NewRankedCompleter(b.dict, b.ranked)} {
			c.StartString(idx, k)
			for j := 0; j < 5 && c.Next(); j++ {
				c.Key()
				c.Value()
			}
		}
		for j, ix := range []*dawg.Index{b.index, b.rindex} {
			var g dawg.SomeGuide = b.guide
			if j == 1 {
				g = b.ranked
			}
			in := dawg.NewIndexer(b.dict, g, ix)
			in.StringToIndex(k)
			in.IndexToBytes(uint32(i))
			ix.ChildCount(idx)
		}
	}
	w.Transitions++
}

// ---- the race pass ----

type raceOp struct {
	name string
	run  func(w *W, sh *shared)
	own  bool // uses no shared object
}

func raceOps() []raceOp {
	dict := func(sh *shared) *dawg.Dictionary { return sh.b.dict }
	each := func(f func(k string)) {
		for _, k := range shareLex.Keys {
			f(k)
			f(k + "q")
			if len(k) > 0 {
				f(k[:len(k)-1])
			}
		}
	}
	complete := func(c completer, sh *shared) {
		for _, p := range []string{"", "a", "dd", "c"} {
			i := sh.b.dict.Root()
			sh.b.dict.FollowString(p, &i)
			c.StartString(i, p)
			for c.Next() {
				c.Key()
				c.Value()
				c.Length()
			}
		}
	}
	return []raceOp{
		{name: "ContainsString", run: func(w *W, sh *shared) { each(func(k string) { dict(sh).ContainsString(k) }) }},
		{name: "FindString", run: func(w *W, sh *shared) { each(func(k string) { dict(sh).FindString(k) }) }},
		{name: "FindStringLenValue", run: func(w *W, sh *shared) {
			each(func(k string) { var v int32; dict(sh).FindStringLenValue(k, len(k), &v) })
		}},
		{name: "FollowStringLenCount/HasValue/Value", run: func(w *W, sh *shared) {
			each(func(k string) {
				i, n := dict(sh).Root(), 0
				if dict(sh).FollowStringLenCount(k, len(k), &i, &n) && dict(sh).HasValue(i) {
					dict(sh).Value(i)
				}
			})
		}},
		{name: "Completer", run: func(w *W, sh *shared) { complete(dawg.NewCompleter(sh.b.dict, sh.b.guide), sh) }},
		{name: "RankedCompleter", run: func(w *W, sh *shared) { complete(dawg.NewRankedCompleter(sh.b.dict, sh.b.ranked), sh) }},
		{name: "Indexer (guide)", run: func(w *W, sh *shared) { indexAll(dawg.NewIndexer(sh.b.dict, sh.b.guide, sh.b.index)) }},
		{name: "Indexer (ranked guide)", run: func(w *W, sh *shared) { indexAll(dawg.NewIndexer(sh.b.dict, sh.b.ranked, sh.b.rindex)) }},
		{name: "one Indexer (guide) for all", run: func(w *W, sh *shared) { indexAll(sh.in[0]) }},
		{name: "one Indexer (ranked guide) for all", run: func(w *W, sh *shared) { indexAll(sh.in[1]) }},
		{name: "Guide/RankedGuide/Index/Dawg accessors", run: func(w *W, sh *shared) {
			for i := uint32(0); int(i) < sh.b.guide.Size() && int(i) < sh.b.index.Size(); i++ {
				sh.b.guide.Child(i)
				sh.b.guide.Sibling(i)
				sh.b.ranked.Child(i)
				sh.b.ranked.Sibling(i)
				sh.b.index.ChildCount(i)
			}
			sh.b.index.TotalCount()
			dawgPrint(sh.d)
		}},
		{name: "Write of all objects", run: func(w *W, sh *shared) { sh.print(w) }},
		{name: "building over the shared word graph", run: func(w *W, sh *shared) {
			sh.d.Build()
			g := dawg.BuildGuide(sh.d, sh.b.dict)
			dawg.BuildIndex(sh.b.dict, g)
			dawg.BuildIndex(sh.b.dict, sh.b.ranked)
			dawg.BuildRankedGuide(sh.d, sh.b.dict)
		}},
		{name: "building and reading objects of its own", own: true, run: func(w *W, sh *shared) {
			l := growKinds[2].gen(300)
			b := buildBundle(w, l)
			for k := 0; k < nKinds; k++ {
				readCtor(k, bytes.NewReader(writeTo(w, kindNames[k], b.obj(k))))
			}
		}},
		{name: "an encoder state of its own, decoding", own: true, run: func(w *W, sh *shared) {
			for _, t := range []string{"aя☀漢あ😀ñ\x00", "ελ한글яaAАю"} {
				st := dawg.NewUtfcState()
				for _, c := range t {
					st.Follow(c, &collector{})
				}
				dawg.UtfcDecode(uEncode(t))
			}
		}},
	}
}

func indexAll(in *dawg.Indexer) {
	for i := 0; i < shareLex.Len()+2; i++ {
		in.IndexToString(uint32(i))
		in.IndexToBytes(uint32(i))
	}
	for _, k := range shareLex.Keys {
		in.StringToIndex(k)
		in.BytesToIndex([]byte(k + "x"))
	}
	in.TotalCount()
}

// runRace is the body of the race-instrumented binary: one pair of operations, concurrently, in a process that has done
// nothing else before than build the shared objects (if one of the two needs them), then twice more.
func runRace(a, b int) int {
	ops := raceOps()
	w := newW("")
	var sh *shared
	if !ops[a].own || !ops[b].own {
		sh = newShared(w)
	}
	for round := 0; round < 3; round++ {
		if round == 2 && sh != nil { // objects that came from a file
			b := &bundle{dict: dawg.ReadDictionary(bytes.NewReader(writeTo(w, "dictionary", sh.b.dict))),
				guide:  dawg.ReadGuide(bytes.NewReader(writeTo(w, "guide", sh.b.guide))),
				ranked: dawg.ReadRankedGuide(bytes.NewReader(writeTo(w, "ranked guide", sh.b.ranked))),
				index:  dawg.ReadIndex(bytes.NewReader(writeTo(w, "index", sh.b.index))),
				rindex: dawg.ReadIndex(bytes.NewReader(writeTo(w, "index", sh.b.rindex)))}
			if b.dict == nil || b.guide == nil || b.ranked == nil || b.index == nil || b.rindex == nil {
				break
			}
			sh = &shared{sh.d, b, [2]*dawg.Indexer{dawg.NewIndexer(b.dict, b.guide, b.index), dawg.NewIndexer(b.dict, b.ranked, b.rindex)}}
		}
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for _, op := range []raceOp{ops[a], ops[b]} {
			op := op
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				op.run(newW(""), sh)
			}()
		}
		close(gate)
		wg.Wait()
	}
	fmt.Println("pair done")
	return 0
}

func racePass(tier string, cov map[string]interface{}) string {
	bin := filepath.Join(os.TempDir(), "mcrace")
	cmd := exec.Command("go", "build", "-race", "-o", bin, ".")
	cmd.Dir = filepath.Join(verifDir, "mc")
	cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	if out, err := cmd.CombinedOutput(); err != nil {
		cov["race_pass"] = "not run: the race-instrumented build failed: " + string(out)
		return ""
	}
	ops := raceOps()
	type pair struct{ a, b int }
	var todo []pair
	for a := range ops {
		for b := a; b < len(ops); b++ {
			todo = append(todo, pair{a, b})
		}
	}
	found := make([]string, len(todo))
	odd := make([]string, len(todo))
	next := int32(-1)
	var wg sync.WaitGroup
	for k := 0; k < Workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt32(&next, 1))
				if i >= len(todo) {
					return
				}
				run := exec.Command(bin, "race", strconv.Itoa(todo[i].a), strconv.Itoa(todo[i].b))
				run.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
				var out bytes.Buffer
				run.Stdout, run.Stderr = &out, &out
				if err := run.Start(); err != nil {
					odd[i] = err.Error()
					continue
				}
				t := time.AfterFunc(2*time.Minute, func() { run.Process.Kill() })
				run.Wait()
				t.Stop()
				s := out.String()
				if j := strings.Index(s, "WARNING: DATA RACE"); j >= 0 && run.ProcessState.ExitCode() == 66 {
					if s = s[j:]; len(s) > 2500 {
						s = s[:2500]
					}
					found[i] = s
				} else if !strings.Contains(s, "pair done") {
					if len(s) > 300 {
						s = s[len(s)-300:]
					}
					odd[i] = "no result: " + s
				}
			}
		}()
	}
	wg.Wait()
	clean := 0
	for i, p := range todo {
		name := ops[p.a].name + " | " + ops[p.b].name
		if found[i] != "" {
			return name + "\n" + found[i]
		}
		if odd[i] != "" {
			cov["race_pass_incomplete"] = name + ": " + odd[i]
			continue
		}
		clean++
	}
	cov["race_pass"] = fmt.Sprintf("no race in %d of %d pairs of operations, each in a process of its own", clean, len(todo))
	return ""
}

func init() {
	register(&Check{Prop: "C17",
		StateIs:     "state: one interleaving prefix class (sessions, order) or key set; transition: one operation of a session; trace: one complete interleaving or repeated build executed on the real code",
		Assumptions: []string{"operations of different objects are interleaved at operation granularity; instruction-level interference is covered by the race pass only", "UtfcEncode and UtfcFollow use package-level state and are not claimed to be usable from several goroutines at once"},
		Families:    c17Families,
		Post:        racePass,
	})
}
