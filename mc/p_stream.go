package main

// C10 save/load round trip, C11 file format, C12 stream faults.

import (
	"bytes"
	_ "embed"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/deNULL/dawg"
)

type ioObj interface {
	Read(io.Reader) bool
	Write(io.Writer) bool
	Size() int
	TotalSize() int
	FileSize() int
}

const (
	kDict = iota
	kGuide
	kRanked
	kIndex
	kRIndex
	nKinds
)

var kindNames = []string{"dictionary", "guide", "ranked guide", "index", "index over the ranked guide"}

// bundle is everything built from one key set.
type bundle struct {
	dict   *dawg.Dictionary
	guide  *dawg.Guide
	ranked *dawg.RankedGuide
	index  *dawg.Index
	rindex *dawg.Index
}

func (b *bundle) obj(kind int) ioObj {
	switch kind {
	case kDict:
		return b.dict
	case kGuide:
		return b.guide
	case kRanked:
		return b.ranked
	case kIndex:
		return b.index
	}
	return b.rindex
}

func (b *bundle) set(kind int, o ioObj) {
	switch kind {
	case kDict:
		b.dict = o.(*dawg.Dictionary)
	case kGuide:
		b.guide = o.(*dawg.Guide)
	case kRanked:
		b.ranked = o.(*dawg.RankedGuide)
	case kIndex:
		b.index = o.(*dawg.Index)
	default:
		b.rindex = o.(*dawg.Index)
	}
}

func buildBundle(w *W, l *Lex) *bundle {
	d, dict := buildDict(w, l)
	b := &bundle{dict: dict, guide: dawg.BuildGuide(d, dict), ranked: dawg.BuildRankedGuide(d, dict)}
	if b.guide == nil || b.ranked == nil {
		w.Failf("building a guide failed")
	}
	b.index = dawg.BuildIndex(dict, b.guide)
	b.rindex = dawg.BuildIndex(dict, b.ranked)
	if b.index == nil || b.rindex == nil {
		w.Failf("building an index failed")
	}
	return b
}

// readCtor reads an object with its constructor form; nil if that reports failure.
func readCtor(kind int, r io.Reader) ioObj {
	switch kind {
	case kDict:
		if o := dawg.ReadDictionary(r); o != nil {
			return o
		}
	case kGuide:
		if o := dawg.ReadGuide(r); o != nil {
			return o
		}
	case kRanked:
		if o := dawg.ReadRankedGuide(r); o != nil {
			return o
		}
	default:
		if o := dawg.ReadIndex(r); o != nil {
			return o
		}
	}
	return nil
}

func newObj(kind int) ioObj {
	switch kind {
	case kDict:
		return dawg.NewDictionary()
	case kGuide:
		return dawg.NewGuide()
	case kRanked:
		return dawg.NewRankedGuide()
	}
	return dawg.NewIndex()
}

// chunkReader delivers data in pieces of a given pattern; a 0 in the pattern is an empty read without error.
type chunkReader struct {
	data    []byte
	pos     int
	pattern []int
	turn    int
	joinEOF bool   // report the end together with the last bytes
	fail    error  // instead of io.EOF
	after   []byte // delivered if the reader is asked again after it has failed
}

func (r *chunkReader) Read(p []byte) (int, error) {
	end := error(io.EOF)
	if r.fail != nil {
		end = r.fail
	}
	if r.pos >= len(r.data) {
		if r.after != nil {
			r.data, r.after, r.fail = append(r.data[:len(r.data):len(r.data)], r.after...), nil, nil
		}
		return 0, end
	}
	n := len(r.data)
	if len(r.pattern) > 0 {
		n = r.pattern[r.turn%len(r.pattern)]
		r.turn++
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.data)-r.pos {
		n = len(r.data) - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.joinEOF && r.pos == len(r.data) {
		return n, end
	}
	return n, nil
}

// answers checks everything a loaded bundle should answer.
func answers(w *W, l *Lex, b *bundle) {
	language(w, l, b.dict)
	runAllRoot(w, l, b.dict, dawg.NewCompleter(b.dict, b.guide), false)
	runAllRoot(w, l, b.dict, dawg.NewRankedCompleter(b.dict, b.ranked), true)
	for k, ix := range []*dawg.Index{b.index, b.rindex} {
		var g dawg.SomeGuide = b.guide
		if k == 1 {
			g = b.ranked
		}
		in := dawg.NewIndexer(b.dict, g, ix)
		if in.TotalCount() != uint32(l.Len()) {
			w.Failf("%s: TotalCount=%d, want %d", kindNames[kIndex+k], in.TotalCount(), l.Len())
		}
		step := 1 + l.Len()/2000
		for i := 0; i < l.Len(); i += step {
			x := in.StringToIndex(l.Keys[i])
			if x >= uint32(l.Len()) || (k == 0 && x != uint32(i)) || in.IndexToString(x) != l.Keys[i] {
				w.Failf("%s: key %q has number %d, which is key %q", kindNames[kIndex+k], l.Keys[i], x, in.IndexToString(x))
			}
			w.Transitions++
		}
	}
}

// runAllRoot completes from the root and from every node of a small lexicon.
func runAllRoot(w *W, l *Lex, dict *dawg.Dictionary, c completer, ranked bool) {
	t := l.Trie()
	seen := make([]bool, l.Len())
	for ni := range t {
		idx := dict.Root()
		p := l.prefix(&t[ni])
		if !dict.FollowString(p, &idx) {
			w.Failf("prefix %q cannot be followed", p)
		}
		c.StartString(idx, p)
		fullRun(w, l, c, int32(ni), p, ranked, seen)
		if l.Big && ni > 8 {
			break
		}
	}
}

type deliver struct {
	name string
	mk   func(data []byte) *chunkReader
}

func deliveries() []deliver {
	var out []deliver
	for _, p := range [][]int{{1}, {2}, {3}, {5, 1}, {4, 1000}, {1, 0}, {0, 0, 7}, {255}, {256}, {4}} {
		p := p
		out = append(out, deliver{fmt.Sprintf("chunks %v", p), func(d []byte) *chunkReader { return &chunkReader{data: d, pattern: p} }})
	}
	out = append(out, deliver{"whole", func(d []byte) *chunkReader { return &chunkReader{data: d} }},
		deliver{"whole with end", func(d []byte) *chunkReader { return &chunkReader{data: d, joinEOF: true} }},
		deliver{"bytes with end", func(d []byte) *chunkReader { return &chunkReader{data: d, pattern: []int{3}, joinEOF: true} }})
	return out
}

var otherLex = mk("", 5, "left", 1, "lefts", 97, "over", 0, "overs", 7)

func sizesAgree(w *W, kind int, o ioObj, img []byte) {
	unit := []int{4, 2, 2, 4, 4}[kind]
	if o.FileSize() != len(img) {
		w.Failf("%s: FileSize()=%d but %d bytes were written", kindNames[kind], o.FileSize(), len(img))
	}
	if o.TotalSize() != len(img)-4 || o.Size()*unit != len(img)-4 {
		w.Failf("%s: TotalSize()=%d Size()=%d for %d bytes of units", kindNames[kind], o.TotalSize(), o.Size(), len(img)-4)
	}
}

// roundTrip stores all five objects back to back, in an enumerated order, and reads them through delivery dv.
func roundTrip(w *W, l *Lex, variant int) {
	dvs := deliveries()
	b := buildBundle(w, l)
	order := []int{kDict, kGuide, kRanked, kIndex, kRIndex}
	rot := variant / len(dvs) % nKinds
	order = append(order[rot:], order[:rot]...)
	dv := dvs[variant%len(dvs)]
	existing := variant/len(dvs)%2 == 1
	w.Tracef("stored in order %v, delivered as %s, into used receivers: %v", order, dv.name, existing)
	var file []byte
	ends := make([]int, nKinds)
	imgs := make([][]byte, nKinds)
	for _, k := range order {
		imgs[k] = writeTo(w, kindNames[k], b.obj(k))
		sizesAgree(w, k, b.obj(k), imgs[k])
		file = append(file, imgs[k]...)
		ends[k] = len(file)
	}
	// writing all to one stream gives the same bytes
	var one bytes.Buffer
	for _, k := range order {
		if !b.obj(k).Write(&one) {
			w.Failf("writing the %s reported failure", kindNames[k])
		}
	}
	if !bytes.Equal(one.Bytes(), file) {
		w.Failf("writing the objects to one stream differs from writing them apart")
	}
	tail := "tail that belongs to somebody else"
	r := dv.mk(append(file[:len(file):len(file)], tail...))
	if variant%3 == 0 {
		r = dv.mk(file)
	}
	got := &bundle{}
	old := &Lex{}
	if existing {
		// the used receivers hold something else, or nearly the same, and have been asked before
		old = otherLex
		if variant%4 < 2 && l.Len() < 200 {
			old = &Lex{Big: l.Big, XL: l.XL}
			for i, k := range l.Keys {
				if i%3 != 1 {
					old.add(k, (l.Vals[i]+1)&MaxInt32)
				}
			}
		}
		got = buildBundle(w, old)
		if l.Len() < 200 {
			answers(w, old, got)
			found(w, old, got.dict, l.Keys)
		}
	}
	for _, k := range order {
		if existing {
			if !got.obj(k).Read(r) {
				w.Failf("reading the %s back failed", kindNames[k])
			}
		} else {
			o := readCtor(k, r)
			if o == nil {
				w.Failf("reading the %s back failed", kindNames[k])
			}
			got.set(k, o)
		}
		if r.pos != ends[k] {
			w.Failf("reading the %s consumed up to byte %d, its end is at %d", kindNames[k], r.pos, ends[k])
		}
		if again := writeTo(w, kindNames[k], got.obj(k)); !bytes.Equal(again, imgs[k]) {
			w.Failf("the %s writes other bytes after being read back", kindNames[k])
		}
		sizesAgree(w, k, got.obj(k), imgs[k])
		w.Transitions += 3
	}
	answers(w, l, got)
	if l.Len() < 200 {
		found(w, l, got.dict, old.Keys)
		found(w, l, got.dict, l.Keys)
	}
}

// found looks all keys up in every form.
func found(w *W, l *Lex, dict *dawg.Dictionary, keys []string) {
	for _, k := range keys {
		want, ok := l.find(k)
		if !ok {
			want = -1
		}
		v := int32(-1)
		if got := dict.FindString(k); got != want {
			w.Failf("FindString(%q)=%d, want %d", k, got, want)
		}
		if dict.ContainsString(k) != ok || dict.FindStringValue(k, &v) != ok || v != want {
			w.Failf("ContainsString(%q)=%v FindStringValue=%d, want %v %d", k, dict.ContainsString(k), v, ok, want)
		}
		if got := dict.FindStringLen(k+"x", len(k)); got != want {
			w.Failf("FindStringLen(%q)=%d, want %d", k, got, want)
		}
		w.Transitions += 4
	}
}

func c10Families(tier string) []*Family {
	var out []*Family
	nv := len(deliveries()) * nKinds
	u7 := universe("ab", 2)
	n7 := 1 << 7
	out = append(out, &Family{Name: "all-variants", N: n7 * nv, What: fmt.Sprintf("every subset of 7 keys x %d ways the stream splits the data x 5 storage orders, into new and used receivers", len(deliveries())),
		Run: func(w *W, i int) {
			l := subsetLex(u7, i/nv, 3, "ab")
			w.State(fnvInt(l.hash(), uint64(i%nv)))
			roundTrip(w, l, i%nv)
		}, Show: func(i int) string { return subsetLex(u7, i/nv, 3, "ab").String() }})
	for _, lf := range lexFamilies(tier) {
		lf := lf
		n, stride := lf.N, 1
		if tier != "thorough" {
			switch lf.Name {
			case "subsets-2letters-depth3", "assign-2letters-depth2-5values", "subsets-3letters-depth2", "byte-intervals":
				stride = 2
			case "byte-pair-shapes":
				stride = 7
			case "subsets-length4", "special-values":
				stride = 2
			}
			n = (lf.N + stride - 1) / stride
		}
		what := lf.What
		if stride > 1 {
			what = fmt.Sprintf("every %dth of: %s", stride, what)
		}
		out = append(out, &Family{Name: lf.Name, N: n, Heavy: lf.XL || lf.Name == "large-histories", What: what,
			Run: func(w *W, i int) {
				l := lf.Gen(i * stride)
				v := i % nv
				if l.Big && l.Len() > 3000 {
					v = 10 + i%3
				}
				w.State(fnvInt(l.hash(), uint64(v)))
				roundTrip(w, l, v)
			}, Show: func(i int) string { return lf.Gen(i * stride).String() }})
	}
	return out
}

// ---- C11 ----

//go:embed fixtures/dictionary.dawg
var fixtureDawg []byte

//go:embed fixtures/lexicon.txt
var fixtureLexicon string

func fixtureLex() *Lex {
	l := &Lex{}
	for _, ln := range strings.Split(fixtureLexicon, "\n") {
		ln = strings.TrimRight(ln, "\r")
		if p := strings.Split(ln, "\t"); len(p) == 2 {
			v, _ := strconv.Atoi(p[1])
			l.add(p[0], int32(v))
		}
	}
	sort.Sort(l)
	return l
}

// rawPositions reads the image independently: every key, nothing else. It returns the unit of every trie node.
func rawPositions(w *W, l *Lex, raw rawDict) []uint32 {
	t := l.Trie()
	pos := make([]uint32, len(t))
	if len(raw) == 0 {
		w.Failf("dictionary image without units")
	}
	var want [256]int32
	for i := range want {
		want[i] = -1
	}
	for ni := range t {
		n := &t[ni]
		at := pos[ni]
		if raw.hasLeaf(at) != n.IsKey {
			w.Failf("image: at prefix %q the has-leaf bit is %v, want %v", l.prefix(n), raw.hasLeaf(at), n.IsKey)
		}
		if n.IsKey {
			lf := raw.leaf(at)
			if int(lf) >= len(raw) || !raw.isLeaf(lf) || raw.value(lf) != l.Vals[n.Lo] {
				w.Failf("image: no leaf unit with value %d for key %q", l.Vals[n.Lo], l.prefix(n))
			}
		}
		for c := n.First; c >= 0; c = t[c].Next {
			want[t[c].Label] = c
		}
		for b := 0; b < 256; b++ {
			if j := at ^ raw.offset(at) ^ uint32(b); int(j) >= len(raw) {
				w.Failf("image: from prefix %q byte 0x%02x leads out of the %d units", l.prefix(n), b, len(raw))
			}
			j, ok := raw.follow(at, byte(b))
			c := want[b]
			if ok != (c >= 0) {
				w.Failf("image: from prefix %q byte 0x%02x: transition=%v, want %v", l.prefix(n), b, ok, c >= 0)
			}
			if ok {
				pos[c] = j
			}
		}
		w.Transitions += 256
		for c := n.First; c >= 0; c = t[c].Next {
			want[t[c].Label] = -1
		}
	}
	return pos
}

func parseGuide(w *W, kind int, b []byte) [][2]byte {
	if len(b) < 4 {
		w.Failf("%s image of %d bytes", kindNames[kind], len(b))
	}
	n := int(binary.LittleEndian.Uint32(b))
	if len(b) != 4+2*n {
		w.Failf("%s image: count %d but %d bytes follow", kindNames[kind], n, len(b)-4)
	}
	u := make([][2]byte, n)
	for i := range u {
		u[i] = [2]byte{b[4+2*i], b[5+2*i]}
	}
	return u
}

// checkImages reads all images of a bundle with the independent reader.
func checkImages(w *W, l *Lex, b *bundle) {
	raw := parseDict(w, writeTo(w, "dictionary", b.dict))
	pos := rawPositions(w, l, raw)
	t := l.Trie()
	g := parseGuide(w, kGuide, writeTo(w, "guide", b.guide))
	r := parseGuide(w, kRanked, writeTo(w, "ranked guide", b.ranked))
	if l.Len() > 0 && (len(g) != len(raw) || len(r) != len(raw)) {
		w.Failf("guide images have %d and %d units for %d dictionary units", len(g), len(r), len(raw))
	}
	ix := parseDict(w, writeTo(w, "index", b.index))
	rx := parseDict(w, writeTo(w, "index", b.rindex))
	best := make([]int32, len(t))
	for ni := len(t) - 1; ni >= 0; ni-- {
		n := &t[ni]
		best[ni] = -1
		if n.IsKey {
			best[ni] = l.Vals[n.Lo]
		}
		for c := n.First; c >= 0; c = t[c].Next {
			if best[c] > best[ni] {
				best[ni] = best[c]
			}
		}
	}
	for ni := range t {
		n := &t[ni]
		at := pos[ni]
		for k, x := range []rawDict{ix, rx} {
			if len(x) <= int(at) || x[at] != uint32(n.Hi-n.Lo) {
				w.Failf("%s image: count at prefix %q is not %d", kindNames[kIndex+k], l.prefix(n), n.Hi-n.Lo)
			}
		}
		if l.Len() == 0 {
			break
		}
		// plain guide: child and sibling bytes in ascending order
		first := byte(0)
		if n.First >= 0 {
			first = t[n.First].Label
		}
		if g[at][0] != first {
			w.Failf("guide image: child at prefix %q is 0x%02x, want 0x%02x", l.prefix(n), g[at][0], first)
		}
		for c := n.First; c >= 0; c = t[c].Next {
			sib := byte(0)
			if t[c].Next >= 0 {
				sib = t[t[c].Next].Label
			}
			if g[pos[c]][1] != sib {
				w.Failf("guide image: sibling at prefix %q is 0x%02x, want 0x%02x", l.prefix(&t[c]), g[pos[c]][1], sib)
			}
		}
		// ranked guide: all continuations once, best first
		want := 0
		if n.IsKey {
			want = 1
		}
		for c := n.First; c >= 0; c = t[c].Next {
			want++
		}
		label := r[at][0]
		prev := int32(MaxInt32)
		var used [256]bool
		for k := 0; k < want; k++ {
			if used[label] {
				w.Failf("ranked guide image: at prefix %q continuation 0x%02x twice", l.prefix(n), label)
			}
			used[label] = true
			at2, v := uint32(0), int32(0)
			if label == 0 {
				if !n.IsKey {
					w.Failf("ranked guide image: at prefix %q only %d of %d continuations", l.prefix(n), k, want)
				}
				at2, v = raw.leaf(at), l.Vals[n.Lo]
			} else {
				c := n.First
				for c >= 0 && t[c].Label != label {
					c = t[c].Next
				}
				if c < 0 {
					w.Failf("ranked guide image: at prefix %q continuation 0x%02x has no keys", l.prefix(n), label)
				}
				at2, v = pos[c], best[c]
			}
			if v > prev {
				w.Failf("ranked guide image: at prefix %q continuation 0x%02x with value %d after one with %d", l.prefix(n), label, v, prev)
			}
			prev = v
			label = r[at2][1]
			w.Transitions++
		}
		if label != 0 {
			w.Failf("ranked guide image: at prefix %q continuation 0x%02x after all", l.prefix(n), label)
		}
	}
}

// arrangement of a foreign image
type arrangement struct {
	share    bool // equal tails share units
	from     int  // first unit tried for child offsets
	step     int  // how offsets are tried: ascending by 1, by 3, or a fresh block per node with a low-byte pattern
	breadth  bool // breadth first instead of depth first
	spare    int  // extra blocks
	far      bool // child groups are put beyond 2^21 units where possible
	fill     int  // how unused units are filled
	termLast bool // ranked guide: the order among equals
}

// compose writes images of a key set in the dawgdic layout, independently of the code under test.
func compose(l *Lex, a arrangement) (imgs [nKinds][]byte) {
	t := l.Trie()
	_, class, _ := minimal(l)
	units := make([]uint32, 256)
	usedUnit := make([]bool, 256)
	usedOff := make([]bool, 256)
	grow := func(n int) {
		for len(units) < n {
			units = append(units, make([]uint32, 256)...)
			usedUnit = append(usedUnit, make([]bool, 256)...)
			usedOff = append(usedOff, make([]bool, 256)...)
		}
	}
	usedUnit[0] = true
	usedOff[0] = true // a child group at offset 0 would be reached from itself
	pos := make([]uint32, len(t))
	shared := map[int32]uint32{}
	count := make(map[uint32]uint32)
	type gl struct{ child, sib byte }
	guide := map[uint32]*gl{}
	ranked := map[uint32]*gl{}
	at := func(m map[uint32]*gl, i uint32) *gl {
		if m[i] == nil {
			m[i] = &gl{}
		}
		return m[i]
	}
	setOffset := func(i, o uint32) bool {
		rel := i ^ o
		units[i] &= 1<<31 | 1<<8 | 0xff
		if rel < 1<<21 {
			units[i] |= rel << 10
			return true
		}
		if rel&0xff != 0 {
			return false
		}
		units[i] |= rel>>8<<10 | 1<<9
		return true
	}
	best := make([]int32, len(t))
	for ni := len(t) - 1; ni >= 0; ni-- {
		best[ni] = -1
		if t[ni].IsKey {
			best[ni] = l.Vals[t[ni].Lo]
		}
		for c := t[ni].First; c >= 0; c = t[c].Next {
			if best[c] > best[ni] {
				best[ni] = best[c]
			}
		}
	}
	queue := []int32{0}
	if l.Len() == 0 {
		queue = nil
		units[0] = 1 << 10
		usedOff[1] = true
	}
	fresh := 0
	for len(queue) > 0 {
		var ni int32
		if a.breadth {
			ni, queue = queue[0], queue[1:]
		} else {
			ni, queue = queue[len(queue)-1], queue[:len(queue)-1]
		}
		n := &t[ni]
		i := pos[ni]
		count[i] = uint32(n.Hi - n.Lo)
		var labels []byte
		var kids []int32
		if n.IsKey {
			labels, kids = append(labels, 0), append(kids, -1)
			units[i] |= 1 << 8
		}
		for c := n.First; c >= 0; c = t[c].Next {
			labels, kids = append(labels, t[c].Label), append(kids, c)
		}
		off, found := uint32(0), false
		if a.share {
			if o, ok := shared[class[ni]]; ok && setOffset(i, o) {
				continue // everything below is the same
			}
		}
		for k := 0; !found; k++ {
			var o int
			switch {
			case a.far:
				fresh++
				o = 1<<21 + fresh*256 + int(i&0xff)
				if fresh%2 == 0 {
					o -= 1 << 21
				}
			case a.step == 0: // a fresh block for every group, low byte following a pattern
				fresh++
				o = fresh*256 + (fresh*37+a.from)%256
			default:
				o = a.from + k*a.step
			}
			grow(o/256*256 + 256)
			if o == 0 || usedOff[o] {
				continue
			}
			ok := true
			for _, lb := range labels {
				if usedUnit[o^int(lb)] {
					ok = false
					break
				}
			}
			if ok && setOffset(i, uint32(o)) {
				off, found = uint32(o), true
			}
		}
		usedOff[off] = true
		shared[class[ni]] = off
		type cont struct {
			label byte
			best  int32
			at    uint32
		}
		var cs []cont
		for k, lb := range labels {
			j := off ^ uint32(lb)
			usedUnit[j] = true
			if lb == 0 {
				units[j] = uint32(l.Vals[n.Lo]) | 1<<31
				cs = append(cs, cont{0, l.Vals[n.Lo], j})
				continue
			}
			units[j] = uint32(lb)
			pos[kids[k]] = j
			queue = append(queue, kids[k])
			cs = append(cs, cont{lb, best[kids[k]], j})
		}
		// guides
		prev := -1
		for k := range cs {
			if cs[k].label == 0 {
				continue
			}
			if prev < 0 {
				at(guide, i).child = cs[k].label
			} else {
				at(guide, cs[prev].at).sib = cs[k].label
			}
			prev = k
		}
		if a.termLast {
			for x, y := 0, len(cs)-1; x < y; x, y = x+1, y-1 {
				cs[x], cs[y] = cs[y], cs[x]
			}
		}
		sort.SliceStable(cs, func(x, y int) bool { return cs[x].best > cs[y].best })
		for k := range cs {
			if k == 0 {
				at(ranked, i).child = cs[k].label
			} else {
				at(ranked, cs[k-1].at).sib = cs[k].label
			}
		}
	}
	// a node that shares its child group has the same guide child as the owner of the group
	byOff := map[uint32]uint32{}
	for _, p := range sortedKeys(count) {
		o := p ^ rawDict(units).offset(p)
		if q, ok := byOff[o]; ok {
			for _, m := range []map[uint32]*gl{guide, ranked} {
				if m[p] == nil || m[p].child == 0 {
					at(m, p).child = at(m, q).child
				} else {
					at(m, q).child = m[p].child
				}
			}
		}
		byOff[o] = p
	}
	for p := range count {
		o := p ^ rawDict(units).offset(p)
		for _, m := range []map[uint32]*gl{guide, ranked} {
			if m[byOff[o]] != nil && m[byOff[o]].child != 0 {
				at(m, p).child = m[byOff[o]].child
			}
		}
	}
	grow(len(units) + 256*a.spare)
	// every used offset's block must exist in full
	for i := range units {
		if !usedUnit[i] {
			switch a.fill {
			case 0: // a leaf with junk: can never be followed
				units[i] = 0xffffff00 | uint32(i)&0xff
			case 1: // a label that does not fit any offset in use
				blk := i &^ 0xff
				o := blk
				for o < blk+256 && usedOff[o] {
					o++
				}
				if o == blk+256 {
					units[i] = 1 << 31
				} else {
					units[i] = uint32(i^o) & 0xff
				}
			}
		}
	}
	le := binary.LittleEndian
	d := le.AppendUint32(nil, uint32(len(units)))
	x := le.AppendUint32(nil, uint32(len(units)))
	var g, r []byte
	if l.Len() == 0 {
		g, r = make([]byte, 4), make([]byte, 4)
	} else {
		g, r = le.AppendUint32(nil, uint32(len(units))), le.AppendUint32(nil, uint32(len(units)))
	}
	for i, u := range units {
		d = le.AppendUint32(d, u)
		x = le.AppendUint32(x, count[uint32(i)])
		if l.Len() == 0 {
			continue
		}
		for k, m := range []map[uint32]*gl{guide, ranked} {
			e := gl{}
			if p := m[uint32(i)]; p != nil {
				e = *p
			}
			if k == 0 {
				g = append(g, e.child, e.sib)
			} else {
				r = append(r, e.child, e.sib)
			}
		}
	}
	imgs[kDict], imgs[kGuide], imgs[kRanked], imgs[kIndex], imgs[kRIndex] = d, g, r, x, x
	return
}

func sortedKeys(m map[uint32]uint32) []uint32 {
	out := make([]uint32, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// loadImages reads foreign images and checks every answer.
func loadImages(w *W, l *Lex, imgs [nKinds][]byte) {
	b := &bundle{}
	for k := range imgs {
		o := readCtor(k, bytes.NewReader(imgs[k]))
		if o == nil {
			w.Failf("a valid %s image was refused", kindNames[k])
		}
		b.set(k, o)
		if again := writeTo(w, kindNames[k], o); !bytes.Equal(again, imgs[k]) {
			w.Failf("the %s image was not written back unchanged", kindNames[k])
		}
	}
	answers(w, l, b)
}

func c11Families(tier string) []*Family {
	var arr []arrangement
	for _, share := range []bool{false, true} {
		for _, breadth := range []bool{false, true} {
			for fill := 0; fill < 2; fill++ {
				for _, p := range [][2]int{{1, 1}, {1, 3}, {300, 1}, {700, 7}, {0, 0}, {5, 0}} {
					arr = append(arr, arrangement{share: share, from: p[0], step: p[1], breadth: breadth, spare: p[0] % 3, fill: fill, termLast: breadth})
				}
			}
		}
	}
	na := len(arr)
	u7 := universe("ab", 2)
	var out []*Family
	out = append(out, overLex(without(lexFamilies(tier)), func(w *W, l *Lex) {
		checkImages(w, l, buildBundle(w, l))
	})...)
	foreign := func(name, what string, n int, gen func(i int) *Lex) {
		out = append(out, &Family{Name: name, N: n * na, What: fmt.Sprintf("%s x %d unit arrangements written by an independent image writer", what, na),
			Run: func(w *W, i int) {
				l := gen(i / na)
				w.State(fnvInt(l.hash(), uint64(i%na)))
				w.Tracef("arrangement %+v", arr[i%na])
				loadImages(w, l, compose(l, arr[i%na]))
			}, Show: func(i int) string { return fmt.Sprintf("%v arranged %+v", gen(i/na), arr[i%na]) }})
	}
	sch := 2
	if tier == "thorough" {
		sch = len(schemeNames)
	}
	foreign("foreign-subsets-2letters-depth2", "every subset of 7 keys x value schemes", sch<<7, func(i int) *Lex { return subsetLex(u7, i/sch, []int{3, 1, 0, 2, 4, 5}[i%sch], "ab") })
	u13 := universe("a\x01\xff", 2)
	sort.Strings(u13)
	m13 := 3
	if tier == "thorough" {
		m13 = 1
	}
	foreign("foreign-subsets-3letters", fmt.Sprintf("every %dth subset of 13 keys over bytes 01,61,ff", m13), (1<<13+m13-1)/m13, func(i int) *Lex { return subsetLex(u13, i*m13, 3, "\x01a\xff") })
	foreign("foreign-bytes", "every number of one-byte keys 0..255 with longer keys behind every third", 256, func(i int) *Lex {
		l := &Lex{Big: i > 20}
		for b := 0; b < i; b++ {
			k := string([]byte{byte(b + 1)})
			l.add(k, int32(b*1000003))
			if b%3 == 0 {
				l.add(k+"x", int32(b))
				l.add(k+"xyz", int32(b%5))
			}
		}
		return l
	})
	farLex := []*Lex{mk("", 1, "a", 2, "ab", 3, "abc", 97, "b", 98, "bca", 7, "bcaz", 1<<30), mk("x", 1), mk("\x01\x01\x01", 5, "\xff\xff\xff", MaxInt32, "\xff", 0)}
	far := []arrangement{{far: true}, {far: true, share: true, fill: 1}, {far: true, breadth: true, termLast: true}}
	out = append(out, &Family{Name: "foreign-far", N: len(farLex) * len(far), Heavy: true, What: "3 key sets x 3 arrangements with child groups more than 2^21 units away (extension form)",
		Run: func(w *W, i int) {
			l := farLex[i/len(far)]
			w.State(fnvInt(l.hash(), 1000+uint64(i%len(far))))
			loadImages(w, l, compose(l, far[i%len(far)]))
		}})
	out = append(out, &Family{Name: "stored-file", N: 1, What: "the dictionary and guide file committed with the repository (copied into /verif) against its lexicon",
		Run: func(w *W, i int) {
			l := fixtureLex()
			w.State(l.hash())
			r := bytes.NewReader(fixtureDawg)
			dict := dawg.ReadDictionary(r)
			if dict == nil {
				w.Failf("the stored dictionary was refused")
			}
			g := dawg.ReadGuide(r)
			if g == nil || r.Len() != 0 {
				w.Failf("the stored guide was refused or %d bytes were left", r.Len())
			}
			language(w, l, dict)
			runAllRoot(w, l, dict, dawg.NewCompleter(dict, g), false)
		}})
	return out
}

// ---- C12 ----

var errInjected = errors.New("injected fault")

// faultWriter accepts the first limit bytes and then fails, like a full disk.
type faultWriter struct {
	limit, got int
	chunk      int // 1: accepts no byte of the failing call; 2: fails only once
	data       []byte
}

func (f *faultWriter) Write(p []byte) (int, error) {
	if f.got+len(p) <= f.limit || f.limit < 0 {
		f.got += len(p)
		f.data = append(f.data, p...)
		return len(p), nil
	}
	n := f.limit - f.got
	if f.chunk == 1 {
		n = 0
	}
	f.got += n
	f.data = append(f.data, p[:n]...)
	if f.chunk == 2 {
		f.limit = -1
	}
	return n, errInjected
}

type faultCase struct {
	l    *Lex
	imgs [nKinds][]byte
}

func prepFault(w *W, l *Lex) *faultCase {
	f := &faultCase{l: l}
	b := buildBundle(w, l)
	for k := 0; k < nKinds; k++ {
		f.imgs[k] = writeTo(w, kindNames[k], b.obj(k))
	}
	return f
}

const nReadFaults = 7

func readFault(kind int, data, after []byte) *chunkReader {
	switch kind {
	case 0:
		return &chunkReader{data: data}
	case 1:
		return &chunkReader{data: data, joinEOF: true}
	case 2:
		return &chunkReader{data: data, fail: errInjected}
	case 3:
		return &chunkReader{data: data, fail: errInjected, joinEOF: true, pattern: []int{3}}
	case 4:
		return &chunkReader{data: data, pattern: []int{1}}
	}
	if kind == 5 {
		return &chunkReader{data: data, fail: io.ErrUnexpectedEOF, pattern: []int{2, 0, 5}}
	}
	// fails once, and would go on
	return &chunkReader{data: data, fail: errInjected, after: after}
}

func readAt(w *W, l *Lex, imgs [nKinds][]byte, used *bundle, before [nKinds][]byte, cut int, kind, fault int) {
	img := imgs[kind]
	w.Tracef("%s of %d bytes, stream fails after %d bytes, fault kind %d", kindNames[kind], len(img), cut, fault)
	if o := readCtor(kind, readFault(fault, img[:cut], img[cut:])); o != nil {
		w.Failf("reading a %s from a stream that ends after %d of %d bytes succeeded", kindNames[kind], cut, len(img))
	}
	o := newObj(kind)
	if o.Read(readFault(fault, img[:cut], img[cut:])) || o.Size() != 0 {
		w.Failf("Read of %d of %d bytes into a new %s: reported as success, or it has %d units now", cut, len(img), kindNames[kind], o.Size())
	}
	o = used.obj(kind)
	if o.Read(readFault(fault, img[:cut], img[cut:])) {
		w.Failf("Read of a %s from a stream that ends after %d of %d bytes reported success", kindNames[kind], cut, len(img))
	}
	if now := writeTo(w, kindNames[kind], o); !bytes.Equal(now, before[kind]) {
		w.Failf("a failed Read (%d of %d bytes) changed the %s", cut, len(img), kindNames[kind])
	}
	sizesAgree(w, kind, o, before[kind])
	w.Transitions += 2
}

func c12Families(tier string) []*Family {
	lexes := []*Lex{mk(), mk("", 0), mk("a", 97), otherLex, mk("a", 1, "ab", 2, "abc", 3, "b", 4),
		growKinds[3].gen(300), growKinds[1].gen(600)}
	if tier == "thorough" {
		lexes = append(lexes, growKinds[2].gen(3000), growKinds[9].gen(2000))
	}
	for _, l := range lexes {
		l.Big = l.Len() > 40
	}
	var out []*Family
	for li, l := range lexes {
		li, l := li, l
		// the number of bytes is a property of the built object: enumerate generously, skip beyond the end
		blocks := 12
		if li >= 7 {
			blocks = 120
		}
		max := 4 + 4*256*blocks
		out = append(out, &Family{Name: fmt.Sprintf("faults-%d", li), N: max, What: fmt.Sprintf("key set of %d keys: read faults (7 kinds) and write faults (3 kinds, for good or once) after every byte of every object", l.Len()),
			Run: func(w *W, cut int) {
				fc := memoFault(w, li, l)
				ot := memoBundle(w)
				for kind := 0; kind < nKinds; kind++ {
					img := fc.imgs[kind]
					if cut >= len(img) {
						continue
					}
					for fault := 0; fault < nReadFaults; fault++ {
						if len(img) > 3000 && fault >= 3 && cut%16 > 4 {
							continue // byte-wise delivery of large images only around word boundaries
						}
						readAt(w, l, fc.imgs, ot.b, ot.before, cut, kind, fault)
						w.State(fnvInt(fnvInt(fnvInit, uint64(li*nKinds+kind)), uint64(cut*8+fault)))
					}
					for chunk := 0; chunk < 3; chunk++ {
						f := &faultWriter{limit: cut, chunk: chunk}
						if ot.kept[li].obj(kind).Write(f) {
							w.Failf("writing the %s of %d bytes to a stream that fails after %d bytes reported success", kindNames[kind], len(img), cut)
						}
						if chunk < 2 && !bytes.HasPrefix(img, f.data) {
							w.Failf("the bytes of the %s delivered before the fault are not its beginning", kindNames[kind])
						}
						w.Transitions++
					}
				}
				if cut == 0 {
					// exactly enough room: success
					for kind := 0; kind < nKinds; kind++ {
						f := &faultWriter{limit: len(fc.imgs[kind])}
						if !ot.kept[li].obj(kind).Write(f) || !bytes.Equal(f.data, fc.imgs[kind]) {
							w.Failf("writing the %s to a stream with exactly enough room failed", kindNames[kind])
						}
					}
					answersBundle(w, ot)
				}
				if cut%97 == 96 {
					answersBundle(w, ot)
				}
			}})
	}
	// large images: faults at and around every multiple of 4096 bytes
	big := growKinds[1].gen(100000)
	big.Big = true
	offs := []int{-4, -1, 0, 1, 4}
	out = append(out, &Family{Name: "faults-large", N: 256 * len(offs), Heavy: true, What: "an image of hundreds of kilobytes: read faults (4 kinds) and write faults (3 kinds, for good or once) at and around every multiple of 4096 bytes of every object",
		Run: func(w *W, i int) {
			fc := memoFault(w, 1000, big)
			ot := memoBundle(w)
			cut := i/len(offs)*4096 + offs[i%len(offs)]
			for kind := 0; kind < nKinds; kind++ {
				img := fc.imgs[kind]
				if cut < 0 || cut >= len(img) {
					continue
				}
				for _, fault := range []int{0, 1, 2, 6} {
					readAt(w, big, fc.imgs, ot.b, ot.before, cut, kind, fault)
					w.State(fnvInt(fnvInt(fnvInit, uint64(1000+kind)), uint64(cut*8+fault)))
				}
				for chunk := 0; chunk < 3; chunk++ {
					f := &faultWriter{limit: cut, chunk: chunk}
					if ot.kept[1000].obj(kind).Write(f) {
						w.Failf("writing the %s of %d bytes to a stream that fails after %d bytes reported success", kindNames[kind], len(img), cut)
					}
					if chunk < 2 && !bytes.HasPrefix(img, f.data) {
						w.Failf("the bytes of the %s delivered before the fault are not its beginning", kindNames[kind])
					}
					w.Transitions++
				}
			}
		}})
	// after a failed read the receiver can be read into again
	out = append(out, &Family{Name: "fail-then-read", N: nKinds * 3 * 260, What: "a failed read at every byte 0..259 followed by a successful one into the same receiver",
		Run: func(w *W, i int) {
			kind := i % nKinds
			i /= nKinds
			l := lexes[2+i%3]
			cut := i / 3
			b := buildBundle(w, otherLex)
			nb := buildBundle(w, l)
			for k := 0; k < nKinds; k++ {
				img := writeTo(w, kindNames[k], nb.obj(k))
				if k == kind && cut < len(img) && b.obj(k).Read(bytes.NewReader(img[:cut])) {
					w.Failf("Read of a truncated %s reported success", kindNames[k])
				}
				if !b.obj(k).Read(bytes.NewReader(img)) {
					w.Failf("Read of the %s failed after an earlier failure", kindNames[k])
				}
			}
			w.State(fnvInt(fnvInt(fnvInit, 77), uint64(i*nKinds+kind)))
			answers(w, l, b)
		}})
	return out
}

type faultReceivers struct {
	b      *bundle
	before [nKinds][]byte
	kept   map[int]*bundle
}

var memoF = map[int]*faultCase{}
var memoR *faultReceivers

func memoBundle(w *W) *faultReceivers {
	if memoR == nil {
		b := buildBundle(w, otherLex)
		memoR = &faultReceivers{b: b, kept: map[int]*bundle{}}
		for k := 0; k < nKinds; k++ {
			memoR.before[k] = writeTo(w, kindNames[k], b.obj(k))
		}
	}
	return memoR
}

func memoFault(w *W, li int, l *Lex) *faultCase {
	r := memoBundle(w)
	if memoF[li] == nil {
		r.kept[li] = buildBundle(w, l)
		memoF[li] = prepFault(w, l)
	}
	return memoF[li]
}

func answersBundle(w *W, r *faultReceivers) { answers(w, otherLex, r.b) }

func init() {
	register(&Check{
		Prop:        "C10",
		StateIs:     "state: (key set, storage order, delivery of the stream); transition: one object written, read or rewritten, or one answer of the loaded object compared; trace: one save/load history",
		Assumptions: []string{"readers follow the io.Reader contract; key sets beyond the enumerated families are not covered"},
		Families:    c10Families,
	})
	register(&Check{
		Prop:        "C11",
		StateIs:     "state: (key set, unit arrangement); transition: one (node, byte) of an image decoded by the independent reader, or one answer on a foreign image; trace: one image written and decoded, or composed and loaded",
		Assumptions: []string{"foreign images are valid: unused units cannot be followed from any offset in use, extension form only for offsets of 2^21 and more"},
		Families:    c11Families,
	})
	register(&Check{
		Prop:        "C12",
		StateIs:     "state: (object, number of bytes before the fault, fault kind); transition: one faulty Read or Write; trace: one fault point",
		Assumptions: []string{"streams follow the io.Reader/io.Writer contracts (a short write comes with an error); corrupted but complete images are out of scope"},
		Families:    c12Families,
	})
}
