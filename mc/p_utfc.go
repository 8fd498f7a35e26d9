package main

// C13..C16: UTF-C. The reference is an independent model of the scheme as a finite-state transducer; its states are
// enumerated and every (state, code point) edge is executed on the real encoder and decoder.

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/deNULL/dawg"
)

// ---- reference model ----

// ustate: the active window (start of 128 or, if wide, of 32768 code points above 0x2600) and the window of 64 code
// points reachable with a single byte 0xC0..0xFF (0: the letters of the Latin alphabet).
type ustate struct {
	win, aux int32
	wide     bool
}

var uInit = ustate{0, 0x410, false}

// where the 64 most useful code points of a window begin
var uAux = map[int32]int32{
	0x0080: 0x00C0, 0x0380: 0x0391, 0x0400: 0x0410, 0x0580: 0x05BE, 0x0530: 0x0531, 0x0600: 0x060B, 0x0900: 0x090D,
	0x0980: 0x098F, 0x0A00: 0x0A02, 0x0A80: 0x0A8F, 0x0B00: 0x0B0F, 0x0B80: 0x0B8E, 0x0C80: 0x0C8E, 0x0D00: 0x0D0E,
	0x0D80: 0x0D9B, 0x0E00: 0x0E01, 0x0E80: 0x0E81, 0x0F00: 0x0F40, 0x0F80: 0x0F90, 0x1080: 0x10B0, 0x3000: 0x3040,
}

const uLatin = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 -"

func auxOf(win int32) int32 {
	if a, ok := uAux[win]; ok {
		return a
	}
	return win
}

// extra: code points of punctuation, kana, variation selectors and emoji renumbered 0..0x9ff, or -1.
func extraOf(c int32) int32 {
	base := int32(0)
	for _, r := range [][2]int32{{0x2000, 0x2600}, {0x3000, 0x3100}, {0xFE00, 0xFE10}, {0x1F300, 0x1F5F0}} {
		if c >= r[0] && c < r[1] {
			return base + c - r[0]
		}
		base += r[1] - r[0]
	}
	return -1
}

// zeros replaces zero bytes by a marker in front: lead, then the remaining bytes without the zeros.
func zeros(out []byte, lead byte, rest ...byte) []byte {
	pat := 0
	for _, b := range rest {
		pat <<= 1
		if b == 0 {
			pat |= 1
		}
	}
	if len(rest) == 1 {
		pat <<= 1
	}
	switch pat {
	case 1:
		out = append(out, 0xBD)
	case 2:
		out = append(out, 0xBE)
	case 3:
		out = append(out, 0xBF)
	}
	out = append(out, lead)
	for _, b := range rest {
		if b != 0 {
			out = append(out, b)
		}
	}
	return out
}

// step is the transducer: the bytes for code point c in state s, and the next state.
func (s ustate) step(out []byte, c int32) ([]byte, ustate) {
	if s.aux == 0 {
		if c < 0x80 {
			if i := strings.IndexByte(uLatin, byte(c)); i >= 0 {
				return append(out, 0xC0+byte(i)), s
			}
		}
	} else if c-s.aux >= 0 && c-s.aux < 64 {
		return append(out, 0xC0+byte(c-s.aux)), s
	}
	x := extraOf(c)
	if x >= 0 || c < 0x2600 {
		if !s.wide && c>>7 == s.win>>7 && s.win&0x7f == 0 {
			if c&0x7f == 0 {
				return append(out, 0xBB), s
			}
			return append(out, byte(c&0x7f)), s
		}
		if x >= 0 {
			out = zeros(out, byte(0xB1+x>>8), byte(x))
			if c>>8 == 0x30 {
				s = ustate{c &^ 0x7f, auxOf(s.win), false}
			}
			return out, s
		}
		out = zeros(out, byte(0x80|c>>8), byte(c))
		n := ustate{c &^ 0x7f, auxOf(s.win), false}
		if c < 0x300 {
			n.win = 0
		}
		return out, n
	}
	r := c - 0x2600
	if s.wide && r>>15 == s.win>>15 {
		hi, lo := byte(r>>8&0x7f), byte(r)
		switch {
		case hi == 0 && lo == 0:
			return append(out, 0xBB), s
		case hi == 0:
			return append(out, 0xBC, lo), s
		case lo == 0:
			return append(out, 0xBE, hi), s
		}
		return append(out, hi, lo), s
	}
	return zeros(out, byte(0xA0+r>>16), byte(r>>8), byte(r)), ustate{r &^ 0x7fff, s.win, true}
}

func uEncode(str string) []byte {
	s := uInit
	out := []byte{}
	for _, c := range str {
		out, s = s.step(out, c)
	}
	return out
}

func validCp(c int32) bool { return c >= 0 && c <= 0x10FFFF && (c < 0xD800 || c > 0xDFFF) }

// uNode is a reachable state with a shortest text leading to it and probes that reveal it.
type uNode struct {
	s     ustate
	text  string
	bytes []byte
	probe string // code points encoded through the window and through the auxiliary alphabet, state unchanged
	pb    []byte
}

var (
	uNodes []uNode
	uIndex map[ustate]int32
)

// uExplore enumerates the reachable states of the model.
func uExplore() []uNode {
	if uNodes != nil {
		return uNodes
	}
	var reps []int32
	for c := int32(0); c < 0x3200; c += 64 {
		reps = append(reps, c, c+63)
	}
	for c := int32(0x2600); c <= 0x10FFFF; c += 0x8000 {
		reps = append(reps, c, c+100, c+0x7fff)
	}
	reps = append(reps, 0xE000, 0x10FFFF)
	uIndex = map[ustate]int32{uInit: 0}
	uNodes = []uNode{{s: uInit, bytes: []byte{}}}
	var buf []byte
	for i := 0; i < len(uNodes); i++ {
		for _, c := range reps {
			if !validCp(c) {
				continue
			}
			var n ustate
			buf, n = uNodes[i].s.step(buf[:0], c)
			if _, ok := uIndex[n]; !ok {
				uIndex[n] = int32(len(uNodes))
				t := uNodes[i].text + string(rune(c))
				uNodes = append(uNodes, uNode{s: n, text: t, bytes: uEncode(t)})
			}
		}
	}
	for i := range uNodes {
		n := &uNodes[i]
		add := func(c int32, first func(b []byte) bool) bool {
			if !validCp(c) {
				return false
			}
			b, s2 := n.s.step(nil, c)
			if s2 != n.s || !first(b) {
				return false
			}
			n.probe += string(rune(c))
			n.pb = append(n.pb, b...)
			return true
		}
		base, size := n.s.win, int32(128)
		if n.s.wide {
			base, size = n.s.win+0x2600, 32768
		}
		for c := base + size/2 + 11; c < base+size; c++ {
			if add(c, func(b []byte) bool { return b[0] < 0x80 }) {
				break
			}
		}
		a := n.s.aux
		if a == 0 {
			a = 'A'
		}
		add(a, func(b []byte) bool { return b[0] >= 0xC0 })
		if n.s.aux == 0 {
			add('-', func(b []byte) bool { return b[0] >= 0xC0 })
		} else {
			add(a+63, func(b []byte) bool { return b[0] >= 0xC0 })
		}
	}
	return uNodes
}

// uReps: all code points below 0x3200 (every form except most of the wide one) and the edges of all blocks above.
func uReps(tier string) []int32 {
	var out []int32
	have := map[int32]bool{}
	put := func(c int32) {
		if validCp(c) && (tier == "thorough" || !have[c]) {
			if tier != "thorough" {
				have[c] = true
			}
			out = append(out, c)
		}
	}
	if tier == "thorough" {
		for c := int32(0); c <= 0x10FFFF; c++ {
			put(c)
		}
		return out
	}
	for c := int32(0); c < 0x3200; c++ {
		put(c)
	}
	for c := int32(0x3200); c <= 0x10FFFF; c += 256 {
		put(c)
		put(c + 1)
		put(c + 255)
		if c < 0x20000 {
			put(c + 0x80)
			put(c + 63)
		}
	}
	for _, c := range []int32{0xFE00, 0xFE0F, 0xFE10, 0xFDFF, 0x1F300, 0x1F5EF, 0x1F5F0, 0x1F2FF, 0x1F400, 0x1F4FF, 0x1F500, 0xD7FF, 0xE000} {
		put(c)
	}
	return out
}

type collector struct {
	b     []byte
	limit int // refuse the byte with this number (0: never)
}

func (c *collector) Follow(b byte) bool {
	c.b = append(c.b, b)
	return c.limit == 0 || len(c.b) < c.limit
}

// realState brings a real encoder to the end of a text.
func realState(w *W, text string, want []byte) *dawg.UtfcState {
	st := dawg.NewUtfcState()
	var f collector
	for _, c := range text {
		if !st.Follow(c, &f) {
			w.Failf("Follow(%U) after %q returned false although no byte was refused", c, text)
		}
	}
	if want != nil && !bytes.Equal(f.b, want) {
		w.Failf("text %q encodes to % x, the scheme defines % x", text, f.b, want)
	}
	return st
}

// C13: decode(encode(h c probe)) for every reachable h and every c.
func checkRoundTripEdges(w *W, n *uNode, cps []int32) {
	st := realState(w, n.text, nil)
	var head collector
	{
		s2 := dawg.NewUtfcState()
		for _, c := range n.text {
			s2.Follow(c, &head)
		}
	}
	tmp := dawg.NewUtfcState()
	var f collector
	var sb []byte
	for _, c := range cps {
		tmp.Copy(st)
		f.b = append(f.b[:0], head.b...)
		tmp.Follow(c, &f)
		_, nx := n.s.step(nil, c)
		pr := uNodes[uIndex[nx]].probe
		for _, p := range pr {
			tmp.Follow(p, &f)
		}
		got := decode(w, f.b)
		sb = utf8.AppendRune(append(sb[:0], n.text...), c)
		if len(got) != len(sb)+len(pr) || got[:len(sb)] != string(sb) || got[len(sb):] != pr {
			w.Failf("text %q, then %U, then %q: encoded to % x, decoded to %q", n.text, c, pr, f.b, got)
		}
	}
	w.Transitions += uint64(len(cps))
}

// decode reports a panic of the decoder as a violation with the input.
func decode(w *W, b []byte) string {
	ok := false
	defer func() {
		if !ok {
			if r := recover(); r != nil {
				if fl, is := r.(*failure); is {
					panic(fl)
				}
				w.Failf("UtfcDecode(% x) panicked: %v", b, r)
			}
		}
	}()
	s := dawg.UtfcDecode(b)
	ok = true
	return s
}

// C14: in every state the code words are nonempty, zero-free and prefix-free.
type prefixSet struct {
	leaf1, in1 [256]bool
	leaf2, in2 []uint64
	leaf3      []uint64
	touched    []int
	long       map[string]bool
}

func newPrefixSet() *prefixSet {
	return &prefixSet{leaf2: make([]uint64, 1024), in2: make([]uint64, 1024), leaf3: make([]uint64, 1<<18)}
}

func (p *prefixSet) reset() {
	p.leaf1, p.in1 = [256]bool{}, [256]bool{}
	for i := range p.leaf2 {
		p.leaf2[i], p.in2[i] = 0, 0
	}
	if len(p.touched) > 1<<16 {
		for i := range p.leaf3 {
			p.leaf3[i] = 0
		}
	} else {
		for _, i := range p.touched {
			p.leaf3[i] = 0
		}
	}
	p.touched = p.touched[:0]
	p.long = nil
}

// add returns false if b is a prefix of an earlier word or has an earlier word as prefix.
func (p *prefixSet) add(b []byte) bool {
	k := int(b[0])
	if p.leaf1[k] {
		return false
	}
	if len(b) == 1 {
		if p.in1[k] {
			return false
		}
		p.leaf1[k] = true
		return true
	}
	p.in1[k] = true
	k = k<<8 | int(b[1])
	if p.leaf2[k>>6]>>(k&63)&1 != 0 {
		return false
	}
	if len(b) == 2 {
		if p.in2[k>>6]>>(k&63)&1 != 0 {
			return false
		}
		p.leaf2[k>>6] |= 1 << (k & 63)
		return true
	}
	p.in2[k>>6] |= 1 << (k & 63)
	k = k<<8 | int(b[2])
	old := p.leaf3[k>>6]
	if old>>(k&63)&1 != 0 {
		return false
	}
	if len(b) > 3 { // longer than the format allows: compare in full
		s := string(b)
		for o := range p.long {
			if strings.HasPrefix(o, s) || strings.HasPrefix(s, o) {
				return false
			}
		}
		if p.long == nil {
			p.long = map[string]bool{}
		}
		p.long[s] = true
		return true
	}
	for o := range p.long {
		if strings.HasPrefix(o, string(b)) {
			return false
		}
	}
	if old == 0 {
		p.touched = append(p.touched, k>>6)
	}
	p.leaf3[k>>6] |= 1 << (k & 63)
	return true
}

var uPrefix *prefixSet

func checkPrefixEdges(w *W, n *uNode, cps []int32) {
	if uPrefix == nil {
		uPrefix = newPrefixSet()
	}
	uPrefix.reset()
	st := realState(w, n.text, nil)
	tmp := dawg.NewUtfcState()
	var f collector
	for _, c := range cps {
		tmp.Copy(st)
		f.b = f.b[:0]
		if !tmp.Follow(c, &f) {
			w.Failf("after %q: Follow(%U) returned false although no byte was refused", n.text, c)
		}
		if len(f.b) == 0 {
			w.Failf("after %q: %U contributes no byte", n.text, c)
		}
		if bytes.IndexByte(f.b, 0) >= 0 {
			w.Failf("after %q: %U is encoded as % x, with a zero byte", n.text, c, f.b)
		}
		if !uPrefix.add(f.b) {
			w.Failf("after %q: the bytes % x of %U equal, extend or are extended by those of another code point", n.text, f.b, c)
		}
	}
	w.Transitions += uint64(len(cps))
}

// C15: bytes are those of the scheme, and the decoder takes them.
func checkFormatEdges(w *W, n *uNode, cps []int32) {
	st := realState(w, n.text, n.bytes)
	tmp := dawg.NewUtfcState()
	var f collector
	var want, whole, sb []byte
	for _, c := range cps {
		tmp.Copy(st)
		f.b = f.b[:0]
		tmp.Follow(c, &f)
		var nx ustate
		want, nx = n.s.step(want[:0], c)
		if !bytes.Equal(f.b, want) {
			w.Failf("after %q: %U is encoded as % x, the scheme defines % x", n.text, c, f.b, want)
		}
		if len(f.b) > 3 {
			w.Failf("after %q: %U costs %d bytes", n.text, c, len(f.b))
		}
		// the following state, by its effect on the probes
		pn := &uNodes[uIndex[nx]]
		f.b = f.b[:0]
		for _, p := range pn.probe {
			tmp.Follow(p, &f)
		}
		if !bytes.Equal(f.b, pn.pb) {
			w.Failf("after %q and %U: %q is encoded as % x, the scheme defines % x", n.text, c, pn.probe, f.b, pn.pb)
		}
		// the decoder accepts the bytes of the scheme
		whole = append(append(append(whole[:0], n.bytes...), want...), pn.pb...)
		sb = append(utf8.AppendRune(append(sb[:0], n.text...), c), pn.probe...)
		if got := decode(w, whole); got != string(sb) {
			w.Failf("% x is the encoding of %q but decodes to %q", whole, sb, got)
		}
	}
	w.Transitions += uint64(len(cps))
}

// hardCps: one or more of every kind of code point.
var hardCps = []int32{0, 'A', 'z', '-', '~', 0x80, 0xC0, 0x100, 0x17F, 0x2FF, 0x300, 0x391, 0x400, 0x410, 0x44F, 0x451, 0x480, 0x500, 0x5D0, 0x600, 0x900, 0x1000, 0x1F80, 0x1FFF,
	0x2000, 0x2013, 0x2100, 0x25FF, 0x2600, 0x2601, 0x2700, 0x3000, 0x3042, 0x3080, 0x30A2, 0x30FF, 0x3100, 0x4E00, 0x7FFF, 0x8000, 0xA5FF, 0xA600, 0xAC00, 0xD7FF, 0xE000,
	0xFE00, 0xFE0F, 0xFFFD, 0x10000, 0x12600, 0x1F300, 0x1F5EF, 0x1F600, 0x2A600, 0x10FFFF}

func cpStrings(cps []int32, n int, i int) string {
	var sb []byte
	for k := 0; k < n; k++ {
		sb = utf8.AppendRune(sb, cps[i%len(cps)])
		i /= len(cps)
	}
	return string(sb)
}

// edgeFamilies: all model states x representative code points, and (thorough: all; quick: a spread of states) x all code points.
func edgeFamilies(tier string, check func(w *W, n *uNode, cps []int32)) []*Family {
	nodes := uExplore()
	reps := uReps("quick")
	var out []*Family
	out = append(out, &Family{Name: "all-states", N: len(nodes), What: fmt.Sprintf("every one of the %d reachable encoder states x %d code points (all kinds, all window and block edges)", len(nodes), len(reps)),
		Run: func(w *W, i int) {
			w.State(fnvInt(fnvInit, uint64(i)))
			check(w, &nodes[i], reps)
		}, Show: func(i int) string { return fmt.Sprintf("after text %q", nodes[i].text) }})
	pick := spread(nodes)
	what := fmt.Sprintf("%d states (every kind of window and auxiliary alphabet) x all 1112064 code points", len(pick))
	if tier == "thorough" {
		pick = nil
		for i := range nodes {
			pick = append(pick, i)
		}
		what = fmt.Sprintf("all %d states x all 1112064 code points", len(pick))
	}
	var all []int32
	out = append(out, &Family{Name: "all-code-points", N: len(pick), Heavy: true, What: what,
		Run: func(w *W, i int) {
			if all == nil {
				all = uReps("thorough")
			}
			check(w, &nodes[pick[i]], all)
		}, Show: func(i int) string { return fmt.Sprintf("after text %q", nodes[pick[i]].text) }})
	return out
}

// spread selects states that cover every window and every auxiliary alphabet, in both modes.
func spread(nodes []uNode) []int {
	type feat struct {
		k int
		v int32
	}
	seen := map[feat]bool{}
	var out []int
	kind := func(x int32) int32 {
		switch {
		case x == 0:
			return 0
		case x < 0x2600 && x&0x7f == 0:
			return 1
		case x < 0x2600:
			return 2
		case x < 0x3200:
			return 3
		default:
			return 4
		}
	}
	for i := range nodes {
		s := nodes[i].s
		wd := int32(0)
		if s.wide {
			wd = 1
		}
		fs := []feat{{0, kind(s.win)*100 + kind(s.aux)*10 + wd}}
		if i < 3 {
			fs = append(fs, feat{1, int32(i)})
		}
		add := false
		for _, f := range fs {
			if !seen[f] {
				seen[f] = true
				add = true
			}
		}
		if add {
			out = append(out, i)
		}
	}
	return out
}

func stringFamilies(tier string, check func(w *W, s string)) []*Family {
	var out []*Family
	fam := func(name, what string, n int, gen func(i int) string) {
		out = append(out, &Family{Name: name, N: n, What: what,
			Run: func(w *W, i int) {
				s := gen(i)
				w.State(fnv(fnvInit, s))
				w.Transitions++
				check(w, s)
			}, Show: func(i int) string { return fmt.Sprintf("%q", gen(i)) }})
	}
	nh := len(hardCps)
	fam("strings-2", fmt.Sprintf("every string of 2 over %d code points of all kinds", nh), nh*nh, func(i int) string { return cpStrings(hardCps, 2, i) })
	fam("strings-3", fmt.Sprintf("every string of 3 over %d code points of all kinds", nh), nh*nh*nh, func(i int) string { return cpStrings(hardCps, 3, i) })
	d4 := []int32{0, 'a', '~', 0x80, 0x3b1, 0x430, 0x480, 0x2000, 0x2600, 0x2601, 0x3000, 0x3042, 0x4e00, 0xa600, 0xfe00, 0x1f300, 0x1f600, 0x10ffff}
	fam("strings-4", fmt.Sprintf("every string of 4 over %d code points", len(d4)), pow(len(d4), 4), func(i int) string { return cpStrings(d4, 4, i) })
	if tier == "thorough" {
		fam("strings-5", fmt.Sprintf("every string of 5 over %d code points", len(d4)), pow(len(d4), 5), func(i int) string { return cpStrings(d4, 5, i) })
	}
	all := uReps("thorough")
	fam("single", "every single code point", len(all), func(i int) string { return string(rune(all[i])) })
	pats := []string{"a", "я", "aя", "☀", "☁☀", "あ", "ア漢", "😀", "\x00", "Ā", "aé漢あ😀", "\u3000", "\U00012600"}
	max := 700
	if tier == "thorough" {
		max = 3000
	}
	fam("long", fmt.Sprintf("%d patterns repeated to every length 0..%d code points", len(pats), max), len(pats)*(max+1), func(i int) string {
		p := []rune(pats[i%len(pats)])
		n := i / len(pats)
		r := make([]rune, n)
		for k := range r {
			r[k] = p[k%len(p)]
		}
		return string(r)
	})
	// longer texts, and texts that visit every window and block in turn
	var tour []rune
	for _, c := range uReps("quick") {
		tour = append(tour, rune(c))
	}
	pats = append(pats, string(tour), "")
	for i := len(tour) - 1; i >= 0; i -= 3 {
		pats[len(pats)-1] += string(tour[i])
	}
	lens := []int{1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16385, 32769, 65535, 65536, 65537}
	fam("very-long", fmt.Sprintf("%d patterns (two of them visiting every window and block edge) repeated to %d lengths up to 65537 code points", len(pats), len(lens)), len(pats)*len(lens), func(i int) string {
		p := []rune(pats[i%len(pats)])
		r := make([]rune, lens[i/len(pats)])
		for k := range r {
			r[k] = p[k%len(p)]
		}
		return string(r)
	})
	return out
}

func init() {
	alpha := "the reachable states of the scheme are enumerated on the reference model, whose every edge is compared with the real encoder (C15) and decoder; implementations carrying more state than the scheme are covered on the enumerated texts only"
	stateIs := "state: one reachable encoder state (window, auxiliary alphabet, mode) or one text; transition: one (state, code point) edge executed on the real encoder and/or decoder; trace: one state with all its code points, or one text"
	register(&Check{Prop: "C13", StateIs: stateIs, Assumptions: []string{alpha},
		Families: func(tier string) []*Family {
			return append(stringFamilies(tier, func(w *W, s string) {
				enc := dawg.UtfcEncode(s)
				if got := decode(w, enc); got != s {
					w.Failf("text %q: encoded to % x, decoded to %q", s, enc, got)
				}
			}), edgeFamilies(tier, checkRoundTripEdges)...)
		}})
	register(&Check{Prop: "C14", StateIs: stateIs, Assumptions: []string{alpha},
		Families: func(tier string) []*Family {
			return append(append(stringFamilies(tier, func(w *W, s string) {
				enc := dawg.UtfcEncode(s)
				if bytes.IndexByte(enc, 0) >= 0 {
					w.Failf("text %q is encoded as % x, with a zero byte", s, enc)
				}
				if n := utf8.RuneCountInString(s); len(enc) < n {
					w.Failf("text %q of %d code points is encoded in %d bytes", s, n, len(enc))
				}
				// every text prefix is a byte prefix; an alteration of the last code point is not
				if s == "" {
					return
				}
				_, size := utf8.DecodeLastRuneInString(s)
				head := s[:len(s)-size]
				enc = append([]byte{}, enc...)
				he := append([]byte{}, dawg.UtfcEncode(head)...)
				if !bytes.HasPrefix(enc, he) || len(enc) == len(he) {
					w.Failf("%q is a prefix of %q, but % x is not a proper prefix of % x", head, s, he, enc)
				}
			}), edgeFamilies(tier, checkPrefixEdges)...), utfcDictFamilies(tier)...)
		}})
	register(&Check{Prop: "C15", StateIs: stateIs, Assumptions: []string{"the scheme is fixed by the reference model (windows, auxiliary alphabets, extra ranges, zero markers) as found in the pinned source"},
		Families: func(tier string) []*Family {
			fs := append(stringFamilies(tier, func(w *W, s string) {
				want := uEncode(s)
				if got := dawg.UtfcEncode(s); !bytes.Equal(got, want) {
					w.Failf("text %q: encoded to % x, the scheme defines % x", s, got, want)
				}
				if got := decode(w, want); got != s {
					w.Failf("% x is the encoding of %q but decodes to %q", want, s, got)
				}
			}), edgeFamilies(tier, checkFormatEdges)...)
			// compactness promises, stated without the model
			ascii := make([]int32, 127)
			for i := range ascii {
				ascii[i] = int32(i + 1)
			}
			fs = append(fs, &Family{Name: "ascii-identity", N: pow(127, 3), What: "every ASCII text of 3 NUL-free characters encodes to itself",
				Run: func(w *W, i int) {
					s := cpStrings(ascii, 3, i)
					if got := dawg.UtfcEncode(s); string(got) != s {
						w.Failf("ASCII text %q is encoded as % x", s, got)
					}
					w.Transitions++
				}})
			var ru []int32
			for c := int32(0x410); c <= 0x44F; c++ {
				ru = append(ru, c)
			}
			ru = append(ru, ' ', 'a', 'Z', '0', '-')
			fs = append(fs, &Family{Name: "russian-one-byte", N: pow(len(ru), 3), What: "every text of 3 basic Russian letters or ASCII characters takes 3 bytes",
				Run: func(w *W, i int) {
					s := cpStrings(ru, 3, i)
					if got := dawg.UtfcEncode(s); len(got) != 3 {
						w.Failf("text %q is encoded in %d bytes: % x", s, len(got), got)
					}
					w.Transitions++
				}})
			return fs
		}})
	register(&Check{Prop: "C16", StateIs: "state: (call sequence position, encoder state contents) of the session model; transition: one encoder call compared with the one-shot encoding; trace: one text with an abort point, or one call sequence",
		Assumptions: []string{"calls are sequential (UtfcEncode and UtfcFollow are documented as not safe for concurrent use); the state of an encoder whose own Follow was refused is not constrained"},
		Families:    c16Families})
}

// ---- C14: dictionaries over UTF-C keys ----

func utfcDictFamilies(tier string) []*Family {
	texts := []string{"a", "ab", "aя", "я", "яa", "яяя", "☀", "☁☀", "あ", "あア", "漢", "漢字", "😀", "é", "éa", "Ā"}
	n := len(texts)
	max := 11
	if tier == "thorough" {
		max = n
	}
	return []*Family{{Name: "utfc-dictionaries", N: 1 << max, What: fmt.Sprintf("every subset of %d texts of mixed scripts stored as UTF-C keys: lookups of all texts and prefix searches from all prefixes", max),
		Run: func(w *W, i int) {
			type kv struct{ text, key string }
			var kvs []kv
			for k := 0; k < max; k++ {
				if i>>k&1 != 0 {
					kvs = append(kvs, kv{texts[k], string(dawg.UtfcEncode(texts[k]))})
				}
			}
			sort.Slice(kvs, func(a, b int) bool { return kvs[a].key < kvs[b].key })
			l := &Lex{}
			for k := range kvs {
				l.add(kvs[k].key, int32(k))
			}
			w.State(l.hash())
			d, dict := buildDict(w, l)
			g := dawg.BuildGuide(d, dict)
			c := dawg.NewCompleter(dict, g)
			for _, q := range texts {
				r := []rune(q)
				for cut := 0; cut <= len(r); cut++ {
					p := string(r[:cut])
					want := map[string]bool{}
					for k := range kvs {
						if strings.HasPrefix(kvs[k].text, p) {
							want[kvs[k].text] = true
						}
					}
					pe := string(dawg.UtfcEncode(p))
					idx := dict.Root()
					got := 0
					if dict.FollowString(pe, &idx) {
						c.StartString(idx, pe)
						for c.Next() {
							t := decode(w, []byte(c.Key()))
							if !want[t] {
								w.Failf("prefix search for %q in UTF-C keys finds %q", p, t)
							}
							got++
							if got > 100 {
								break
							}
						}
					}
					if got != len(want) {
						w.Failf("prefix search for %q in UTF-C keys finds %d texts, want %d", p, got, len(want))
					}
					w.Transitions++
				}
			}
		}, Show: func(i int) string { return fmt.Sprintf("subset mask %b of %q", i, texts) }}}
}

// ---- C16 ----

var c16Cps = []int32{0, 'a', 'Z', 0x430, 0x451, 0xE9, 0x2014, 0x2600, 0x3042, 0x4E00, 0x1F600}

func followText(w *W, what, s string, limit int, run func(f dawg.UtfcFollower) bool) {
	want := uEncodeReal(s)
	f := &collector{limit: limit}
	ok := run(f)
	if limit > 0 && limit <= len(want) {
		if ok || !bytes.Equal(f.b, want[:limit]) {
			w.Failf("%s of %q with byte %d refused: returned %v after % x, want false after % x", what, s, limit, ok, f.b, want[:limit])
		}
	} else if !ok || !bytes.Equal(f.b, want) {
		w.Failf("%s of %q: returned %v with % x, want true with % x", what, s, ok, f.b, want)
	}
	w.Transitions++
}

var uRealMemo = map[string][]byte{}

// uEncodeReal is the one-shot encoding as first returned by the real code (compared with itself ever after).
func uEncodeReal(s string) []byte {
	if b, ok := uRealMemo[s]; ok {
		return b
	}
	b := append([]byte{}, dawg.UtfcEncode(s)...)
	if len(uRealMemo) > 200000 {
		uRealMemo = map[string][]byte{}
	}
	uRealMemo[s] = b
	return b
}

func stateFollow(s string) func(f dawg.UtfcFollower) bool {
	return func(f dawg.UtfcFollower) bool {
		st := dawg.NewUtfcState()
		for _, c := range s {
			if !st.Follow(c, f) {
				return false
			}
		}
		return true
	}
}

// checkRefusalEdges: in every state, every code point is delivered as in the one-shot encoding and stops at a refused byte;
// copies leave the original alone and go on like it; a cleared copy is like new.
func checkRefusalEdges(w *W, n *uNode, cps []int32) {
	st := realState(w, n.text, nil)
	head := uEncodeReal(n.text)
	tmp, fresh := dawg.NewUtfcState(), dawg.NewUtfcState()
	var f, g collector
	sb := []byte(n.text)
	hard := map[int32]bool{}
	for _, c := range hardCps {
		hard[c] = true
	}
	for _, c := range cps {
		tmp.Copy(st)
		f.b, f.limit = f.b[:0], 0
		if !tmp.Follow(c, &f) {
			w.Failf("after %q: Follow(%U) returned false although no byte was refused", n.text, c)
		}
		m := len(f.b)
		for lim := 1; lim <= m; lim++ {
			tmp.Copy(st)
			g.b, g.limit = g.b[:0], lim
			if tmp.Follow(c, &g) || !bytes.Equal(g.b, f.b[:lim]) {
				w.Failf("after %q: Follow(%U) with byte %d of % x refused delivered % x, or reported success", n.text, c, lim, f.b, g.b)
			}
			w.Transitions++
		}
		if hard[c] {
			sb = utf8.AppendRune(sb[:len(n.text)], c)
			s := string(sb)
			one := dawg.UtfcEncode(s)
			if len(one) != len(head)+m || !bytes.Equal(one[:len(head)], head) || !bytes.Equal(one[len(head):], f.b) {
				w.Failf("%q is encoded as % x, code point by code point as % x % x", s, one, head, f.b)
			}
			for lim := len(head) + 1; lim <= len(one); lim++ {
				g.b, g.limit = g.b[:0], lim
				if dawg.UtfcFollow(s+"x", &g) || !bytes.Equal(g.b, one[:lim]) {
					w.Failf("UtfcFollow(%q) with byte %d refused delivered % x, or reported success", s+"x", lim, g.b)
				}
			}
			// the copy left in the middle of its code point, or cleared, is no concern of the original
			tmp.Clear()
			g.b, g.limit = g.b[:0], 0
			tmp.Follow(c, &g)
			fresh = dawg.NewUtfcState()
			k := len(g.b)
			fresh.Follow(c, &g)
			if !bytes.Equal(g.b[:k], g.b[k:]) {
				w.Failf("a state cleared after %q encodes %U as % x, a new one as % x", n.text, c, g.b[:k], g.b[k:])
			}
		}
	}
	// the original is where it was
	tmp.Copy(st)
	f.b, g.b, g.limit = f.b[:0], g.b[:0], 0
	for _, c := range "яa漢é" {
		tmp.Follow(c, &f)
		st.Follow(c, &g)
	}
	if one := uEncodeReal(n.text + "яa漢é"); !bytes.Equal(f.b, g.b) || !bytes.Equal(one[len(head):], g.b) {
		w.Failf("after %q and work on copies: %q is encoded as % x (copy % x)", n.text, "яa漢é", g.b, f.b)
	}
}

func c16Families(tier string) []*Family {
	var out []*Family
	cps := c16Cps
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	for d := 0; d <= depth; d++ {
		d := d
		out = append(out, &Family{Name: fmt.Sprintf("abort-length%d", d), N: pow(len(cps), d), What: fmt.Sprintf("every text of %d over 11 code points of all kinds: both follower forms refused at every byte and never", d),
			Run: func(w *W, i int) {
				s := cpStrings(cps, d, i)
				w.State(fnv(fnvInit, s))
				n := len(uEncodeReal(s))
				for limit := 0; limit <= n+1; limit++ {
					followText(w, "UtfcFollow", s, limit, func(f dawg.UtfcFollower) bool { return dawg.UtfcFollow(s, f) })
					followText(w, "UtfcState.Follow", s, limit, stateFollow(s))
					if got := dawg.UtfcEncode(s); !bytes.Equal(got, uEncodeReal(s)) {
						w.Failf("UtfcEncode(%q)=% x after an aborted run, % x before", s, got, uEncodeReal(s))
					}
				}
			}, Show: func(i int) string { return fmt.Sprintf("%q", cpStrings(cps, d, i)) }})
	}
	for _, f := range edgeFamilies("quick", checkRefusalEdges) {
		f.Name = "refusal-" + f.Name
		out = append(out, f)
	}
	// long texts, aborted at every byte
	out = append(out, &Family{Name: "abort-long", N: 5 * 420, What: "5 long texts (over 1024 bytes encoded) refused at each of the first 2000 bytes in steps of 5 and around 1024",
		Run: func(w *W, i int) {
			s := strings.Repeat([]string{"ab", "яa", "☀a漢", "あア", "😀é"}[i%5], 700)
			limit := i / 5 * 5
			if i/5 >= 400 {
				limit = 1014 + i/5 - 400
			}
			if n := len(uEncodeReal(s)); limit > n+1 {
				limit = n + 1
			}
			followText(w, "UtfcFollow", s, limit, func(f dawg.UtfcFollower) bool { return dawg.UtfcFollow(s, f) })
			followText(w, "UtfcState.Follow", s, limit, stateFollow(s))
			w.State(fnvInt(fnvInit, uint64(i)))
		}})
	// call sequences over two encoder states, one-shot calls, aborted calls, copies and clears
	texts := []string{"aя", "☀漢", "あ", "😀\x00"}
	type op struct {
		name string
		run  func(w *W, e *encSession)
	}
	var ops []op
	for i, t := range texts {
		t := t
		if i < 3 {
			ops = append(ops, op{fmt.Sprintf("UtfcEncode(%q)", t), func(w *W, e *encSession) { e.encode(w, t) }})
		}
		if i != 2 {
			ops = append(ops, op{fmt.Sprintf("s0.Follow(%q)", t), func(w *W, e *encSession) { e.feed(w, 0, t) }})
		}
		if i != 1 {
			ops = append(ops, op{fmt.Sprintf("s1.Follow(%q)", t), func(w *W, e *encSession) { e.feed(w, 1, t) }})
		}
	}
	ops = append(ops,
		op{"UtfcFollow(☀a漢 refused at 2)", func(w *W, e *encSession) {
			followText(w, "UtfcFollow", "☀a漢", 2, func(f dawg.UtfcFollower) bool { return dawg.UtfcFollow("☀a漢", f) })
		}},
		op{"UtfcFollow(あя)", func(w *W, e *encSession) {
			followText(w, "UtfcFollow", "あя", 0, func(f dawg.UtfcFollower) bool { return dawg.UtfcFollow("あя", f) })
		}},
		op{"s1.Copy(s0)", func(w *W, e *encSession) { e.st[1].Copy(e.st[0]); e.text[1] = e.text[0] }},
		op{"s0.Copy(s1)", func(w *W, e *encSession) { e.st[0].Copy(e.st[1]); e.text[0] = e.text[1] }},
		op{"s0.Clear()", func(w *W, e *encSession) { e.st[0].Clear(); e.text[0] = "" }},
		op{"s1 = NewUtfcState()", func(w *W, e *encSession) { e.st[1] = dawg.NewUtfcState(); e.text[1] = "" }},
		op{"scribble over returned slices", func(w *W, e *encSession) {
			for k := range e.kept {
				for j := range e.kept[k] {
					e.kept[k][j] ^= 0xff
					e.copy[k][j] ^= 0xff
				}
			}
		}},
		op{"UtfcDecode", func(w *W, e *encSession) {
			for k := range texts {
				decode(w, uEncodeReal(texts[k]))
			}
		}})
	// long texts: what was returned stays, whatever is encoded next
	llens := []int{0, 1, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 2048, 2049, 4096, 4097, 10000, 32768, 32769, 65536, 65537, 100000}
	lpats := []string{"a", "я漢", "😀\x00é"}
	ltext := func(p, n int) string {
		r := []rune(lpats[p])
		t := make([]rune, n)
		for k := range t {
			t[k] = r[k%len(r)]
		}
		return string(t)
	}
	nl, np := len(llens), len(lpats)
	out = append(out, &Family{Name: "long-pairs", N: nl * nl * np, What: fmt.Sprintf("every ordered pair of %d text lengths up to 100000 code points x %d patterns: encoded one after the other, incrementally, aborted and overwritten by the caller, with the slices kept", nl, np),
		Run: func(w *W, i int) {
			p := i % np
			i /= np
			t, u := ltext(p, llens[i%nl]), ltext((p+1)%np, llens[i/nl])
			w.State(fnvInt(fnvInt(fnvInit+9, uint64(p)), uint64(i)))
			keep := func(s string) ([]byte, []byte) {
				b := dawg.UtfcEncode(s)
				return b, append([]byte{}, b...)
			}
			same := func(what string, b, c []byte) {
				if !bytes.Equal(b, c) {
					w.Failf("%s: %d code points encoded to %d bytes, or to other bytes, than the %d before", what, utf8.RuneCountInString(t), len(b), len(c))
				}
				w.Transitions++
			}
			b1, c1 := keep(t)
			b2, c2 := keep(u)
			same("slice kept over another encoding", b1, c1)
			f := &collector{}
			if !dawg.UtfcFollow(t, f) {
				w.Failf("UtfcFollow returned false although no byte was refused")
			}
			same("follower form", f.b, c1)
			if len(c2) > 0 {
				for _, lim := range []int{len(c2), (len(c2) + 1) / 2} {
					r := &collector{limit: lim}
					if dawg.UtfcFollow(u, r) || len(r.b) != lim {
						w.Failf("refusing byte %d of %d: %d delivered", lim, len(c2), len(r.b))
					}
				}
			}
			for k := range b2 { // the caller owns what it got
				b2[k] ^= 0xff
			}
			same("slice kept over writes to another one", b1, c1)
			b3, c3 := keep(t)
			same("encoded again", c3, c1)
			b4, c4 := keep(u)
			same("encoded again", c4, c2)
			same("slice kept", b3, c3)
			for k := range b1 {
				b1[k] = 0
			}
			same("slice kept over writes to another one", b3, c3)
			same("slice kept over writes to another one", b4, c4)
			st := dawg.NewUtfcState()
			f = &collector{}
			for _, c := range u {
				if !st.Follow(c, f) {
					w.Failf("Follow returned false although no byte was refused")
				}
			}
			same("incrementally", f.b, c2)
		}})
	no := len(ops)
	depth2 := 5
	if tier == "thorough" {
		depth2 = 6
	}
	for d := 1; d <= depth2; d++ {
		d := d
		show := func(i int) string {
			var names []string
			for k := 0; k < d; k++ {
				names = append(names, ops[i%no].name)
				i /= no
			}
			return strings.Join(names, "; ")
		}
		out = append(out, &Family{Name: fmt.Sprintf("sequences-depth%d", d), N: pow(no, d), What: fmt.Sprintf("every sequence of %d of %d calls (one-shot, incremental on two states, aborted, copy, clear, writes to returned slices)", d, no),
			Run: func(w *W, i int) {
				e := &encSession{st: [2]*dawg.UtfcState{dawg.NewUtfcState(), dawg.NewUtfcState()}}
				for k := 0; k < d; k++ {
					w.Tracef("%s", ops[i%no].name)
					ops[i%no].run(w, e)
					i /= no
					for j := range e.kept {
						if !bytes.Equal(e.kept[j], e.copy[j]) {
							w.Failf("a slice returned by UtfcEncode changed from % x to % x", e.copy[j], e.kept[j])
						}
					}
					w.Transitions++
				}
				w.State(fnv(fnv(fnvInit, e.text[0])+1, e.text[1]))
				// both states still continue like the texts they stand for
				for k := 0; k < 2; k++ {
					e.feed(w, k, "яaé☁あ")
				}
			}, Show: show})
	}
	return out
}

type encSession struct {
	st   [2]*dawg.UtfcState
	text [2]string
	kept [][]byte
	copy [][]byte
}

func (e *encSession) encode(w *W, t string) {
	b := dawg.UtfcEncode(t)
	if !bytes.Equal(b, uEncodeReal(t)) {
		w.Failf("UtfcEncode(%q)=% x, earlier % x", t, b, uEncodeReal(t))
	}
	e.kept = append(e.kept, b)
	e.copy = append(e.copy, append([]byte{}, b...))
}

func (e *encSession) feed(w *W, k int, t string) {
	f := &collector{}
	for _, c := range t {
		if !e.st[k].Follow(c, f) {
			w.Failf("Follow(%U) returned false although no byte was refused", c)
		}
	}
	all := uEncodeReal(e.text[k] + t)
	head := uEncodeReal(e.text[k])
	if len(all) < len(head) || !bytes.Equal(f.b, all[len(head):]) {
		w.Failf("encoder state %d after %q: %q is encoded as % x, in one shot the text continues with % x", k, e.text[k], t, f.b, all[len(head):])
	}
	e.text[k] += t
}
