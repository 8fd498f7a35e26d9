package main

// C18: the dawgtool binary, built from /repo, run on enumerated lexicons, options and queries.

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/deNULL/dawg"
)

func buildTool(scratch string) error {
	cmd := exec.Command("go", "build", "-buildvcs=false", "-o", filepath.Join(scratch, "dawgtool"), "./cmd/dawgtool")
	cmd.Dir = "/repo"
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building dawgtool: %v\n%s", err, out)
	}
	return nil
}

// topts: the options of one run.
type topts struct {
	tab, sort, utfc, index bool
	guide                  int // 0 none, 1 -g, 2 -r, 3 both (ranked wins)
	form                   int // how the files are named
}

func (o topts) args(build bool, lexicon, dict string) []string {
	var a []string
	if build {
		a = append(a, "-b")
		if o.tab {
			a = append(a, "-t")
		}
		if o.sort {
			a = append(a, "-s")
		}
	}
	if o.guide&1 != 0 {
		a = append(a, "-g")
	}
	if o.guide&2 != 0 {
		a = append(a, "-r")
	}
	if o.index {
		a = append(a, "-i")
	}
	if o.utfc {
		a = append(a, "-u")
	}
	switch o.form {
	case 1:
		return append(a, "-l", lexicon, "-d", dict)
	case 2:
		return append(a, "-d", dict, lexicon)
	}
	return append(a, lexicon, dict)
}

func (o topts) String() string { return strings.Join(o.args(true, "", ""), " ") }

func optsAt(i int) topts {
	return topts{tab: i&1 != 0, sort: i&2 != 0, utfc: i&4 != 0, index: i&8 != 0, guide: i >> 4 & 3}
}

const nOpts = 64

type toolRun struct {
	code int
	out  string
	err  string
}

func tool(w *W, args ...string) toolRun {
	cmd := exec.Command(filepath.Join(w.scratch, "dawgtool"), args...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	hung := false
	t := time.AfterFunc(60*time.Second, func() { hung = true; cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
	w.Tracef("dawgtool %s: exit %d", strings.Join(args, " "), cmd.ProcessState.ExitCode())
	w.Transitions++
	if hung {
		w.Failf("dawgtool %s does not end", strings.Join(args, " "))
	}
	e := errb.String()
	if len(e) > 800 {
		e = e[:800]
	}
	if strings.Contains(e, "panic:") || strings.Contains(e, "fatal error:") {
		w.Failf("dawgtool %s crashed:\n%s", strings.Join(args, " "), e)
	}
	return toolRun{cmd.ProcessState.ExitCode(), out.String(), e}
}

// inOrder: lines in the order of the stored keys, or under -s in some other order.
func inOrder(o topts, ls []tline) []tline {
	seen := map[string]bool{}
	var out []tline
	for _, l := range ls {
		if !seen[l.key] {
			seen[l.key] = true
			out = append(out, l)
		}
	}
	enc := func(k string) string {
		if o.utfc {
			return string(uEncode(k))
		}
		return k
	}
	sort.SliceStable(out, func(a, b int) bool { return enc(out[a].key) < enc(out[b].key) })
	if o.sort {
		n := len(out)
		mixed := make([]tline, n)
		for i := range mixed {
			mixed[i] = out[(i*7+n/2)%n]
			if n%7 == 0 {
				mixed[i] = out[n-1-i]
			}
		}
		return mixed
	}
	return out
}

type toolDir struct{ dir, lex, dict, query string }

func newToolDir(w *W) *toolDir {
	d, err := os.MkdirTemp(w.scratch, "tool")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return &toolDir{d, d + "/lexicon", d + "/dict", d + "/query"}
}

func put(path, s string) {
	if err := os.WriteFile(path, []byte(s), 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// A line of a lexicon: its text, and the key and value it stands for.
type tline struct {
	text, key string
	val       int32
}

func line(o topts, key string, val int64) tline {
	t := tline{text: key, key: key}
	if o.tab {
		t.text = key + "\t" + strconv.FormatInt(val, 10)
		switch {
		case val < 0:
			t.val = 0
		case val > MaxInt32:
			t.val = MaxInt32
		default:
			t.val = int32(val)
		}
	}
	return t
}

// lineText is line for a value written in any way.
func lineText(o topts, key, val string) tline {
	n, ok := new(big.Int).SetString(val, 10)
	if !ok {
		panic("bad value text " + val)
	}
	t := line(o, key, 0)
	switch {
	case n.Sign() < 0:
	case n.Cmp(big.NewInt(MaxInt32)) > 0:
		t.val = MaxInt32
	default:
		t.val = int32(n.Int64())
	}
	t.text = key + "\t" + val
	return t
}

func stored(o topts, key string) string {
	if o.utfc {
		return string(dawg.UtfcEncode(key))
	}
	return key
}

// toolCase: build a dictionary from lines, then ask queries with each of the query options.
func toolCase(w *W, o topts, lines []tline, queries []string, end string) {
	td := newToolDir(w)
	defer os.RemoveAll(td.dir)
	var sb strings.Builder
	for i, l := range lines {
		if i > 0 {
			sb.WriteByte('\n')
		}
		sb.WriteString(l.text)
	}
	sb.WriteString(end)
	put(td.lex, sb.String())
	w.Tracef("lexicon %q", clip(sb.String()))
	r := tool(w, o.args(true, td.lex, td.dict)...)

	// the reference: which lines are accepted
	type kv struct {
		st  string
		key string
		val int32
	}
	var all []kv
	for _, l := range lines {
		if l.text == "" { // empty lines are skipped
			continue
		}
		all = append(all, kv{stored(o, l.key), l.key, l.val})
	}
	if o.sort {
		sort.SliceStable(all, func(i, j int) bool { return all[i].st < all[j].st })
	}
	for _, x := range all {
		if strings.IndexByte(x.st, 0) >= 0 {
			if r.code == 0 {
				w.Failf("dawgtool %s: lexicon %q has a key with a NUL byte, which cannot be stored, but the exit status is 0", o, clip(sb.String()))
			}
			return
		}
	}
	for i := 1; i < len(all); i++ {
		if all[i].st < all[i-1].st {
			if r.code == 0 {
				w.Failf("dawgtool %s: lexicon %q is out of order (%q after %q) but the exit status is 0", o, clip(sb.String()), all[i].key, all[i-1].key)
			}
			return
		}
	}
	if r.code != 0 {
		w.Failf("dawgtool %s: lexicon %q refused: exit %d %s", o, clip(sb.String()), r.code, r.err)
	}
	var keys []kv
	for i, x := range all {
		if i == 0 || x.st != all[i-1].st {
			keys = append(keys, x)
		}
	}
	qend := end
	if len(qend) != 1 {
		qend = "" // the last query may lack a line end, unless it is empty
		if len(queries) > 0 && queries[len(queries)-1] == "" {
			qend = "\n"
		}
	}
	put(td.query, strings.Join(queries, "\n")+qend)
	image, err := os.ReadFile(td.dict)
	if err != nil {
		w.Failf("dawgtool %s reported success but there is no dictionary file: %v", o, err)
	}

	// query with the same options and with every smaller set of parts
	ask := func(q topts) {
		r := tool(w, q.args(false, td.query, td.dict)...)
		if r.code != 0 {
			w.Failf("dawgtool query with %s: exit %d %s", q, r.code, r.err)
		}
		bad := func(format string, args ...interface{}) {
			w.Failf("built with %s from %q, queried with %s: %s", o, clip(sb.String()), q, fmt.Sprintf(format, args...))
		}
		rest := r.out
		next := func() string {
			i := strings.IndexByte(rest, '\n')
			if i < 0 {
				bad("output ends early: %q", clip(r.out))
			}
			l := rest[:i]
			rest = rest[i+1:]
			return l
		}
		number := map[string]string{}
		for _, qs := range queries {
			got := next()
			if !strings.HasPrefix(got, qs+":") {
				bad("query %q answered by line %q", clip(qs), clip(got))
			}
			body := got[len(qs)+1:]
			st := stored(q, qs)
			want := ""
			if q.guide == 0 {
				for _, x := range keys {
					if x.st != "" && strings.HasPrefix(st, x.st) {
						want += fmt.Sprintf(" %s = %d;", x.key, x.val)
					}
				}
				if body != want {
					bad("query %q: got %q, want %q", clip(qs), clip(body), clip(want))
				}
				continue
			}
			at := -1
			var match []kv
			for i, x := range keys {
				if x.st == st {
					at = i
				}
				if strings.HasPrefix(x.st, st) {
					match = append(match, x)
				}
			}
			if q.index {
				if at < 0 {
					if !strings.HasPrefix(body, " (not found)") {
						bad("query %q is not a key: got %q", clip(qs), clip(body))
					}
					body = body[len(" (not found)"):]
				} else {
					j := strings.IndexByte(body, ')')
					if !strings.HasPrefix(body, " (#") || j < 0 {
						bad("query %q is key no. %d: got %q", clip(qs), at, clip(body))
					}
					n := body[3:j]
					if q.guide == 1 && n != strconv.Itoa(at) {
						bad("query %q is key no. %d: got %q", clip(qs), at, clip(body))
					}
					number[n] = qs
					body = body[j+1:]
				}
			}
			if q.guide == 1 {
				for _, x := range match {
					want += fmt.Sprintf(" %s = %d;", x.key, x.val)
				}
				if body != want {
					bad("query %q: got %q, want %q", clip(qs), clip(body), clip(want))
				}
				continue
			}
			// ranked: best first, equal values in any order
			left := map[string]int{}
			for _, x := range match {
				left[fmt.Sprintf(" %s = %d;", x.key, x.val)]++
			}
			vals := []int{}
			for _, x := range match {
				vals = append(vals, int(x.val))
			}
			sort.Sort(sort.Reverse(sort.IntSlice(vals)))
			for k := 0; body != ""; k++ {
				// the shortest beginning that is an item (a key may contain the separator)
				e, item := 0, ""
				for e < len(body) && left[item] == 0 {
					j := strings.IndexByte(body[e:], ';')
					if j < 0 {
						break
					}
					e += j + 1
					item = body[:e]
				}
				if left[item] == 0 || k >= len(vals) {
					bad("query %q: unexpected %q", clip(qs), clip(body))
				}
				left[item]--
				body = body[e:]
				if !strings.HasSuffix(item, fmt.Sprintf(" = %d;", vals[k])) {
					bad("query %q: completion %d is %q, want one with value %d", clip(qs), k, clip(item), vals[k])
				}
				vals[k] = -vals[k] - 1 // consumed
			}
			for _, v := range vals {
				if v >= 0 {
					bad("query %q: completions missing", clip(qs))
				}
			}
		}
		if q.index && q.guide != 0 {
			if got, want := next(), fmt.Sprintf("Total words: %d", len(keys)); got != want {
				bad("%q, want %q", got, want)
			}
			seen := map[string]bool{}
			for i := range keys {
				got := next()
				p := strconv.Itoa(i) + ": "
				if !strings.HasPrefix(got, p) {
					bad("listing line %d: %q", i, clip(got))
				}
				k := got[len(p):]
				if q.guide == 1 && k != keys[i].key {
					bad("listing line %d: %q, want %q", i, clip(got), clip(keys[i].key))
				}
				if asked, ok := number[strconv.Itoa(i)]; ok && asked != k {
					bad("number %d was given to %q but is listed as %q", i, asked, k)
				}
				seen[k] = true
			}
			for _, x := range keys {
				if !seen[x.key] {
					bad("key %q is not listed", clip(x.key))
				}
			}
		}
		if rest != "" {
			bad("extra output %q", clip(rest))
		}
	}
	ask(o)
	if o.index && o.guide != 0 {
		q := o
		q.index = false
		ask(q)
	}
	if o.guide != 0 {
		q := o
		q.guide, q.index = 0, false
		ask(q)
	}
	if after, err := os.ReadFile(td.dict); err != nil || !bytes.Equal(after, image) {
		w.Failf("dawgtool %s: queries changed the dictionary file", o)
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for k := 0; k <= len(p); k++ {
			q := append(append(append([]int{}, p[:k]...), n-1), p[k:]...)
			out = append(out, q)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		for k := range out[i] {
			if out[i][k] != out[j][k] {
				return out[i][k] < out[j][k]
			}
		}
		return false
	})
	return out
}

func c18Families(tier string) []*Family {
	thorough := tier == "thorough"
	var out []*Family
	uni := universe("ab", 2)[1:]
	qs := append(universe("ab", 3), "c", "abab", "ac", "A", "")
	nv := 2
	out = append(out, &Family{Name: "subsets", N: nv * nOpts << 6, What: "every subset of the 6 non-empty strings of length <=2 over 2 letters x 64 option combinations x 2 value schemes (lines in reverse order under -s); 20 queries each, with the same options and with fewer parts",
		Run: func(w *W, i int) {
			o := optsAt(i % nOpts)
			i /= nOpts
			mask := i % 64
			vs := i / 64
			if vs > 0 && !o.tab {
				o.form = 1
			}
			w.State(fnvInt(fnvInit, uint64(i)))
			var ls []tline
			for k, u := range uni {
				if mask>>k&1 != 0 {
					ls = append(ls, line(o, u, []int64{int64(k * 5 % 6), int64(k % 2)}[vs]))
				}
			}
			if o.sort {
				for a, b := 0, len(ls)-1; a < b; a, b = a+1, b-1 {
					ls[a], ls[b] = ls[b], ls[a]
				}
			}
			toolCase(w, o, ls, qs, []string{"\n", ""}[mask&1])
		},
		Show: func(i int) string {
			return fmt.Sprintf("options %s, subset %b, scheme %d", optsAt(i%nOpts), i/nOpts%64, i/nOpts/64)
		}})

	sets := [][]string{
		{"a", "aa", "ab", "b"},
		{"я", "z", "é", "漢"},
		{"a b", "a", "a=", "A"},
		{"ёж", "еж", "ель", "ёлка"},
		{"あ", "ア", "a", "😀"},
		{"ß", "ss", "ſ", "Ω"},
	}
	if thorough {
		sets = append(sets, []string{"a", "ab", "abc", "abcd"}, []string{"б", "a", "ж", "ÿ"}, []string{"한", "글", "はがき", "ハ"}, []string{"x", "x ", "x  ", " x"})
	}
	ps := perms(4)
	out = append(out, &Family{Name: "line-orders", N: len(sets) * len(ps) * nOpts, What: fmt.Sprintf("%d four-key lexicons (several scripts, prefixes, blanks) x all 24 line orders x 64 option combinations: sorted, refused or accepted", len(sets)),
		Run: func(w *W, i int) {
			o := optsAt(i % nOpts)
			i /= nOpts
			p := ps[i%len(ps)]
			set := sets[i/len(ps)]
			w.State(fnvInt(fnvInit+1, uint64(i)))
			var ls []tline
			for _, k := range p {
				ls = append(ls, line(o, set[k], int64(k*3%4)))
			}
			toolCase(w, o, ls, append(prefixQueries(set), ""), "\n")
		},
		Show: func(i int) string {
			return fmt.Sprintf("options %s, keys %q in order %v", optsAt(i%nOpts), sets[i/nOpts/len(ps)], ps[i/nOpts%len(ps)])
		}})

	// a key given several times with different values: which value counts is open, but not to the order of lines
	dups := [][]string{{"a\t1", "a\t2", "b\t1", "a\t10"}, {"k\t5", "k\t-5", "k\t3000000000", "kk\t1"}, {"ж\t7", "ж\t07", "a\t3", "a\t2"}, {"x\t1\tp", "x\t2\to", "x\t1\tq", "y\t9"}}
	out = append(out, &Family{Name: "repeated-keys", N: len(dups) * 16, What: fmt.Sprintf("%d lexicons that give a key several values x all 24 line orders under -t -s x guide, index and UTF-C combinations: the same answers for every order, each value one of those given", len(dups)),
		Run: func(w *W, i int) {
			o := topts{tab: true, sort: true, utfc: i&1 != 0, index: i&2 != 0, guide: i >> 2 & 3}
			set := dups[i/16]
			w.State(fnvInt(fnvInit+23, uint64(i)))
			td := newToolDir(w)
			defer os.RemoveAll(td.dir)
			put(td.query, "a\nk\nkk\nx\ny\nж\nb\n")
			first := ""
			for n, p := range ps {
				text := ""
				for _, k := range p {
					text += set[k] + "\n"
				}
				put(td.lex, text)
				if r := tool(w, o.args(true, td.lex, td.dict)...); r.code != 0 {
					w.Failf("dawgtool %s: lexicon %q refused: exit %d %s", o, text, r.code, r.err)
				}
				r := tool(w, o.args(false, td.query, td.dict)...)
				if r.code != 0 {
					w.Failf("dawgtool query with %s: exit %d %s", o, r.code, r.err)
				}
				if n == 0 {
					first = r.out
					allowed := map[string]bool{}
					for _, l := range set {
						f := strings.Split(l, "\t")
						t := lineText(o, f[0], f[1])
						allowed[fmt.Sprintf(" %s = %d", t.key, t.val)] = true
					}
					for _, l := range strings.Split(r.out, "\n") {
						if j := strings.Index(l, ":"); j >= 0 && !strings.Contains(l[:j], "otal") {
							l = l[j+1:]
							if j := strings.Index(l, ")"); strings.HasPrefix(l, " (") && j > 0 {
								l = l[j+1:]
							}
							for _, e := range strings.Split(l, ";") {
								if strings.Contains(e, "=") && !allowed[e] {
									w.Failf("dawgtool %s: lexicon %q: answer %q", o, text, e)
								}
							}
						}
					}
				}
				if r.out != first {
					w.Failf("dawgtool %s: lexicon %q gives %q, but in another order of lines %q", o, text, clip(r.out), clip(first))
				}
			}
		},
		Show: func(i int) string { return fmt.Sprintf("lines %q in all orders", dups[i/16]) }})

	vals := []int64{0, 1, 7, 255, 256, 65536, 1<<30 - 1, 1 << 30, MaxInt32 - 1, MaxInt32, MaxInt32 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 5, 1 << 40, 1<<63 - 1, -1, -5, -MaxInt32, -MaxInt32 - 1, -MaxInt32 - 2, -1 << 32, -1<<32 + 7, -1 << 63}
	out = append(out, &Family{Name: "values", N: len(vals) * len(vals) * 6, What: fmt.Sprintf("every pair of %d values (negative, at and beyond the maximum) x 3 guide kinds x with/without index", len(vals)),
		Run: func(w *W, i int) {
			o := topts{tab: true, guide: i % 3, index: i/3%2 == 1, sort: i%2 == 0, form: i % 3}
			i /= 6
			w.State(fnvInt(fnvInit+2, uint64(i)))
			toolCase(w, o, []tline{line(o, "k", vals[i%len(vals)]), line(o, "kk", vals[i/len(vals)]), line(o, "l", vals[i%len(vals)])}, []string{"k", "kk", "l", "lk", ""}, "\n")
		},
		Show: func(i int) string { return fmt.Sprintf("values %d, %d", vals[i/6%len(vals)], vals[i/6/len(vals)]) }})

	vtexts := []string{"9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551621", "99999999999999999999", "-9223372036854775809", "-18446744073709551615", "-99999999999999999999", strings.Repeat("9", 100), "-" + strings.Repeat("9", 100), "00", "007", "-0", "+5", "0000000000000000000000000000012", "-000001"}
	out = append(out, &Family{Name: "value-texts", N: len(vtexts) * 6, What: "values of any number of digits, with leading zeros or a sign x 3 guide kinds x with/without index",
		Run: func(w *W, i int) {
			o := topts{tab: true, guide: i % 3, index: i/3%2 == 1, sort: i%2 == 0, form: i % 3}
			i /= 6
			w.State(fnvInt(fnvInit+12, uint64(i)))
			toolCase(w, o, []tline{line(o, "j", 4), lineText(o, "k", vtexts[i]), lineText(o, "kk", vtexts[(i+5)%len(vtexts)]), line(o, "l", 2)}, []string{"j", "k", "kk", "l", "lk", ""}, "\n")
		},
		Show: func(i int) string { return "value " + vtexts[i/6] }})

	noValues := []string{"", "x", "1x", "x1", "1.5", "1.", ".5", "0x10", "0b1", "1e3", " 1", "1 ", "--1", "+-1", "+", "-", "1_000", "1,000", "1-", "Inf", "nil", "one", "\u0661", "\uff11", "1\x00", "\x00", "99999999999999999999x", "-99999999999999999999x"}
	out = append(out, &Family{Name: "no-values", N: len(noValues) * 3 * 12, What: fmt.Sprintf("each of %d texts that are not decimal numbers as value of the first, a middle or the last line x 3 guide kinds x with/without -s and -u: refused with an error exit", len(noValues)),
		Run: func(w *W, i int) {
			o := topts{tab: true, guide: i % 3, sort: i/3%2 == 1, utfc: i/6%2 == 1, index: i%2 == 1, form: i % 3}
			i /= 12
			w.State(fnvInt(fnvInit+22, uint64(i)))
			ls := []string{"j\t4", "k\t5", "l\t6"}
			at := i % 3
			ls[at] = ls[at][:2] + noValues[i/3]
			td := newToolDir(w)
			defer os.RemoveAll(td.dir)
			put(td.lex, strings.Join(ls, "\n")+"\n")
			if r := tool(w, o.args(true, td.lex, td.dict)...); r.code == 0 {
				w.Failf("dawgtool %s: the value %q in line %d is accepted", o, noValues[i/3], at+1)
			}
		},
		Show: func(i int) string { return fmt.Sprintf("value %q in line %d", noValues[i/36], i/12%3+1) }})

	// special line shapes
	type special struct {
		name  string
		lines func(o topts) []tline
		qs    []string
		end   string
	}
	blank := tline{}
	sp := []special{
		{"no lines", func(o topts) []tline { return nil }, []string{"a", ""}, ""},
		{"only blank lines", func(o topts) []tline { return []tline{blank, blank} }, []string{"a", ""}, "\n"},
		{"blank lines between", func(o topts) []tline {
			return []tline{blank, line(o, "a", 1), blank, blank, line(o, "ab", 2), blank, line(o, "b", 3)}
		}, []string{"a", "ab", "abc", "", "b", "c"}, "\n\n"},
		{"repeated lines", func(o topts) []tline {
			return []tline{line(o, "a", 1), line(o, "a", 1), line(o, "ab", 2), line(o, "ab", 2), line(o, "b", 1), line(o, "b", 1)}
		}, []string{"a", "ab", "abc", "", "b", "bb"}, ""},
		{"empty key with a value", func(o topts) []tline {
			if !o.tab {
				return []tline{line(o, "a", 0)}
			}
			return []tline{line(o, "", 4), line(o, "a", 1), line(o, "ab", 9)}
		}, []string{"a", "ab", "abc", "", "b"}, "\n"},
		{"more than two columns", func(o topts) []tline {
			l := line(o, "a", 6)
			if o.tab {
				l.text += "\tcomment\t9"
			}
			return []tline{l, line(o, "b", 2)}
		}, []string{"a", "ab", "", "b"}, "\n"},
		{"high bytes", func(o topts) []tline {
			if o.utfc {
				return []tline{line(o, "z", 3), line(o, "з", 3)}
			}
			return []tline{line(o, "\x01", 3), line(o, "\x7f", 1), line(o, "\x80", 2), line(o, "\x80\xff", 5), line(o, "\xff", 4)}
		}, []string{"\x01", "\x80", "z", "\xff\xff", "з", "\x02"}, "\n"},
		{"10001 keys", func(o topts) []tline {
			var ls []tline
			for i := 0; i < 10001; i++ {
				ls = append(ls, line(o, counterKey(i, "0123456789", 5), int64(i*7919%10007)))
			}
			return ls
		}, []string{"00000", "10000", "10001", "0999", "1", "012", "5432x"}, "\n"},
		{"70000 keys", func(o topts) []tline {
			var ls []tline
			if o.utfc {
				return []tline{line(o, "65535", 1), line(o, "65536", 2), line(o, "69999", 3)}
			}
			for i := 0; i < 70000; i++ {
				k := i
				if o.sort {
					k = i * 7919 % 70000
				}
				ls = append(ls, line(o, counterKey(k, "0123456789", 5), int64(k*104729%70001)))
			}
			return ls
		}, []string{"65535", "65536", "69999", "70000", "6", ""}, "\n"},
		{"10001 keys, the last one too small", func(o topts) []tline {
			var ls []tline
			for i := 1; i < 10001; i++ {
				ls = append(ls, line(o, counterKey(i, "0123456789", 5), 1))
			}
			return append(ls, line(o, counterKey(0, "0123456789", 5), 5))
		}, []string{"00000", "10000", "10001"}, "\n"},
		{"control bytes and other bytes around the separators", func(o topts) []tline {
			keys := []string{"a", "a\x01", "a\x01b", "a\x08", "a\x0b", "a\x1f", "a b", "a!", "a:", "a:b", "a<", "a=1", "ab"}
			var ls []tline
			for i := range keys {
				k := i
				if o.sort { // some other order
					k = i * 5 % len(keys)
				}
				ls = append(ls, line(o, keys[k], int64(k%5)))
			}
			return ls
		}, []string{"a", "a\x01", "a\x01b", "a\x01bc", "a\x08", "a ", "a b", "a:", "a=", "ab", ""}, "\n"},
		{"every byte at the start, in the middle and at the end of keys", func(o topts) []tline {
			var ls []tline
			for c := rune(1); c < 0x100; c++ {
				if c == '\n' || c == '\r' || c == '\t' {
					continue
				}
				k := string([]byte{byte(c)})
				if o.utfc {
					k = string(c)
				}
				ls = append(ls, line(o, k, int64(c)), line(o, k+"x", 1), line(o, k+k, 2), line(o, "k"+k, 3), line(o, "k"+k+"k", 4), line(o, "%"+k, 5), line(o, "\\"+k, 6))
			}
			return inOrder(o, ls)
		}, func() []string {
			qs := []string{"", "k", "%", "\\", "kk"}
			for c := 1; c < 0x100; c++ {
				if c != '\n' && c != '\r' && c < 0x80 {
					qs = append(qs, string([]byte{byte(c)}), "k"+string([]byte{byte(c)})+"k")
				}
			}
			return append(qs, "\u00e9", "k\u00a0k", "\u0085", "%s%d%!", "%%x")
		}(), "\n"},
		{"blanks around and instead of words, marks that some formats give a meaning", func(o topts) []tline {
			var ls []tline
			for i, k := range []string{" ", "  ", " a", "a ", " a ", "a  b", "\v", "\f", "a\v", "\u00a0", "\u00a0a", "a\u00a0", "\u0085", "\u2028a", "\ufeff", "\ufeffa", "a\ufeff",
				"#", "#a", "//", "//a", ";", "; a", "--", "\"", "\"a\"", "'a'", "a,b", "a;b", "a=b", "a:b", "a|b", "-", "-a", "0", "00", "1e3", "nil", "NULL", "\ufffd", "\u200b", "e\u0301", "\u00e9", "A", "\u00c4", "\u00e4", "\u0130", "\u0131", "I", "i"} {
				ls = append(ls, line(o, k, int64(i)))
			}
			return inOrder(o, ls)
		}, []string{" ", "  ", " a", "a ", "a", "", "\u00a0a", "\u0085", "\ufeff", "\ufeffa", "#", "#a", "//a", "; a", "--", "\"a\"", "'a'", "a,b", "a=b", "-", "-a", "0", "00", "1e3", "\ufffd", "e\u0301", "\u00e9", "A", "I", "i", "\u0130", "a  b", "\v", "NULL"}, "\n"},
		{"tabs in keys, or in the third column", func(o topts) []tline {
			keys := []string{"\t", "\t\t", "\ta", "a", "a\t", "a\t1", "a\tb", "a\x01c", "a\x08", "a\x0b", "ab", "b\t\t7", "c\t\x01"}
			var ls []tline
			for i, k := range keys {
				if o.tab {
					t := line(o, strings.Replace(k, "\t", "_", -1), int64(i))
					t.text += "\t" + k
					ls = append(ls, t)
				} else {
					ls = append(ls, line(o, k, 0))
				}
			}
			return inOrder(o, ls)
		}, []string{"", "\t", "a", "a\t", "a\t1", "a\tb", "a\tbc", "a\x01c", "ab", "b\t\t7", "b\t\t78", "c\t\x01", "a_b", "_"}, "\n"},
		{"queries with NUL", func(o topts) []tline {
			return []tline{line(o, "a", 1), line(o, "ab", 2), line(o, "b", 3)}
		}, []string{"\x00", "a\x00", "a\x00b", "ab\x00", "\x00a", "b", "\x00\x00"}, "\n"},
		{"a key of NUL", func(o topts) []tline { return []tline{line(o, "\x00", 1)} }, []string{"", "\x00", "\x00\x00", "a"}, "\n"},
		{"keys with NUL", func(o topts) []tline {
			return inOrder(o, []tline{line(o, "a", 1), line(o, "a\x00", 2), line(o, "a\x00b", 3), line(o, "b\x00", 4), line(o, "ж\x00", 5), line(o, "ж", 6)})
		}, []string{"a", "a\x00", "a\x00b", "a\x00bc", "b", "b\x00", "ж\x00", "", "\x00"}, "\n"},
		{"the last key with NUL", func(o topts) []tline {
			return inOrder(o, []tline{line(o, "a", 1), line(o, "b", 2), line(o, "b\x00", 4)})
		}, []string{"a", "b", "b\x00", "b\x00b", "", "\x00"}, "\n"},
		{"a byte order mark first", func(o topts) []tline {
			return []tline{line(o, "\ufeff", 1), line(o, "\ufeffa", 2), line(o, "\ufeffab", 3)}
		}, []string{"\ufeff", "\ufeffab", "\ufeffabc", "a", "ab"}, "\n"},
		{"1500 keys, not in order, values of different lengths", func(o topts) []tline {
			var ls []tline
			for i := 0; i < 1500; i++ {
				k := i
				if o.sort {
					k = i * 1009 % 1500
				}
				ls = append(ls, line(o, "w"+counterKey(k, "0123456789", 4)[1:]+strings.Repeat("x", k/1000), int64(k*k)))
			}
			if !o.sort {
				sort.SliceStable(ls, func(a, b int) bool { return ls[a].key < ls[b].key })
			}
			return ls
		}, []string{"w000", "w499x", "w499", "w12", "w", "w500x", ""}, "\n"},
		{"2000 queries", func(o topts) []tline {
			var ls []tline
			for i := 0; i < 1000; i++ {
				ls = append(ls, line(o, counterKey(i, "0123456789", 3), int64(i*7919%1009)))
			}
			return ls
		}, func() []string {
			var q []string
			for i := 0; i < 1000; i++ {
				q = append(q, counterKey(i, "0123456789", 3), counterKey(i*13%1000, "012345678x", 3))
			}
			return q
		}(), "\n"},
	}
	for _, n := range []int{4095, 4096, 65534, 65535, 65536, 65537, 70000, 200000} {
		n := n
		long := strings.Repeat("l", n)
		sp = append(sp, special{fmt.Sprintf("a line of %d bytes", n), func(o topts) []tline {
			if o.utfc && n > 4096 && !(n == 65537 && o.tab && !o.sort && o.guide != 3) { // decoding a text takes quadratic time
				return []tline{line(o, "a", 1), line(o, "lll", 2), line(o, "z", 3)}
			}
			return []tline{line(o, "a", 1), line(o, long, 2), line(o, "z", 3)}
		}, []string{"a", long, "z", "", "lll"}, "\n"})
	}
	out = append(out, &Family{Name: "special-lexicons", N: len(sp) * nOpts, What: fmt.Sprintf("%d lexicons (no lines, blank and repeated lines, extra columns, empty key, control and high bytes, more than 10000 and 65536 keys, lines up to 200000 bytes) x 64 option combinations", len(sp)),
		Run: func(w *W, i int) {
			o := optsAt(i % nOpts)
			s := sp[i/nOpts]
			o.form = i / nOpts % 3
			w.State(fnvInt(fnvInit+3, uint64(i)))
			toolCase(w, o, s.lines(o), s.qs, s.end)
		},
		Show: func(i int) string { return fmt.Sprintf("%s, options %s", sp[i/nOpts].name, optsAt(i%nOpts)) }})

	// UTF-C texts: every pair of code points of different kinds
	cps := c16Cps
	out = append(out, &Family{Name: "utfc-texts", N: len(cps) * len(cps) * 8, What: fmt.Sprintf("every pair of %d code points of all kinds: lexicons of the words made of them, -u -s with every guide/index combination", len(cps)),
		Run: func(w *W, i int) {
			o := topts{utfc: true, sort: true, tab: true, guide: i & 3, index: i&4 != 0}
			i /= 8
			a, b := string(rune(cps[i%len(cps)])), string(rune(cps[i/len(cps)]))
			w.State(fnvInt(fnvInit+4, uint64(i)))
			set := map[string]bool{}
			var ls []tline
			for k, t := range []string{a, b, a + b, b + a, a + a + b, b + b} {
				if !set[t] {
					set[t] = true
					ls = append(ls, line(o, t, int64(k)))
				}
			}
			qs := []string{a, b, a + b, a + a, b + a + b, a + a + b, "", "q", b + b}
			toolCase(w, o, ls, qs, "\n")
		},
		Show: func(i int) string { return fmt.Sprintf("%U %U", cps[i/8%len(cps)], cps[i/8/len(cps)]) }})

	// a dictionary file that is built over an older one
	rb := [][]string{{}, {"a"}, {"a", "ab", "b"}, nil}
	for i := 0; i < 300; i++ {
		rb[3] = append(rb[3], "k"+counterKey(i, "abcdefghij", 3))
	}
	nrb := len(rb) * 8
	out = append(out, &Family{Name: "rebuilt-files", N: nrb * nrb, What: "every ordered pair of 4 lexicons x 8 guide/index combinations, the second built over the dictionary file of the first: same file as without a predecessor, parts it lacks are refused",
		Run: func(w *W, i int) {
			w.State(fnvInt(fnvInit+6, uint64(i)))
			td := newToolDir(w)
			defer os.RemoveAll(td.dir)
			put(td.query, "a\nk\n")
			build := func(j int, dict string) topts {
				o := topts{guide: j & 3, index: j&4 != 0, form: j % 3}
				put(td.lex, strings.Join(append(append([]string{}, rb[j/8]...), ""), "\n"))
				if r := tool(w, o.args(true, td.lex, dict)...); r.code != 0 {
					w.Failf("dawgtool %s: exit %d %s", o, r.code, r.err)
				}
				return o
			}
			build(i/nrb, td.dict)
			o := build(i%nrb, td.dict)
			build(i%nrb, td.dir+"/fresh")
			a, err := os.ReadFile(td.dict)
			b, err2 := os.ReadFile(td.dir + "/fresh")
			if err != nil || err2 != nil || !bytes.Equal(a, b) {
				w.Failf("dawgtool %s over an older dictionary file: %d bytes, into a new file: %d bytes, or different ones", o, len(a), len(b))
			}
			if r := tool(w, o.args(false, td.query, td.dict)...); r.code != 0 {
				w.Failf("query with %s: exit %d %s", o, r.code, r.err)
			}
			q := o
			switch {
			case o.guide == 0:
				q.guide, q.index = 1, false
			case !o.index:
				q.index = true
			default:
				return
			}
			if r := tool(w, q.args(false, td.query, td.dict)...); r.code == 0 {
				w.Failf("built with %s, a query with %s is answered although the file lacks a part", o, q)
			}
		},
		Show: func(i int) string { return fmt.Sprint("first ", i/nrb, " second ", i%nrb) }})

	// missing and truncated files
	out = append(out, &Family{Name: "truncated-files", N: 8, Heavy: true, What: "for every guide/index combination: the dictionary file cut at every length in steps (every byte near part boundaries), and missing or unreadable files: refused with an error exit",
		Run: func(w *W, i int) {
			o := topts{guide: i & 3, index: i&4 != 0}
			w.State(fnvInt(fnvInit+5, uint64(i)))
			td := newToolDir(w)
			defer os.RemoveAll(td.dir)
			put(td.lex, "a\nab\nb\nbc\n")
			put(td.query, "a\nb\n")
			if r := tool(w, o.args(true, td.lex, td.dict)...); r.code != 0 {
				w.Failf("build failed: %s", r.err)
			}
			img, err := os.ReadFile(td.dict)
			if err != nil {
				w.Failf("no dictionary file: %v", err)
			}
			cut := map[int]bool{}
			for n := 0; n < len(img); n += 97 {
				cut[n] = true
			}
			for n := 0; n < 9 && n < len(img); n++ {
				cut[n] = true
				cut[len(img)-1-n] = true
			}
			if len(img) >= 4 { // boundaries of the parts
				units := int(img[0]) | int(img[1])<<8 | int(img[2])<<16
				at := 4 + 4*units
				for _, size := range []int{2, 4} {
					for n := at - 3; n < at+6 && o.guide != 0; n++ {
						if n >= 0 && n < len(img) {
							cut[n] = true
						}
					}
					at += 4 + size*units
				}
			}
			for n := range cut {
				put(td.dict, string(img[:n]))
				if r := tool(w, o.args(false, td.query, td.dict)...); r.code == 0 {
					w.Failf("dawgtool %s accepts the dictionary file cut to %d of %d bytes", o, n, len(img))
				}
			}
			put(td.dict, string(img))
			if r := tool(w, o.args(false, td.query, td.dir+"/none")...); r.code == 0 {
				w.Failf("a missing dictionary file is not reported")
			}
			if r := tool(w, o.args(false, td.dir+"/none", td.dict)...); r.code == 0 {
				w.Failf("a missing query file is not reported")
			}
			if r := tool(w, o.args(true, td.dir+"/none", td.dir+"/out")...); r.code == 0 {
				w.Failf("a missing lexicon file is not reported")
			}
			// what can be opened but not read
			if r := tool(w, o.args(false, td.query, td.dir)...); r.code == 0 {
				w.Failf("a dictionary file that cannot be read is not reported")
			}
			if r := tool(w, o.args(false, td.dir, td.dict)...); r.code == 0 {
				w.Failf("a query file that cannot be read is not reported")
			}
			for _, sorted := range []bool{false, true} {
				o := o
				o.sort = sorted
				if r := tool(w, o.args(true, td.dir, td.dir+"/out")...); r.code == 0 {
					w.Failf("a lexicon file that cannot be read is not reported")
				}
			}
			if r := tool(w, o.args(true, td.lex, "/dev/full")...); r.code == 0 {
				w.Failf("dawgtool %s: a dictionary that cannot be written is not reported", o)
			}
			if r := tool(w, o.args(true, td.lex, td.dir+"/none/dict")...); r.code == 0 {
				w.Failf("dawgtool %s: a dictionary file that cannot be created is not reported", o)
			}
		}})
	return out
}

// prefixQueries: the keys, their text prefixes and one extension each.
func prefixQueries(set []string) []string {
	seen := map[string]bool{"": true}
	var out []string
	for _, s := range set {
		r := []rune(s + "x")
		for n := 1; n <= len(r); n++ {
			if p := string(r[:n]); !seen[p] {
				seen[p] = true
				out = append(out, p)
			}
		}
	}
	return out
}

func init() {
	register(&Check{Prop: "C18",
		StateIs:     "state: (lexicon, options); transition: one run of the dawgtool binary; trace: one build followed by its queries, output compared exactly",
		Assumptions: []string{"keys without tab (under -t), newline, carriage return at the end, or zero byte (unless -u); duplicate keys only with equal values; every line has a value under -t", "the empty key is not required to be printed as a prefix match"},
		Families:    c18Families,
		Prepare:     buildTool,
	})
}
