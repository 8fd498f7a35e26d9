package main

// Exploration engine: families of indexed cases, executed exhaustively by single-threaded worker processes under
// the supervision of a parent process.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Workers is fixed (not the number of cores) so that every worker executes the same cases in the same order in
// every run; a violation that depends on the history of a worker process can then be replayed exactly.
const Workers = 8

// A Family is a finite, completely enumerated set of cases. Run executes case i on the real code and compares it
// with the reference model; it reports a disagreement with w.Failf.
type Family struct {
	Name  string
	N     int
	Heavy bool // few, large cases: dealt out one by one, after everything else
	Run   func(w *W, i int)
	// Show renders the input of a case for the replay file.
	Show func(i int) string
	What string // what is enumerated, for the evidence
}

// A Check decides one property: a list of families, simplest first.
type Check struct {
	Prop        string
	Families    func(tier string) []*Family
	Assumptions []string
	StateIs     string                     // what a state/transition/trace is, for the evidence
	Prepare     func(scratch string) error // before the workers start
	Post        func(tier string, cov map[string]interface{}) (violation string)
}

type Violation struct {
	Prop    string   `json:"property"`
	Tier    string   `json:"tier"`
	Family  string   `json:"family"`
	Index   int      `json:"index"`
	Worker  int      `json:"worker"`
	Msg     string   `json:"message"`
	Trace   []string `json:"trace,omitempty"`
	Input   string   `json:"input,omitempty"`
	Mode    string   `json:"replay_mode,omitempty"` // "case" or "history"
	Command string   `json:"replay_command,omitempty"`
	crash   bool     // the process ended, ran out of memory or did not return
}

// W is the context of one worker.
type W struct {
	Transitions uint64
	Traces      uint64
	states      map[uint64]struct{}
	Extra       map[string]uint64
	samples     []string
	trace       []string
	tracing     bool
	scratch     string
}

type failure struct{ msg string }

func (w *W) Failf(format string, args ...interface{}) {
	panic(&failure{fmt.Sprintf(format, args...)})
}

// Tracef records one operation of the current history (kept only while replaying).
func (w *W) Tracef(format string, args ...interface{}) {
	if w.tracing {
		w.trace = append(w.trace, fmt.Sprintf(format, args...))
	}
}

// State records a canonical model state; equal hashes are counted once.
func (w *W) State(h uint64) { w.states[h] = struct{}{} }

func (w *W) Count(name string, n uint64) { w.Extra[name] += n }

func (w *W) Sample(s string) {
	if len(w.samples) < 3 {
		w.samples = append(w.samples, s)
	}
}

func fnv(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

const fnvInit = 14695981039346656037

func fnvInt(h uint64, v uint64) uint64 {
	for i := 0; i < 8; i++ {
		h ^= v & 0xff
		h *= 1099511628211
		v >>= 8
	}
	return h
}

func (w *W) exec(f *Family, i int) (v *Violation) {
	defer func() {
		if r := recover(); r != nil {
			v = &Violation{Family: f.Name, Index: i}
			if fl, ok := r.(*failure); ok {
				v.Msg = fl.msg
			} else {
				v.Msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
			v.Trace = append([]string{}, w.trace...)
		}
	}()
	w.trace = w.trace[:0]
	f.Run(w, i)
	return nil
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "deNULL/dawg") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// ---- progress slots shared between a worker process and the parent ----

const slotSize = 64

type slot struct {
	family int64
	index  int64
	start  int64 // unix nanoseconds, 0 when idle
	done   int64
}

func mapSlots(path string, create bool) ([]*slot, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if create {
		if err := f.Truncate(slotSize * Workers); err != nil {
			return nil, err
		}
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, slotSize*Workers, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	s := make([]*slot, Workers)
	for i := range s {
		s[i] = (*slot)(unsafe.Pointer(&m[i*slotSize]))
	}
	return s, nil
}

// ---- case assignment ----

type span struct{ fam, lo, hi int }

// plan lists, in execution order, the spans of cases worker k executes. It depends only on the families.
func plan(fams []*Family, k int) []span {
	var out []span
	turn := 0
	for pass := 0; pass < 2; pass++ {
		for fi, f := range fams {
			if f.Heavy != (pass == 1) {
				continue
			}
			chunk := 1
			if !f.Heavy {
				chunk = f.N / (Workers * 16)
				if chunk < 1 {
					chunk = 1
				}
				if chunk > 2048 {
					chunk = 2048
				}
			}
			for lo := 0; lo < f.N; lo += chunk {
				hi := lo + chunk
				if hi > f.N {
					hi = f.N
				}
				if turn%Workers == k {
					out = append(out, span{fi, lo, hi})
				}
				turn++
			}
		}
	}
	return out
}

type childResult struct {
	Transitions uint64            `json:"transitions"`
	Traces      uint64            `json:"traces"`
	Extra       map[string]uint64 `json:"extra"`
	Samples     []string          `json:"samples"`
	Complete    bool              `json:"complete"`
	Violation   *Violation        `json:"violation"`
	PerFamily   map[string]uint64 `json:"per_family"`
	PerFamilyNs map[string]int64  `json:"per_family_ns"`
}

func newW(scratch string) *W {
	return &W{states: map[uint64]struct{}{}, Extra: map[string]uint64{}, scratch: scratch}
}

const exitRunaway = 70

// memoryGuard ends the process when the code under test allocates without bound.
func memoryGuard(limit uint64) {
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(300 * time.Millisecond)
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > limit { // not only garbage
				runtime.GC()
				runtime.ReadMemStats(&ms)
			}
			if ms.HeapAlloc > limit {
				fmt.Fprintf(os.Stderr, "runaway memory: heap %d MB\n", ms.HeapAlloc>>20)
				os.Exit(exitRunaway)
			}
		}
	}()
}

// runChild executes worker k's share. stopAt bounds a history replay: (family, index) after which to stop.
func runChild(c *Check, tier string, k int, scratch string, deadline time.Time, stopFam string, stopIdx int) int {
	debug.SetMaxStack(512 << 20)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	memoryGuard(5 << 29)
	slots, err := mapSlots(scratch+"/slots", false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	sl := slots[k]
	fams := c.Families(tier)
	w := newW(scratch)
	res := childResult{Complete: true, PerFamily: map[string]uint64{}, PerFamilyNs: map[string]int64{}}
	stopFile := scratch + "/stop"
	n := 0
loop:
	for _, sp := range plan(fams, k) {
		f := fams[sp.fam]
		for i := sp.lo; i < sp.hi; i++ {
			now := time.Now()
			if n%512 == 0 || f.Heavy {
				if now.After(deadline) {
					res.Complete = false
					break loop
				}
				if _, err := os.Stat(stopFile); err == nil {
					res.Complete = false
					break loop
				}
			}
			n++
			atomic.StoreInt64(&sl.family, int64(sp.fam))
			atomic.StoreInt64(&sl.index, int64(i))
			atomic.StoreInt64(&sl.start, now.UnixNano())
			if v := w.exec(f, i); v != nil {
				v.Worker = k
				res.Violation = v
				res.Complete = false
				os.WriteFile(stopFile, []byte("x"), 0o600)
				break loop
			}
			w.Traces++
			res.PerFamily[f.Name]++
			res.PerFamilyNs[f.Name] += int64(time.Since(now))
			if stopFam == f.Name && stopIdx == i {
				break loop
			}
		}
	}
	atomic.StoreInt64(&sl.start, 0)
	atomic.StoreInt64(&sl.done, 1)
	res.Transitions, res.Traces, res.Extra, res.Samples = w.Transitions, w.Traces, w.Extra, w.samples
	b, _ := json.Marshal(res)
	if err := os.WriteFile(fmt.Sprintf("%s/result.%d.json", scratch, k), b, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	hs := make([]byte, 0, 8*len(w.states))
	for h := range w.states {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	if err := os.WriteFile(fmt.Sprintf("%s/states.%d", scratch, k), hs, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if res.Violation != nil {
		return 1
	}
	return 0
}
