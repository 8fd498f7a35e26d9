package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"sync/atomic"
	"time"
)

var verifDir string

var checks = map[string]*Check{}

func register(c *Check) { checks[c.Prop] = c }

const hangLimit = 120 * time.Second // a single case takes at most a few seconds on a correct tree

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc run|child|case|replay|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("mc", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	verif := fs.String("verif", "/verif", "verification directory")
	scratch := fs.String("scratch", "", "scratch directory")
	worker := fs.Int("worker", 0, "worker number")
	deadline := fs.Int64("deadline", 0, "unix seconds")
	family := fs.String("family", "", "family")
	index := fs.Int("index", 0, "case index")
	fs.Parse(os.Args[2:])
	verifDir = *verif
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			total := 0
			for _, f := range checks[id].Families(*tier) {
				fmt.Printf("%s %-28s %10d  %s\n", id, f.Name, f.N, f.What)
				total += f.N
			}
			fmt.Printf("%s total %d\n", id, total)
		}
	case "race":
		a, _ := strconv.Atoi(fs.Arg(0))
		b, _ := strconv.Atoi(fs.Arg(1))
		os.Exit(runRace(a, b))
	case "child":
		os.Exit(runChild(mustCheck(*prop), *tier, *worker, *scratch, time.Unix(*deadline, 0), *family, *index))
	case "case":
		os.Exit(runCase(mustCheck(*prop), *tier, *family, *index, *scratch))
	case "run":
		os.Exit(runParent(mustCheck(*prop), *tier, *verif, *scratch))
	case "replay":
		os.Exit(replayFile(fs.Arg(0), *verif, *scratch))
	default:
		os.Exit(2)
	}
}

func mustCheck(id string) *Check {
	c := checks[id]
	if c == nil {
		fmt.Fprintf(os.Stderr, "no check for property %q\n", id)
		os.Exit(2)
	}
	return c
}

func findFamily(c *Check, tier, name string) *Family {
	for _, f := range c.Families(tier) {
		if f.Name == name {
			return f
		}
	}
	return nil
}

// runCase executes one case in this process, with tracing.
func runCase(c *Check, tier, family string, index int, scratch string) int {
	memoryGuard(3 << 30)
	f := findFamily(c, tier, family)
	if f == nil || index >= f.N {
		fmt.Fprintln(os.Stderr, "no such case")
		return 2
	}
	w := newW(scratch)
	w.tracing = true
	v := w.exec(f, index)
	if v == nil {
		fmt.Printf("case %s[%d] of %s holds\n", family, index, c.Prop)
		return 0
	}
	for _, t := range v.Trace {
		fmt.Println("  op:", t)
	}
	fmt.Println("violation:", v.Msg)
	v.Prop, v.Tier = c.Prop, tier
	b, _ := json.Marshal(v)
	if scratch != "" {
		os.WriteFile(scratch+"/case.json", b, 0o600)
	}
	return 1
}

// spawn runs this binary with args; a timeout counts as a hang (exit status -1).
func spawn(timeout time.Duration, args ...string) (code int, out string) {
	cmd := exec.Command(os.Args[0], args...)
	tmp, err := os.CreateTemp("", "mcout")
	if err != nil {
		return 3, err.Error()
	}
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	cmd.Stdout, cmd.Stderr = tmp, tmp
	if err := cmd.Start(); err != nil {
		return 3, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
		code = cmd.ProcessState.ExitCode()
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		code = -1
	}
	b, _ := os.ReadFile(tmp.Name())
	if len(b) > 6000 {
		b = b[:6000]
	}
	return code, string(b)
}

func replayFile(path, verif, scratch string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := mustCheck(v.Prop)
	if c.Prepare != nil {
		if err := c.Prepare(scratch); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	if v.Mode == "history" {
		mapSlots(scratch+"/slots", true)
		code, out := spawn(20*time.Minute, "child", "-prop", v.Prop, "-tier", v.Tier, "-worker", strconv.Itoa(v.Worker),
			"-scratch", scratch, "-family", v.Family, "-index", strconv.Itoa(v.Index), "-deadline", strconv.FormatInt(time.Now().Add(time.Hour).Unix(), 10))
		fmt.Print(out)
		fmt.Println("exit", code)
		return code
	}
	if v.Mode == "post" {
		fmt.Println(v.Msg)
		return 1
	}
	return runCase(c, v.Tier, v.Family, v.Index, scratch)
}

func runParent(c *Check, tier, verif, scratch string) int {
	t0 := time.Now()
	limit := 600 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	deadline := t0.Add(limit)
	if c.Prepare != nil {
		if err := c.Prepare(scratch); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	fams := c.Families(tier)
	cov := map[string]interface{}{}
	var confirmed *Violation
	var complete bool
	var transitions, traces uint64
	var extra, per map[string]uint64
	var perNs map[string]int64
	var samples []string
	var states map[uint64]struct{}

	explore := func(round int) ([]*Violation, int) {
		slots, err := mapSlots(scratch+"/slots", true)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return nil, 3
		}
		type proc struct {
			cmd  *exec.Cmd
			err  *os.File
			code int
			hung bool
			done bool
		}
		procs := make([]*proc, Workers)
		finished := make(chan int, Workers)
		for k := range procs {
			p := &proc{}
			procs[k] = p
			p.err, err = os.Create(fmt.Sprintf("%s/stderr.%d", scratch, k))
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return nil, 3
			}
			p.cmd = exec.Command(os.Args[0], "child", "-prop", c.Prop, "-tier", tier, "-worker", strconv.Itoa(k),
				"-scratch", scratch, "-deadline", strconv.FormatInt(deadline.Unix(), 10))
			p.cmd.Stdout, p.cmd.Stderr = p.err, p.err
			if err := p.cmd.Start(); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return nil, 3
			}
			go func(k int) {
				procs[k].cmd.Wait()
				finished <- k
			}(k)
		}
		running := Workers
		tick := time.NewTicker(500 * time.Millisecond)
		defer tick.Stop()
		for running > 0 {
			select {
			case k := <-finished:
				running--
				procs[k].done = true
				procs[k].code = procs[k].cmd.ProcessState.ExitCode()
				if procs[k].code != 0 {
					os.WriteFile(scratch+"/stop", []byte("x"), 0o600)
				}
			case now := <-tick.C:
				for k, p := range procs {
					st := atomic.LoadInt64(&slots[k].start)
					if !p.done && !p.hung && st != 0 && now.Sub(time.Unix(0, st)) > hangLimit {
						p.hung = true
						p.cmd.Process.Kill()
					}
				}
			}
		}

		// Collect.
		var suspects []*Violation
		complete = true
		transitions, traces, samples = 0, 0, nil
		extra, per, perNs = map[string]uint64{}, map[string]uint64{}, map[string]int64{}
		states = map[uint64]struct{}{}
		for k, p := range procs {
			p.err.Close()
			if p.code != 0 && p.code != 1 || p.hung {
				complete = false
				fi, idx := int(atomic.LoadInt64(&slots[k].family)), int(atomic.LoadInt64(&slots[k].index))
				if atomic.LoadInt64(&slots[k].start) == 0 || fi >= len(fams) {
					b, _ := os.ReadFile(p.err.Name())
					fmt.Fprintf(os.Stderr, "worker %d failed outside a case (exit %d):\n%s\n", k, p.code, b)
					return nil, 3
				}
				what := fmt.Sprintf("process ended with status %d", p.code)
				if p.hung {
					what = fmt.Sprintf("no return within %v", hangLimit)
				}
				b, _ := os.ReadFile(p.err.Name())
				if len(b) > 1500 {
					b = b[:1500]
				}
				suspects = append(suspects, &Violation{crash: true, Family: fams[fi].Name, Index: idx, Worker: k, Msg: what + "\n" + string(b)})
				continue
			}
			b, err := os.ReadFile(fmt.Sprintf("%s/result.%d.json", scratch, k))
			var r childResult
			if err == nil {
				err = json.Unmarshal(b, &r)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, "worker result:", err)
				return nil, 3
			}
			transitions += r.Transitions
			traces += r.Traces
			for n, v := range r.Extra {
				extra[n] += v
			}
			for n, v := range r.PerFamilyNs {
				perNs[n] += v
			}
			for n, v := range r.PerFamily {
				per[n] += v
			}
			samples = append(samples, r.Samples...)
			complete = complete && r.Complete
			if r.Violation != nil {
				suspects = append(suspects, r.Violation)
			}
			hs, _ := os.ReadFile(fmt.Sprintf("%s/states.%d", scratch, k))
			for i := 0; i+8 <= len(hs); i += 8 {
				states[binary.LittleEndian.Uint64(hs[i:])] = struct{}{}
			}
		}
		if os.Getenv("VERIF_TIMES") != "" {
			for _, f := range fams {
				fmt.Printf("  %-45s %10d cases %8.1f cpu-s\n", f.Name, per[f.Name], float64(perNs[f.Name])/1e9)
			}
		}
		rank := map[string]int{}
		for i, f := range fams {
			rank[f.Name] = i
		}
		sort.Slice(suspects, func(i, j int) bool {
			a, b := suspects[i], suspects[j]
			if rank[a.Family] != rank[b.Family] {
				return rank[a.Family] < rank[b.Family]
			}
			return a.Index < b.Index
		})

		return suspects, 0
	}
	// Confirm. The process ended or did not return: 5 identical re-executions in fresh processes. A wrong answer: it shows
	// again in one of 10 fresh processes (the code may choose at random, by map order for example), or else in the
	// re-executed history of the worker, or else in the second round.
	confirm := func(suspects []*Violation, round int) (*Violation, bool, int) {
		again := false
		for _, v := range suspects {
			v.Prop, v.Tier = c.Prop, tier
			seen := 0
			tries := 5
			if !v.crash {
				tries = 10
			}
			for r := 0; r < tries; r++ {
				code, out := spawn(hangLimit, "case", "-prop", c.Prop, "-tier", tier, "-family", v.Family, "-index", strconv.Itoa(v.Index), "-scratch", scratch)
				if code == 2 || code == 3 {
					fmt.Fprintln(os.Stderr, "replay error:", out)
					return nil, false, 3
				}
				if code != 0 {
					seen++
					if b, err := os.ReadFile(scratch + "/case.json"); err == nil && seen == 1 {
						var cv Violation
						if json.Unmarshal(b, &cv) == nil {
							v.Trace, v.Msg = cv.Trace, cv.Msg
						}
					}
				}
				if code == -1 { // a hang need not be waited for five times
					seen = tries
					break
				}
				if v.crash == (code == 0) {
					break
				}
			}
			if v.crash && seen == tries || !v.crash && seen > 0 {
				v.Mode = "case"
				return v, false, 0
			}
			os.Remove(scratch + "/stop")
			code, _ := spawn(5*time.Minute, "child", "-prop", c.Prop, "-tier", tier, "-worker", strconv.Itoa(v.Worker),
				"-scratch", scratch, "-family", v.Family, "-index", strconv.Itoa(v.Index), "-deadline", strconv.FormatInt(time.Now().Add(4*time.Minute).Unix(), 10))
			if code == 1 {
				v.Mode = "history"
				return v, false, 0
			}
			if round == 2 && !v.crash {
				v.Mode = "history"
				v.Msg += " (observed in two explorations, not in every execution)"
				return v, false, 0
			}
			fmt.Printf("note: unconfirmed observation dropped: %s[%d] %s\n", v.Family, v.Index, v.Msg)
			again = true
		}
		return nil, again, 0
	}
	// A round explores everything. An observation that cannot be reproduced is dropped, and since it has cut the round
	// short everything is explored once more; a wrong answer observed again in that round is reported.
	for round := 1; round <= 2; round++ {
		os.Remove(scratch + "/stop")
		suspects, rc := explore(round)
		if rc != 0 {
			return rc
		}
		if len(suspects) == 0 {
			break
		}
		var again bool
		confirmed, again, rc = confirm(suspects, round)
		if rc != 0 {
			return rc
		}
		if confirmed != nil || !again || time.Since(t0) > limit/2 {
			break
		}
	}

	// The fixed closing step of a check (for example a free-running race pass).
	if confirmed == nil && c.Post != nil {
		if msg := c.Post(tier, cov); msg != "" {
			confirmed = &Violation{Prop: c.Prop, Tier: tier, Family: "post", Msg: msg, Mode: "post"}
		}
	}

	cov["states"] = len(states)
	cov["transitions"] = transitions
	cov["traces_validated_against_impl"] = traces
	cov["exhaustive"] = complete && confirmed == nil
	cov["meaning"] = c.StateIs
	for _, f := range fams {
		if f.Show != nil && f.N > 0 && len(samples) < 8 && per[f.Name] == uint64(f.N) {
			func() {
				defer func() { recover() }()
				s := f.Show(f.N / 2)
				if len(s) > 500 {
					s = s[:500] + "..."
				}
				samples = append(samples, fmt.Sprintf("%s[%d]: %s", f.Name, f.N/2, s))
			}()
		}
	}
	if samples == nil {
		samples = []string{}
	}
	if len(samples) > 8 {
		samples = samples[:8]
	}
	cov["samples"] = samples
	var famInfo []map[string]interface{}
	for _, f := range fams {
		famInfo = append(famInfo, map[string]interface{}{"family": f.Name, "size": f.N, "executed": per[f.Name], "enumerates": f.What})
	}
	cov["families"] = famInfo
	for n, v := range extra {
		cov[n] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	nv := 0
	if confirmed != nil {
		nv = 1
	}
	ev := map[string]interface{}{
		"property": c.Prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": c.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": nv,
	}
	os.MkdirAll(verif+"/evidence", 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs\n", c.Prop, tier, len(states), transitions, traces, cov["exhaustive"], time.Since(t0).Seconds())
	if confirmed != nil {
		if f := findFamily(c, tier, confirmed.Family); f != nil && f.Show != nil {
			func() {
				defer func() { recover() }()
				confirmed.Input = f.Show(confirmed.Index)
			}()
		}
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, c.Prop+".json")
		confirmed.Command = "bash " + verif + "/run.sh replay " + path
		b, _ := json.MarshalIndent(confirmed, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("%s[%d]: %s\n", confirmed.Family, confirmed.Index, confirmed.Msg)
		if confirmed.Input != "" {
			fmt.Println("input:", confirmed.Input)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, path)
		return 1
	}
	return 0
}
