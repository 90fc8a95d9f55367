package harness

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/ti-mo/comfo/zsim/rt"
)

// Replay is a replay file: everything needed to repeat a violating execution exactly.
type Replay struct {
	Property  string      `json:"property"`
	Seed      uint64      `json:"seed"`
	Index     int         `json:"index"`
	Violation Violation   `json:"violation"`
	Hash      string      `json:"hash"`
	Minimised string      `json:"minimised"`
	Faults    any         `json:"faults"`
	Choices   *rt.Choices `json:"choices"`
	Trace     []string    `json:"trace"`
}

type runReport struct {
	Index    int            `json:"i"`
	Seed     uint64         `json:"seed"`
	Hash     uint64         `json:"h"`
	Switch   uint64         `json:"sw"`
	SimNs    int64          `json:"t"`
	Switches uint64         `json:"cs"`
	Preempts uint64         `json:"pe"`
	Steps    uint64         `json:"st"`
	Ops      int            `json:"ops"`
	Inconcl  int            `json:"inc,omitempty"`
	Faults   map[string]int `json:"f,omitempty"`
	Judged   map[string]int `json:"j,omitempty"`
	Note     map[string]int `json:"n,omitempty"`
	Aborted  string         `json:"ab,omitempty"`
	Viols    []Violation    `json:"v,omitempty"`
	Nontriv  bool           `json:"nt"`
	Sample   string         `json:"s,omitempty"`
	Done     bool           `json:"done,omitempty"`
	Ms       int64          `json:"ms"`
}

func (r *Run) report(i int) *runReport {
	return &runReport{Index: i, Seed: r.Seed, Hash: r.W.Hash, Switch: r.W.SwitchHs, SimNs: r.W.Now(), Switches: r.W.Switches, Preempts: r.W.Preempts, Steps: r.W.Steps(),
		Ops: r.Ops, Inconcl: r.Inconclusive, Faults: r.Faults, Judged: r.Judged, Note: r.Note, Aborted: r.Aborted, Viols: r.Viols, Nontriv: r.nontrivial(), Sample: r.Sample}
}

func runSeed(seed uint64, prop string, i int) uint64 {
	return rt.Mix(rt.Mix(seed, prop), fmt.Sprint("run", i))
}

// Main is the command line of the simulator.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simrun check|worker|one|replay|minimise|determinism|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("simrun", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "seed")
	tier := fs.String("tier", "quick", "quick or thorough")
	index := fs.Int("index", 0, "run index")
	stride := fs.Int("stride", 1, "index stride")
	count := fs.Int("count", 0, "total number of runs")
	wall := fs.Int("wall", 0, "wall clock cap in seconds")
	verif := fs.String("verif", "/verif", "where evidence and replays go")
	file := fs.String("file", "", "replay file")
	out := fs.String("out", "", "output file")
	trace := fs.Bool("trace", false, "print the trace")
	workers := fs.Int("workers", 0, "worker processes")
	fs.Parse(os.Args[2:])
	debug.SetGCPercent(400)
	if fs.NArg() > 0 && *file == "" {
		*file = fs.Arg(0)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "worker":
		worker(mustCheck(*prop), *seed, *index, *stride, *count, *wall)
	case "one":
		c := mustCheck(*prop)
		r := newRun(c, runSeed(*seed, *prop, *index), nil, *trace)
		r.execute()
		for _, l := range r.W.Trace {
			fmt.Println(l)
		}
		b, _ := json.Marshal(r.report(*index))
		fmt.Println(string(b))
		for _, v := range r.Viols {
			fmt.Printf("%s: %s\n", v.Class, v.Msg)
		}
	case "minimise":
		minimise(*file, *out, time.Duration(*wall)*time.Second)
	case "replay":
		replay(*file)
	case "check":
		os.Exit(check(mustCheck(*prop), *seed, *tier, *verif, *count, *wall, *workers))
	case "determinism":
		determinism(*seed, *count)
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func mustCheck(id string) *Check {
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		os.Exit(2)
	}
	return c
}

func worker(c *Check, seed uint64, from, stride, count, wall int) {
	runtime.GOMAXPROCS(2)
	debug.SetMemoryLimit(3 << 30)
	enc := json.NewEncoder(os.Stdout)
	end := time.Now().Add(time.Duration(wall) * time.Second)
	for i := from; i < count; i += stride {
		if wall > 0 && time.Now().After(end) {
			break
		}
		t0 := time.Now()
		r := newRun(c, runSeed(seed, c.ID, i), nil, false)
		r.execute()
		rep := r.report(i)
		rep.Ms = time.Since(t0).Milliseconds()
		if i%97 != 0 {
			rep.Sample = ""
		}
		enc.Encode(rep)
	}
	enc.Encode(runReport{Done: true})
}

// execReplay runs recorded choices.
func execReplay(c *Check, seed uint64, ch *rt.Choices, tracing bool) *Run {
	r := newRun(c, seed, ch, tracing)
	r.execute()
	return r
}

func hasClass(r *Run, class string) *Violation {
	for i := range r.Viols {
		if r.Viols[i].Class == class {
			return &r.Viols[i]
		}
	}
	return nil
}

func replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := execReplay(mustCheck(rp.Property), rp.Seed, rp.Choices, true)
	for _, l := range r.W.Trace {
		fmt.Println(l)
	}
	same := fmt.Sprintf("%016x", r.W.Hash) == rp.Hash
	if v := hasClass(r, rp.Violation.Class); v != nil {
		fmt.Printf("reproduced (identical execution: %v): %s: %s\n", same, v.Class, v.Msg)
		os.Exit(1)
	}
	fmt.Printf("not reproduced (identical execution: %v)\n", same)
}

// minimise shrinks the choices of a failing run (file holds a Replay without choices) and writes the replay file.
func minimise(file, out string, budget time.Duration) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rp Replay
	json.Unmarshal(b, &rp)
	c := mustCheck(rp.Property)
	class := rp.Violation.Class
	r := newRun(c, rp.Seed, nil, false)
	r.execute()
	if hasClass(r, class) == nil {
		fmt.Fprintln(os.Stderr, "the failing run did not repeat")
		os.Exit(2)
	}
	best := r.W.Recorded()
	rr := execReplay(c, rp.Seed, best, false)
	if hasClass(rr, class) == nil || rr.W.Hash != r.W.Hash {
		fmt.Fprintf(os.Stderr, "replaying the recorded choices did not repeat the run exactly (%x %x)\n", rr.W.Hash, r.W.Hash)
		os.Exit(2)
	}
	full := sizeOf(best)
	end := time.Now().Add(budget)
	tries := 0
	try := func(ch *rt.Choices) bool {
		if time.Now().After(end) {
			return false
		}
		tries++
		x := execReplay(c, rp.Seed, ch, false)
		if hasClass(x, class) == nil {
			return false
		}
		best = x.W.Recorded()
		trim0(best)
		return true
	}
	for round := 0; round < 4 && time.Now().Before(end); round++ {
		before := sizeOf(best)
		shrinkRound(func() *rt.Choices { return best }, try)
		if sizeOf(best) == before {
			break
		}
	}
	fin := execReplay(c, rp.Seed, best, true)
	v := hasClass(fin, class)
	if v == nil {
		fmt.Fprintln(os.Stderr, "the minimised run did not repeat")
		os.Exit(2)
	}
	rp.Violation, rp.Hash, rp.Choices, rp.Trace, rp.Faults = *v, fmt.Sprintf("%016x", fin.W.Hash), best, fin.W.Trace, fin.Faults
	if len(rp.Trace) > 4000 {
		rp.Trace = append(rp.Trace[:2000:2000], rp.Trace[len(rp.Trace)-2000:]...)
	}
	rp.Minimised = fmt.Sprintf("%d recorded decisions reduced to %d in %d replays", full, sizeOf(best), tries)
	o, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(out, o, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func sizeOf(c *rt.Choices) int {
	n := len(c.Sched) + len(c.Stall) + len(c.Jump)
	for _, s := range c.Streams {
		for _, v := range s {
			if v != 0 {
				n++
			}
		}
	}
	return n
}

func trim0(c *rt.Choices) {
	for n, s := range c.Streams {
		for len(s) > 0 && s[len(s)-1] == 0 {
			s = s[:len(s)-1]
		}
		if len(s) == 0 {
			delete(c.Streams, n)
		} else {
			c.Streams[n] = s
		}
	}
}

func clone(c *rt.Choices) *rt.Choices {
	n := &rt.Choices{Streams: map[string][]int64{}}
	for k, v := range c.Streams {
		n.Streams[k] = append([]int64(nil), v...)
	}
	n.Sched = append([][2]int64(nil), c.Sched...)
	n.Stall = append([][2]int64(nil), c.Stall...)
	n.Jump = append([][2]int64(nil), c.Jump...)
	return n
}

func shrinkRound(cur func() *rt.Choices, try func(*rt.Choices) bool) {
	pairs := func(get func(*rt.Choices) *[][2]int64) {
		n := len(*get(cur()))
		for size := n; size >= 1; size /= 2 {
			for at := 0; at < len(*get(cur())); {
				c := clone(cur())
				l := get(c)
				to := at + size
				if to > len(*l) {
					to = len(*l)
				}
				*l = append(append([][2]int64(nil), (*l)[:at]...), (*l)[to:]...)
				if !try(c) {
					at += size
				}
			}
			if size > 1 && n/size > 256 {
				break
			}
		}
	}
	pairs(func(c *rt.Choices) *[][2]int64 { return &c.Sched })
	pairs(func(c *rt.Choices) *[][2]int64 { return &c.Stall })
	pairs(func(c *rt.Choices) *[][2]int64 { return &c.Jump })
	var names []string
	for n := range cur().Streams {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		// drop the tail, then zero pieces
		l := len(cur().Streams[n])
		for size := l; size >= 1; size /= 2 {
			for at := 0; at < len(cur().Streams[n]); {
				c := clone(cur())
				s := c.Streams[n]
				to := at + size
				if to > len(s) {
					to = len(s)
				}
				any := false
				for k := at; k < to; k++ {
					if s[k] != 0 {
						any = true
					}
					s[k] = 0
				}
				if any {
					trim0(c)
					try(c)
				}
				at += size
			}
			if l/size > 256 {
				break
			}
		}
		// remove single elements (shifts the rest)
		for at := 0; at < len(cur().Streams[n]) && l <= 64; {
			c := clone(cur())
			s := c.Streams[n]
			c.Streams[n] = append(append([]int64(nil), s[:at]...), s[at+1:]...)
			if !try(c) {
				at++
			}
		}
	}
}

type tally struct {
	runs, nontriv, aborted, inconcl, ops int
	simNs                                int64
	switches, preempts, steps            uint64
	faults, judged, note                 map[string]int
	hashes, sws                          map[uint64]bool
	nth                                  map[uint64]bool
	abortMsg                             map[string]int
	samples                              []any
	maxMs                                int64
}

func add(dst, src map[string]int) {
	for k, v := range src {
		dst[k] += v
	}
}

// check explores a property and reports.
func check(c *Check, seed uint64, tier, verif string, count, wall, workers int) int {
	start := time.Now()
	if count == 0 {
		count = c.Quick
		if tier == "thorough" {
			count = c.Thorough
		}
	}
	if wall == 0 {
		wall = 300
		if tier == "thorough" {
			wall = 700
		}
	}
	if workers == 0 {
		workers = runtime.NumCPU()
		if workers > 8 {
			workers = 8
		}
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	t := &tally{faults: map[string]int{}, judged: map[string]int{}, note: map[string]int{}, hashes: map[uint64]bool{}, sws: map[uint64]bool{}, nth: map[uint64]bool{}, abortMsg: map[string]int{}}
	type msg struct {
		rep  *runReport
		w    int
		dead error
	}
	ch := make(chan msg, 256)
	var cmds []*exec.Cmd
	for k := 0; k < workers; k++ {
		cmd := exec.Command(self, "worker", "-prop", c.ID, "-seed", fmt.Sprint(seed), "-index", fmt.Sprint(k), "-stride", fmt.Sprint(workers), "-count", fmt.Sprint(count), "-wall", fmt.Sprint(wall))
		cmd.Stderr = os.Stderr
		p, err := cmd.StdoutPipe()
		if err == nil {
			err = cmd.Start()
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		cmds = append(cmds, cmd)
		go func() {
			sc := bufio.NewScanner(p)
			sc.Buffer(make([]byte, 1<<20), 64<<20)
			done := false
			for sc.Scan() {
				var r runReport
				if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
					continue
				}
				if r.Done {
					done = true
					continue
				}
				ch <- msg{rep: &r, w: k}
			}
			err := cmd.Wait()
			if !done && err == nil {
				err = fmt.Errorf("worker ended early")
			}
			if done {
				err = nil
			}
			ch <- msg{w: k, dead: err}
		}()
	}
	kill := func() {
		for _, cmd := range cmds {
			cmd.Process.Kill()
		}
	}
	defer kill()
	live := workers
	var fail *runReport
	broken := ""
	last := time.Now()
	for live > 0 && fail == nil && broken == "" {
		select {
		case m := <-ch:
			last = time.Now()
			if m.rep == nil {
				live--
				if m.dead != nil {
					broken = fmt.Sprintf("worker %d: %v", m.w, m.dead)
				}
				continue
			}
			r := m.rep
			t.runs++
			t.ops += r.Ops
			t.inconcl += r.Inconcl
			t.simNs += r.SimNs
			t.switches += r.Switches
			t.preempts += r.Preempts
			t.steps += r.Steps
			add(t.faults, r.Faults)
			add(t.judged, r.Judged)
			add(t.note, r.Note)
			t.hashes[r.Hash] = true
			t.sws[r.Switch] = true
			if r.Ms > t.maxMs {
				t.maxMs = r.Ms
			}
			if r.Nontriv {
				t.nontriv++
				t.nth[r.Hash] = true
			}
			if r.Aborted != "" {
				t.aborted++
				if len(t.abortMsg) < 20 {
					t.abortMsg[r.Aborted]++
				}
			}
			if r.Sample != "" && len(t.samples) < 4 {
				t.samples = append(t.samples, map[string]any{"run": r.Index, "seed": r.Seed, "what": strings.Split(r.Sample, "\n"), "faults": r.Faults, "judged": r.Judged})
			}
			if len(r.Viols) > 0 {
				fail = r
			}
		case <-time.After(5 * time.Second):
			if time.Since(last) > 240*time.Second {
				broken = "no run finished within 240s"
			}
		}
	}
	kill()
	viols := 0
	code := 0
	if fail != nil {
		viols = 1
		code = reportViolation(c, seed, verif, self, fail)
	} else if broken != "" {
		fmt.Fprintln(os.Stderr, "check broken:", broken)
		code = 2
	} else if t.runs == 0 || t.aborted*2 > t.runs {
		fmt.Fprintf(os.Stderr, "check gives no answer: %d of %d runs could not be judged: %v\n", t.aborted, t.runs, t.abortMsg)
		code = 2
	}
	el := time.Since(start).Seconds()
	samples := t.samples
	if len(samples) == 0 {
		samples = []any{map[string]any{"run": 0, "seed": runSeed(seed, c.ID, 0)}}
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": el, "violations": viols,
		"assumptions": c.Assume,
		"coverage": map[string]any{
			"evaluations": t.runs, "distinct_nontrivial": len(t.nth), "rule": c.Rule, "samples": samples,
			"simulated_runs": t.runs, "planned_runs": count, "runs_per_hour": float64(t.runs) / el * 3600, "seeds": fmt.Sprintf("run seeds derived from VERIF_SEED=%d, one per run", seed),
			"simulated_seconds": float64(t.simNs) / 1e9, "operations": t.ops, "judged": t.judged, "inconclusive_histories": t.inconcl,
			"aborted_runs": t.aborted, "abort_reasons": t.abortMsg,
			"faults_injected": t.faults, "events": t.note,
			"distinct_executions": len(t.hashes), "distinct_interleavings": len(t.sws),
			"interleaving_measure": "hash over the sequence of (task, program point) at every context switch",
			"context_switches":     t.switches, "preemptions": t.preempts, "yield_points": t.steps,
			"real_components": c.Real, "stub_components": c.Stub, "workers": workers, "slowest_run_ms": t.maxMs,
		},
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if code == 0 {
			code = 2
		}
	}
	fmt.Printf("%s: %d runs (%d distinct, %d judged non-trivial, %d aborted) in %.1fs, %.0fs simulated, %d interleavings, faults %v\n", c.ID, t.runs, len(t.hashes), len(t.nth), t.aborted, el, float64(t.simNs)/1e9, len(t.sws), t.faults)
	return code
}

func reportViolation(c *Check, seed uint64, verif, self string, fail *runReport) int {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	v := fail.Viols[0]
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", c.ID, seed, fail.Index))
	raw := path + ".raw"
	b, _ := json.Marshal(Replay{Property: c.ID, Seed: fail.Seed, Index: fail.Index, Violation: v})
	os.WriteFile(raw, b, 0o644)
	defer os.Remove(raw)
	os.Remove(path)
	ok := false
	for _, budget := range []int{60, 0} {
		m := exec.Command(self, "minimise", "-file", raw, "-out", path, "-wall", fmt.Sprint(budget))
		m.Stderr = os.Stderr
		timer := time.AfterFunc(240*time.Second, func() { m.Process.Kill() })
		err := m.Run()
		timer.Stop()
		if err == nil {
			ok = true
			break
		}
	}
	// in a fresh process, the replay file alone must reproduce the identical execution
	if ok {
		o, _ := exec.Command(self, "replay", "-file", path).CombinedOutput()
		ok = strings.Contains(string(o), "reproduced (identical execution: true)")
	}
	if !ok {
		// the code under test did something whose outcome the simulator does not decide;
		// what was seen is a violation all the same
		os.WriteFile(path, b, 0o644)
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
		fmt.Printf("run seed %d (index %d), NOT REPRODUCED from its seed in a fresh process: the code depends on something outside the simulation\n", fail.Seed, fail.Index)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		return 1
	}
	var rp Replay
	if b, err := os.ReadFile(path); err == nil {
		json.Unmarshal(b, &rp)
	}
	fmt.Printf("%s: %s\n", rp.Violation.Class, rp.Violation.Msg)
	fmt.Printf("run seed %d (index %d), %s\n", fail.Seed, fail.Index, rp.Minimised)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	return 1
}

// determinism runs many seeds of every check twice and compares the executions, also against their own recording.
func determinism(seed uint64, count int) {
	if count == 0 {
		count = 20
	}
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	bad, n := 0, 0
	for _, id := range ids {
		for i := 0; i < count; i++ {
			s := runSeed(seed, id, i)
			a := newRun(checks[id], s, nil, i%2 == 0)
			a.execute()
			b := newRun(checks[id], s, nil, false)
			b.execute()
			rec := a.W.Recorded()
			js, _ := json.Marshal(rec)
			var back rt.Choices
			json.Unmarshal(js, &back)
			c := execReplay(checks[id], s, &back, false)
			n++
			if a.W.Hash != b.W.Hash || a.W.Hash != c.W.Hash || a.W.SwitchHs != c.W.SwitchHs {
				bad++
				fmt.Printf("NOT DETERMINISTIC %s run %d: %x %x %x\n", id, i, a.W.Hash, b.W.Hash, c.W.Hash)
			}
		}
	}
	fmt.Printf("determinism: %d runs of %d checks repeated and replayed, %d differ\n", n, len(ids), bad)
	if bad > 0 {
		os.Exit(1)
	}
}
