package harness

import (
	"fmt"
	"sort"

	"github.com/ti-mo/comfo/zsim/rt"
)

// Violation is one observed breach of a property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
}

// Run is one simulated execution of one check.
type Run struct {
	Check *Check
	Seed  uint64
	W     *rt.World

	Ops          int
	Inconclusive int
	Faults       map[string]int
	FaultSeqs    []uint64 // when the line was disturbed
	FaultTs      []int64
	Judged       map[string]int
	Viols        []Violation
	Aborted      string
	Note         map[string]int
	Sample       string
}

// Check decides one property.
type Check struct {
	ID       string
	Quick    int // simulated runs
	Thorough int
	Rule     string
	Stub     []string
	Real     []string
	CrashBad bool // a crash breaks the property
	StuckBad bool // a hang breaks the property
	Assume   []string
	Note     string
	Body     func(r *Run)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func newRun(c *Check, seed uint64, replay *rt.Choices, tracing bool) *Run {
	return &Run{Check: c, Seed: seed, W: rt.NewWorld(seed, replay, tracing), Faults: map[string]int{}, Judged: map[string]int{}, Note: map[string]int{}}
}

// execute performs the run.
func (r *Run) execute() { r.Check.Body(r) }

// Simulate runs the controller in the world; it reports false if the run cannot be judged further.
func (r *Run) Simulate(controller func()) bool {
	out := r.W.Run(controller)
	for _, c := range r.W.Crashes {
		r.Crash("%s: %s [%s]", c.Task, c.Value, c.Stack)
	}
	if out != rt.Finished {
		r.Stuck("%s at %.3fs: %v", out, float64(r.W.Now())/1e9, r.W.Blocked())
	}
	r.Faults["task stalled"] += int(r.W.Stalls)
	r.Note["ambushes"] += int(r.W.Ambushes)
	r.Faults["process stalled"] += int(r.W.Jumps)
	for k, v := range r.Faults {
		if v == 0 {
			delete(r.Faults, k)
		}
	}
	return r.Aborted == ""
}

// Fault counts an injected fault.
func (r *Run) Fault(kind string) {
	r.Faults[kind]++
	r.FaultSeqs = append(r.FaultSeqs, r.W.Seq())
	r.FaultTs = append(r.FaultTs, r.W.Now())
}

// Inject counts an injected event that does not disturb the line.
func (r *Run) Inject(kind string) { r.Faults[kind]++ }

// Judge counts something the oracle decided on.
func (r *Run) Judge(kind string) { r.Judged[kind]++ }

// Violate reports a breach.
func (r *Run) Violate(class, format string, args ...any) {
	if len(r.Viols) < 20 {
		r.Viols = append(r.Viols, Violation{class, fmt.Sprintf(format, args...)})
	}
}

// Crash reports a crash of the code under test.
func (r *Run) Crash(format string, args ...any) {
	m := fmt.Sprintf(format, args...)
	if r.Check.CrashBad {
		r.Violate("crash", "%s", m)
	}
	r.Aborted = "crash: " + m
}

// Stuck reports that the code under test hangs.
func (r *Run) Stuck(format string, args ...any) {
	m := fmt.Sprintf(format, args...)
	if r.Check.StuckBad {
		r.Violate("stuck", "%s", m)
	}
	r.Aborted = "stuck: " + m
}

// strategy draws how this run explores the schedule.
func (r *Run) strategy(stalls, jumps bool, ambush string) {
	w := r.W
	s := rt.Strategy{}
	switch w.Pick("strategy", 1, 2, 3, 2, 2, 2) {
	case 1:
		s.RandRun = true
	case 2:
		s.Preempt, s.RandRun = 0.02, true
	case 3:
		s.Preempt, s.RandRun = 0.1, true
	case 4:
		s.Preempt, s.RandRun = 0.3, true
	case 5:
		s.PCT = 1 + w.Choose("strategy", 3)
		s.PCTLen = int(w.LogRange("strategy", 100, 20000))
	}
	if stalls && w.Chance("strategy", 0.6) {
		s.StallP = []float64{0.0003, 0.002, 0.01}[w.Choose("strategy", 3)]
		if w.Chance("strategy", 0.5) {
			s.SyncP = []float64{0.01, 0.05, 0.15}[w.Choose("strategy", 3)]
			if w.Chance("strategy", 0.5) {
				s.StallP = 0
			}
		}
		s.StallMx = w.LogRange("strategy", 1*ms, 4*sec)
		if jumps && w.Chance("strategy", 0.3) {
			s.JumpP = max(s.StallP, s.SyncP/20) / 4
		}
		if w.Chance("strategy", 0.5) {
			s.AmbushP = []float64{0.002, 0.01, 0.03}[w.Choose("strategy", 3)]
			if ambush != "" && w.Chance("strategy", 0.7) {
				s.AmbushName = ambush
				if w.Chance("strategy", 0.5) {
					s.StallP, s.SyncP, s.JumpP = 0, 0, 0
				}
			}
		}
	}
	if w.Chance("strategy", 0.25) {
		s.LurkP = []float64{0.0005, 0.005, 0.03}[w.Choose("strategy", 3)]
	}
	w.SetStrategy(s)
}

// deadline is a time limit that grows by the time the scheduler makes tasks wait.
type deadline struct {
	w       *rt.World
	at, had int64
}

func (r *Run) deadline(d int64) *deadline { return &deadline{r.W, r.W.Now() + d, r.W.Stalled} }

func (d *deadline) end() int64 {
	d.at += d.w.Stalled - d.had
	d.had = d.w.Stalled
	return d.at
}

// wait waits until woken; it reports false once the limit is over.
func (d *deadline) wait(q *rt.WaitQ, reason string) bool {
	for {
		if q.WaitUntil(d.w, reason, d.end()) {
			return true
		}
		if d.w.Now() >= d.end() {
			return false
		}
	}
}

func (r *Run) nontrivial() bool {
	n := 0
	for _, v := range r.Judged {
		n += v
	}
	return n > 0 && r.Aborted == ""
}

func sortBy[T any](s []T, less func(a, b T) bool) {
	sort.SliceStable(s, func(i, j int) bool { return less(s[i], s[j]) })
}
