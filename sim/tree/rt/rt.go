// Package rt is the simulated runtime that the instrumented copy of comfo runs on: a cooperative scheduler,
// a discrete-event clock and recorded choice streams. Exactly one task runs at any moment; which one is decided
// by the seeded scheduler only. Nothing in here reads a real clock or an unseeded source of randomness.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// Outcome says how a run ended.
type Outcome int

const (
	Finished  Outcome = iota // the controller returned
	Deadlock                 // nothing runnable and no timer pending
	Livelock                 // step budget exceeded without time advancing
	StepLimit                // total step budget exceeded
	TimeLimit                // total simulated time exceeded
)

func (o Outcome) String() string {
	return [...]string{"finished", "deadlock", "livelock", "step-limit", "time-limit"}[o]
}

// Proc groups tasks that live and die together (a server process). Proc 0 is the harness.
type Proc struct {
	ID     int
	Name   string
	Dead   bool
	Exited bool
	Code   int
	// Stalls says whether yield points of this process may be stalled.
	Stalls bool
	// StallName, if set, limits the stalls to tasks with names beginning with it.
	StallName string
	OnExit    func(code int)
	// Signals is the process's use of os/signal.
	Signals any
}

// Task is one simulated goroutine.
type Task struct {
	ID      int
	Name    string
	Proc    *Proc
	wake    chan struct{}
	exited  chan struct{}
	kill    bool
	done    bool
	queued  bool
	reason  string
	prio    uint64
	since   int64
	handed  bool
	site    int32
	lastVal any
	past    ring // the sites passed last
	pastW   ring // those before stores to shared memory
	pastS   ring // those of locks, channels and the like
}

// ring holds the last sites of a kind.
type ring struct {
	l [32]int32
	n uint32
}

func (r *ring) add(site int32) { r.l[r.n%uint32(len(r.l))] = site; r.n++ }

func (r *ring) pick(x uint64, last int) int32 {
	k := uint64(min(r.n, uint32(len(r.l)), uint32(last)))
	return r.l[(r.n-1-uint32(x%k))%uint32(len(r.l))]
}

// ambush is a task that waits until another one passes a site.
type ambush struct {
	t    *Task
	site int32
	hits int
	tmr  *timer // gives up then; nil: when nothing else can run
}

// Crash describes a panic that left a task (which would have ended the real process).
type Crash struct {
	Proc  *Proc
	Task  string
	Value string
	Stack string
	Fatal bool
}

type timer struct {
	when  int64
	seq   uint64
	fn    func()
	index int
	dead  bool
}

// Strategy selects how the scheduler explores.
type Strategy struct {
	Preempt    float64 // probability of a preemption at a yield point
	RandRun    bool    // random (instead of FIFO) choice among runnable tasks on block
	PCT        int     // >0: priority scheduling with that many change points
	PCTLen     int     // expected number of yields, to place the change points
	SyncP      float64 // the same at locks and channel operations
	StallP     float64 // per-yield probability of stalling the running task
	JumpP      float64 // per-yield probability of stalling the whole world (clock jumps over timers)
	StallMx    int64   // longest stall, ns
	AmbushP    float64 // per-yield probability of a stall that ends when another task passes a site the stalled one passed before
	AmbushName string  // only tasks with names beginning with it
	LurkP      float64 // per-yield probability of such a wait that takes no time
}

// Sparse is one recorded non-default decision.
type Sparse struct {
	At  uint64
	Val int64
}

// stallBudget is how long tasks are made to wait in one run, summed up.
const stallBudget = 120e9

// Choices is everything random about a run, in replayable form.
type Choices struct {
	Streams map[string][]int64 `json:"streams"`
	Sched   [][2]int64         `json:"sched"`
	Stall   [][2]int64         `json:"stall,omitempty"`
	Jump    [][2]int64         `json:"jump,omitempty"`
}

type stream struct {
	rng rng
	rec []int64
	pos int
}

// World is one simulated execution.
type World struct {
	mapBusy map[unsafe.Pointer]any // maps being written
	Seed    uint64
	now     int64
	wallOff int64
	seq     uint64
	steps   uint64
	stepsAt uint64
	lastNow int64

	NoGen        bool // no preemption points in generated code
	MaxSteps     uint64
	MaxStepsTick uint64
	MaxNow       int64

	cur   *Task
	runq  []*Task
	tasks []*Task
	tmr   []*timer
	chans map[uintptr]*chanState
	procs []*Proc

	strat    Strategy
	schedRng rng
	schedIdx uint64
	changeAt map[uint64]bool
	lowPrio  uint64
	ambushes []*ambush
	forced   *Task // came out of its ambush just now
	Stalled  int64 // time tasks were made to wait, summed up

	replay  *Choices
	streams map[string]*stream
	rec     Choices
	rp      [3]int // replay cursors for sched, stall, jump
	yieldIx uint64

	over    bool
	reaping bool
	outcome Outcome
	endCh   chan struct{}

	Hash     uint64 // rolling hash over every event of the run
	SwitchHs uint64 // rolling hash over context switches only (interleaving identity)
	Switches uint64
	Preempts uint64
	Stalls   uint64
	Ambushes uint64
	atSync   bool
	Jumps    uint64

	Crashes []Crash

	tracing bool
	Trace   []string
}

// W is the current world; nil outside of a run.
var W *World

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *rng) float() float64 { return float64(r.next()>>11) / (1 << 53) }

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Mix derives a new seed from a seed and a label.
func Mix(seed uint64, label string) uint64 {
	r := rng{seed ^ hashString(label)*0x9E3779B97F4A7C15}
	r.next()
	return r.next()
}

// NewWorld makes a world for a seed; with replay set, all choices come from it instead of the seed.
func NewWorld(seed uint64, replay *Choices, tracing bool) *World {
	w := &World{Seed: seed, replay: replay, tracing: tracing,
		chans: map[uintptr]*chanState{}, streams: map[string]*stream{},
		endCh: make(chan struct{}, 1), MaxSteps: 300_000_000, MaxStepsTick: 60_000_000, MaxNow: 24 * 3600 * 1e9,
		schedRng: rng{Mix(seed, "sched")}}
	w.rec.Streams = map[string][]int64{}
	w.procs = []*Proc{{Name: "harness"}}
	w.now = 1
	w.Hash, w.SwitchHs = 14695981039346656037, 14695981039346656037
	return w
}

// SetStrategy configures the scheduler; call it first thing in a run.
func (w *World) SetStrategy(s Strategy) {
	w.strat = s
	if s.PCT > 0 {
		w.changeAt = map[uint64]bool{}
		n := s.PCTLen
		if n < 10 {
			n = 10
		}
		for i := 0; i < s.PCT; i++ {
			w.changeAt[w.schedRng.next()%uint64(n)] = true
		}
		w.lowPrio = 1 << 20
	}
	for _, t := range w.tasks {
		w.assignPrio(t)
	}
}

func (w *World) assignPrio(t *Task) {
	if w.strat.PCT > 0 {
		t.prio = w.schedRng.next()>>1 | 1<<40
	}
}

// Recorded returns the choices made in this run.
func (w *World) Recorded() *Choices {
	c := w.rec
	c.Streams = map[string][]int64{}
	for n, s := range w.streams {
		c.Streams[n] = s.rec
	}
	return &c
}

// Rng is a raw generator for values drawn lazily from a recorded stream.
func (w *World) draw(name string, f func(r *rng) int64, clamp func(int64) int64) int64 {
	s := w.streams[name]
	if s == nil {
		s = &stream{rng: rng{Mix(w.Seed, "stream:"+name)}}
		w.streams[name] = s
	}
	var v int64
	if w.replay != nil {
		l := w.replay.Streams[name]
		if s.pos < len(l) {
			v = clamp(l[s.pos])
		}
		s.pos++
	} else {
		v = f(&s.rng)
	}
	s.rec = append(s.rec, v)
	w.mixHash(uint64(v) + 0x51)
	return v
}

// Choose draws a value in [0,n) from a stream; 0 is the simplest choice.
func (w *World) Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(w.draw(name, func(r *rng) int64 { return int64(r.next() % uint64(n)) },
		func(v int64) int64 { return ((v % int64(n)) + int64(n)) % int64(n) }))
}

// Chance draws true with probability p; false is the simplest choice.
func (w *World) Chance(name string, p float64) bool {
	return w.draw(name, func(r *rng) int64 {
		if r.float() < p {
			return 1
		}
		return 0
	}, func(v int64) int64 { return v & 1 }) == 1
}

// Pick draws an index with the given weights; index 0 is the simplest choice.
func (w *World) Pick(name string, weights ...float64) int {
	tot := 0.0
	for _, x := range weights {
		tot += x
	}
	n := int64(len(weights))
	return int(w.draw(name, func(r *rng) int64 {
		x := r.float() * tot
		for i, y := range weights {
			if x -= y; x < 0 {
				return int64(i)
			}
		}
		return 0
	}, func(v int64) int64 { return ((v % n) + n) % n }))
}

// Range draws a value in [lo,hi], lo being the simplest.
func (w *World) Range(name string, lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	n := hi - lo + 1
	return lo + w.draw(name, func(r *rng) int64 { return int64(r.next() % uint64(n)) },
		func(v int64) int64 { return ((v % n) + n) % n })
}

// LogRange draws from [lo,hi] with roughly uniform magnitude.
func (w *World) LogRange(name string, lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	span := hi - lo
	bits := 0
	for x := span; x > 0; x >>= 1 {
		bits++
	}
	return lo + w.draw(name, func(r *rng) int64 {
		b := int(r.next() % uint64(bits+1))
		if b == 0 {
			return 0
		}
		v := int64(r.next() & (1<<uint(b) - 1))
		if v > span {
			v = span
		}
		return v
	}, func(v int64) int64 {
		if v < 0 {
			v = -v
		}
		return v % (span + 1)
	})
}

func (w *World) mixHash(x uint64) { w.Hash = (w.Hash ^ x) * 1099511628211 }

// Event stamps an event with the global sequence number, folds it into the run hash, and traces it.
func (w *World) Event(kind string, format string, args ...any) uint64 {
	w.seq++
	w.mixHash(hashString(kind) ^ uint64(w.now))
	if w.tracing {
		name := "-"
		if w.cur != nil {
			name = w.cur.label()
		}
		w.Trace = append(w.Trace, fmt.Sprintf("%12.6fs #%d [%s] %s %s", float64(w.now)/1e9, w.seq, name, kind, fmt.Sprintf(format, args...)))
	}
	return w.seq
}

// Fold adds data to the run hash.
func (w *World) Fold(b []byte) {
	for _, c := range b {
		w.Hash = (w.Hash ^ uint64(c)) * 1099511628211
	}
}

func (t *Task) label() string { return fmt.Sprintf("t%d %s", t.ID, t.Name) }

// Tracing reports whether a textual trace is being kept.
func (w *World) Tracing() bool { return w.tracing }

// Now is the simulated monotonic clock in ns.
func (w *World) Now() int64 { return w.now }

// Seq is the current event sequence number.
func (w *World) Seq() uint64 { return w.seq }

// Steps is the number of yield points passed.
func (w *World) Steps() uint64 { return w.steps }

// WallOffset is the accumulated wall-clock jump.
func (w *World) WallOffset() int64 { return w.wallOff }

// JumpWall moves the wall clock without touching the monotonic clock.
func (w *World) JumpWall(d int64) {
	w.wallOff += d
	w.Event("fault", "wall clock jumps by %dms", d/1e6)
}

// NewProc makes a process group.
func (w *World) NewProc(name string) *Proc {
	p := &Proc{ID: len(w.procs), Name: name}
	w.procs = append(w.procs, p)
	return p
}

// CurProc is the process of the running task.
func (w *World) CurProc() *Proc {
	if w.cur == nil {
		return w.procs[0]
	}
	return w.cur.Proc
}

// CurTaskID identifies the running task.
func (w *World) CurTaskID() int {
	if w.cur == nil {
		return -1
	}
	return w.cur.ID
}

// Spawn starts a task in a process.
func (w *World) Spawn(p *Proc, name string, fn func()) *Task {
	t := &Task{ID: len(w.tasks), Name: name, Proc: p, wake: make(chan struct{}, 1), exited: make(chan struct{})}
	w.tasks = append(w.tasks, t)
	w.assignPrio(t)
	go func() {
		<-t.wake
		defer close(t.exited)
		if t.kill {
			return
		}
		normal := false
		defer func() {
			if w.reaping || t.kill {
				recover()
				return
			}
			if !normal {
				if r := recover(); r != nil {
					w.crash(t, r, false)
				}
			}
			t.done = true
			w.switchFrom(t)
		}()
		fn()
		normal = true
	}()
	if !p.Dead {
		w.ready(t)
	}
	return t
}

// HarnessBug is the panic value for errors of the harness itself.
type HarnessBug struct{ Msg string }

func (w *World) crash(t *Task, r any, fatal bool) {
	st := string(debug.Stack())
	if hb, ok := r.(HarnessBug); ok {
		panic("harness bug: " + hb.Msg + "\n" + st)
	}
	w.Crashes = append(w.Crashes, Crash{Proc: t.Proc, Task: t.Name, Value: fmt.Sprint(r), Stack: trimStack(st), Fatal: fatal})
	w.Event("crash", "panic in %s: %v", t.Name, r)
	w.KillProc(t.Proc, 2)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "comfo/") && !strings.Contains(lines[i], "/zsim/rt.") && !strings.HasPrefix(lines[i], "\t") {
			out = append(out, lines[i])
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, " <- ")
}

// Fatal is an unrecoverable runtime error (like unlocking an unlocked mutex).
func Fatal(msg string) {
	w := W
	if w == nil || w.cur == nil || w.reaping {
		return
	}
	w.crash(w.cur, "fatal error: "+msg, true)
	w.parkForever()
}

// KillProc ends a process at once: none of its tasks ever runs again.
func (w *World) KillProc(p *Proc, code int) {
	if p.Dead {
		return
	}
	if p.ID == 0 {
		// a panic in a harness task (library caller): only that task dies
		return
	}
	p.Dead, p.Exited, p.Code = true, true, code
	keep := w.runq[:0]
	for _, t := range w.runq {
		if t.Proc != p {
			keep = append(keep, t)
		} else {
			t.queued = false
		}
	}
	w.runq = keep
	if p.OnExit != nil {
		p.OnExit(code)
	}
}

// Exit ends the process of the running task (os.Exit).
func Exit(code int) {
	w := W
	if w == nil || w.cur == nil {
		panic(HarnessBug{"os.Exit outside of the simulation"})
	}
	w.Event("exit", "process %s exits with status %d", w.cur.Proc.Name, code)
	w.KillProc(w.cur.Proc, code)
	w.parkForever()
}

func (w *World) parkForever() {
	for {
		w.Park("dead")
	}
}

// Go implements the go statement.
func Go(fn func()) {
	w := W
	if w == nil || w.cur == nil {
		panic(HarnessBug{"go statement outside of the simulation"})
	}
	if w.reaping {
		return
	}
	t := w.Spawn(w.cur.Proc, fmt.Sprintf("go@%s", SiteName(w.cur.site)), fn)
	w.Event("go", "starts t%d", t.ID)
	yield(w, 1)
}

// Run executes the controller in a fresh task and drives the world until it returns.
func (w *World) Run(controller func()) Outcome {
	if W != nil {
		panic(HarnessBug{"nested world"})
	}
	W = w
	w.Spawn(w.procs[0], "controller", func() {
		controller()
		w.finish(Finished)
		w.parkForever()
	})
	w.switchFrom(nil)
	<-w.endCh
	// Reap: wake every remaining goroutine with its kill flag set, one at a time.
	w.reaping = true
	for i := 0; i < len(w.tasks); i++ {
		t := w.tasks[i]
		if t.done {
			continue
		}
		t.kill = true
		t.wake <- struct{}{}
		<-t.exited
	}
	W = nil
	return w.outcome
}

func (w *World) finish(o Outcome) {
	if !w.over {
		w.over = true
		w.outcome = o
		w.endCh <- struct{}{}
	}
}

func (w *World) ready(t *Task) {
	if t.queued || t.done || t.Proc.Dead {
		return
	}
	t.queued = true
	w.runq = append(w.runq, t)
}

// switchFrom gives the processor to the next task. me is nil (start), done, or blocked.
func (w *World) switchFrom(me *Task) {
	next := w.next(nil)
	if next == nil {
		return // run is over
	}
	w.start(next)
}

func (w *World) start(next *Task) {
	w.cur = next
	w.Switches++
	x := uint64(next.ID)<<32 | uint64(uint32(next.site))
	w.mixHash(x)
	w.SwitchHs = (w.SwitchHs ^ x) * 1099511628211
	next.wake <- struct{}{}
}

// next chooses the next task to run, advancing time when necessary. cur is non-nil when the current task could go on.
func (w *World) next(cur *Task) *Task {
	for {
		if w.over {
			return nil
		}
		w.fireDue(len(w.runq) == 0 && cur == nil)
		n := len(w.runq)
		if cur != nil {
			if n == 0 {
				return cur
			}
			k := w.schedChoice(n+1, true)
			if k == 0 {
				return cur
			}
			t := w.take(k - 1)
			w.Preempts++
			w.ready(cur)
			return t
		}
		if n > 0 {
			return w.take(w.schedChoice(n, false))
		}
		if w.endLurk() {
			continue
		}
		// idle: jump to the next timer
		for len(w.tmr) > 0 && w.tmr[0].dead {
			w.popTimer()
		}
		if len(w.tmr) == 0 {
			w.finish(Deadlock)
			return nil
		}
		if w.tmr[0].when > w.now {
			if w.tmr[0].when > w.MaxNow {
				w.finish(TimeLimit)
				return nil
			}
			w.now = w.tmr[0].when
			w.stepsAt = w.steps
		}
	}
}

func (w *World) take(i int) *Task {
	t := w.runq[i]
	copy(w.runq[i:], w.runq[i+1:])
	w.runq = w.runq[:len(w.runq)-1]
	t.queued = false
	return t
}

// schedChoice picks among n candidates; in yield mode candidate 0 is the running task.
func (w *World) schedChoice(n int, isYield bool) int {
	if n <= 1 {
		return 0
	}
	ix := w.schedIdx
	w.schedIdx++
	v := 0
	if w.replay != nil {
		l := w.replay.Sched
		for w.rp[0] < len(l) && uint64(l[w.rp[0]][0]) < ix {
			w.rp[0]++
		}
		if w.rp[0] < len(l) && uint64(l[w.rp[0]][0]) == ix {
			v = int(l[w.rp[0]][1] % int64(n))
		}
	} else {
		if f := w.forced; f != nil && isYield {
			w.forced = nil
			for i, t := range w.runq {
				if t == f {
					w.rec.Sched = append(w.rec.Sched, [2]int64{int64(ix), int64(i + 1)})
					return i + 1
				}
			}
		}
		switch {
		case w.strat.PCT > 0:
			if w.changeAt[ix] && w.cur != nil {
				w.lowPrio--
				w.cur.prio = w.lowPrio
			}
			var best uint64
			for i := 0; i < n; i++ {
				t := w.cur
				if isYield {
					if i > 0 {
						t = w.runq[i-1]
					}
				} else {
					t = w.runq[i]
				}
				if t.prio > best {
					best, v = t.prio, i
				}
			}
		case isYield:
			if w.schedRng.float() < w.strat.Preempt {
				v = 1 + int(w.schedRng.next()%uint64(n-1))
			}
		case w.strat.RandRun:
			v = int(w.schedRng.next() % uint64(n))
		}
	}
	if v != 0 {
		w.rec.Sched = append(w.rec.Sched, [2]int64{int64(ix), int64(v)})
	}
	return v
}

// Park blocks the running task until somebody calls Ready on it.
func (w *World) Park(reason string) {
	me := w.cur
	if w.reaping {
		runtime.Goexit()
	}
	me.reason = reason
	next := w.next(nil)
	if next == me {
		// became runnable while choosing (a timer fired)
		w.cur = me
		return
	}
	if next != nil {
		w.start(next)
	}
	<-me.wake
	if me.kill {
		runtime.Goexit()
	}
}

// Cur is the running task.
func (w *World) Cur() *Task { return w.cur }

// Ready makes a parked task runnable.
func (w *World) Ready(t *Task) { w.ready(t) }

// Reaping reports that the run is over and goroutines are being unwound.
func (w *World) Reaping() bool { return w.reaping }

// Dead reports whether the calling goroutine is being unwound or belongs to a dead process.
func dead(w *World) bool { return w == nil || w.cur == nil || w.reaping }

// Yield is a preemption point in instrumented code.
func Yield(site int32) {
	w := W
	if w == nil || w.cur == nil || w.reaping {
		if w != nil && w.reaping && w.cur != nil {
			return
		}
		return
	}
	w.cur.site = site
	yield(w, site)
}

// YieldW is the preemption point before a store to shared memory.
func YieldW(site int32) {
	if w := W; w != nil && w.cur != nil && !w.reaping {
		w.cur.pastW.add(site)
	}
	Yield(site)
}

// YieldGen is a preemption point in generated code.
func YieldGen(site int32) {
	if w := W; w != nil && !w.NoGen {
		Yield(site)
	}
}

// Y is a preemption point after evaluating an expression that reads shared memory.
func Y[T any](v T, site int32) T {
	Yield(site)
	return v
}

// syncYield is the preemption point of an operation that synchronises tasks: stalls are most telling there.
func syncYield(w *World) {
	w.atSync = true
	yield(w, w.cur.site)
}

func yield(w *World, site int32) {
	atSync := w.atSync
	w.atSync = false
	w.steps++
	if w.steps >= w.MaxSteps {
		w.finish(StepLimit)
		w.parkForever()
	}
	if w.steps-w.stepsAt >= w.MaxStepsTick {
		w.finish(Livelock)
		w.parkForever()
	}
	me := w.cur
	if len(w.ambushes) > 0 {
		w.spring(me, site)
	}
	me.past.add(site)
	if atSync {
		me.pastS.add(site)
	}
	w.yieldIx++
	if me.Proc.Stalls && w.Stalled < stallBudget && strings.HasPrefix(me.Name, me.Proc.StallName) {
		p := w.strat.StallP
		if atSync {
			p = max(p, w.strat.SyncP)
		}
		amb := 0.0
		if w.strat.AmbushP > 0 && strings.HasPrefix(me.Name, w.strat.AmbushName) {
			amb = w.strat.AmbushP
		}
		if d := w.stall(p, w.strat.LurkP, amb); d > 0 {
			w.Stalls++
			w.Stalled += d
			w.Event("fault", "task stalled for %dus at %s", d/1000, SiteName(site))
			w.sleep(d)
			return
		} else if d < 0 {
			w.lieInWait(me, d)
			return
		}
		if d := w.sparse(2, w.strat.JumpP); d > 0 {
			w.Jumps++
			w.Stalled += d
			w.now += d
			w.Event("fault", "process stalled for %dus at %s", d/1000, SiteName(site))
		}
	} else if w.strat.LurkP > 0 || w.replay != nil {
		if d := w.stall(0, w.strat.LurkP, 0); d < 0 {
			w.lieInWait(me, d)
			return
		}
	}
	if len(w.runq) == 0 && (len(w.tmr) == 0 || w.tmr[0].when > w.now) {
		return
	}
	next := w.next(me)
	if next == me {
		return
	}
	if next != nil {
		w.start(next)
	}
	<-me.wake
	if me.kill {
		runtime.Goexit()
	}
}

// stall decides whether the running task stops here: a duration, a packed ambush, or 0.
func (w *World) stall(p, lurk, amb float64) int64 {
	if w.replay == nil && lurk+amb > 0 {
		x := w.schedRng.float()
		if x < lurk+amb {
			d := w.drawAmbush(x >= lurk)
			if d != 0 {
				w.recSparse(1, d)
			}
			return d
		}
	}
	return w.sparse(1, p)
}

// sparse handles the rare per-yield faults (1 stall, 2 jump); it returns the duration or 0.
func (w *World) sparse(which int, p float64) int64 {
	if w.replay != nil {
		l := w.replay.Stall
		if which == 2 {
			l = w.replay.Jump
		}
		for w.rp[which] < len(l) && uint64(l[w.rp[which]][0]) < w.yieldIx {
			w.rp[which]++
		}
		if w.rp[which] < len(l) && uint64(l[w.rp[which]][0]) == w.yieldIx {
			d := l[w.rp[which]][1]
			w.recSparse(which, d)
			return d
		}
		return 0
	}
	if p <= 0 || w.schedRng.float() >= p {
		return 0
	}
	mx := w.strat.StallMx
	if mx <= 0 {
		mx = 1e9
	}
	b := w.schedRng.next() % 21
	d := int64(1000) << b
	d += int64(w.schedRng.next() % uint64(d))
	if d > mx {
		d = mx
	}
	w.recSparse(which, d)
	return d
}

// drawAmbush chooses a site the running task passed lately, how many passages of another task to let go, and the
// longest wait; the three are packed into a negative number (0 if the task passed nothing yet).
func (w *World) drawAmbush(timed bool) int64 {
	me := w.cur
	if me.past.n == 0 {
		return 0
	}
	var site int32
	switch x := w.schedRng.next(); {
	case x%5 < 2 && me.pastW.n > 0:
		site = me.pastW.pick(x/5, 12)
	case x%5 == 2 && me.pastS.n > 0:
		site = me.pastS.pick(x/5, 6)
	default:
		site = me.past.pick(x/5, 32)
	}
	hits := int64(0)
	for hits < 3 && w.schedRng.next()%4 == 0 {
		hits++
	}
	ms := int64(0)
	if timed {
		ms = min(int64(1)<<(w.schedRng.next()%12), max(w.strat.StallMx/1e6, 100))
	}
	return -(int64(site)<<22 | hits<<20 | ms)
}

// lieInWait stalls the running task until another one passes the site.
func (w *World) lieInWait(me *Task, d int64) {
	d = -d
	a := &ambush{t: me, site: int32(d >> 22), hits: int(d >> 20 & 3)}
	ms := d & (1<<20 - 1)
	from := w.now
	w.Ambushes++
	w.Event("fault", "task waits at %s for another one to pass %s (%d)", SiteName(me.site), SiteName(a.site), a.hits)
	w.ambushes = append(w.ambushes, a)
	if ms > 0 {
		a.tmr = w.After(ms*1e6, func() { w.leave(a); w.ready(me) })
	}
	w.Park("sleep")
	w.Stalled += w.now - from
}

func (w *World) leave(a *ambush) {
	for i, x := range w.ambushes {
		if x == a {
			w.ambushes = append(w.ambushes[:i], w.ambushes[i+1:]...)
			return
		}
	}
}

// spring wakes a task that waits for the running one to pass this site.
func (w *World) spring(me *Task, site int32) {
	for _, a := range w.ambushes {
		if a.site != site || a.t == me {
			continue
		}
		if a.hits > 0 {
			a.hits--
			continue
		}
		w.leave(a)
		if a.tmr != nil {
			w.StopTimer(a.tmr)
		}
		w.ready(a.t)
		w.forced = a.t
		return
	}
}

// endLurk wakes a task whose ambush takes no time.
func (w *World) endLurk() bool {
	for _, a := range w.ambushes {
		if a.tmr == nil {
			w.leave(a)
			w.ready(a.t)
			return true
		}
	}
	return false
}

func (w *World) recSparse(which int, d int64) {
	e := [2]int64{int64(w.yieldIx), d}
	if which == 1 {
		w.rec.Stall = append(w.rec.Stall, e)
	} else {
		w.rec.Jump = append(w.rec.Jump, e)
	}
}

// timers ---------------------------------------------------------------------

func (w *World) less(a, b *timer) bool {
	if a.when != b.when {
		return a.when < b.when
	}
	return a.seq < b.seq
}

// After schedules fn to run (outside of any task; it must not block) at now+d.
func (w *World) After(d int64, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	w.seq++
	t := &timer{when: w.now + d, seq: w.seq, fn: fn}
	w.push(t)
	return t
}

func (w *World) push(t *timer) {
	w.tmr = append(w.tmr, t)
	i := len(w.tmr) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !w.less(w.tmr[i], w.tmr[p]) {
			break
		}
		w.tmr[i], w.tmr[p] = w.tmr[p], w.tmr[i]
		i = p
	}
}

func (w *World) popTimer() *timer {
	t := w.tmr[0]
	n := len(w.tmr) - 1
	w.tmr[0] = w.tmr[n]
	w.tmr[n] = nil
	w.tmr = w.tmr[:n]
	i := 0
	for {
		l, r, m := 2*i+1, 2*i+2, i
		if l < n && w.less(w.tmr[l], w.tmr[m]) {
			m = l
		}
		if r < n && w.less(w.tmr[r], w.tmr[m]) {
			m = r
		}
		if m == i {
			break
		}
		w.tmr[i], w.tmr[m] = w.tmr[m], w.tmr[i]
		i = m
	}
	return t
}

// Stop cancels a timer; it reports whether it was still pending.
func (w *World) StopTimer(t *timer) bool {
	if t == nil || t.dead {
		return false
	}
	t.dead = true
	return true
}

// Timer is an opaque handle for a pending timer.
type Timer = timer

// fireDue fires timers that are due. Simultaneous timers may be split by tasks running in between.
func (w *World) fireDue(force bool) {
	first := true
	for len(w.tmr) > 0 && w.tmr[0].when <= w.now {
		if w.tmr[0].dead {
			w.popTimer()
			continue
		}
		if !(force && first) && (len(w.runq) > 0 || !force) {
			if w.Chance("tmr", 0.3) {
				return
			}
		}
		first = false
		t := w.popTimer()
		t.dead = true
		w.mixHash(t.seq)
		t.fn()
	}
}

func (w *World) sleep(d int64) {
	me := w.cur
	w.After(d, func() { w.ready(me) })
	w.Park("sleep")
}

// Sleep blocks the running task for d ns of simulated time.
func Sleep(d int64) {
	w := W
	if dead(w) {
		return
	}
	if d <= 0 {
		yield(w, w.cur.site)
		return
	}
	w.sleep(d)
}

// WaitQ is a queue of parked tasks.
type WaitQ struct{ q []*Task }

// Wait parks the running task on the queue.
func (q *WaitQ) Wait(w *World, reason string) {
	q.q = append(q.q, w.cur)
	w.Park(reason)
}

// WaitUntil parks until woken or until the deadline (absolute ns); it reports false on timeout.
func (q *WaitQ) WaitUntil(w *World, reason string, deadline int64) bool {
	me := w.cur
	timedOut := false
	q.q = append(q.q, me)
	t := w.After(deadline-w.now, func() {
		if q.remove(me) {
			timedOut = true
			w.ready(me)
		}
	})
	w.Park(reason)
	w.StopTimer(t)
	return !timedOut
}

func (q *WaitQ) remove(t *Task) bool {
	for i, x := range q.q {
		if x == t {
			q.q = append(q.q[:i], q.q[i+1:]...)
			return true
		}
	}
	return false
}

// WakeAll makes every waiter runnable.
func (q *WaitQ) WakeAll(w *World) {
	for _, t := range q.q {
		w.ready(t)
	}
	q.q = nil
}

// WakeOne makes the longest-waiting live task runnable.
func (q *WaitQ) WakeOne(w *World) bool {
	for len(q.q) > 0 {
		t := q.q[0]
		q.q = q.q[1:]
		if !t.Proc.Dead && !t.done {
			w.ready(t)
			return true
		}
	}
	return false
}

// Len is the number of waiters.
func (q *WaitQ) Len() int { return len(q.q) }

// Blocked lists parked tasks and what they wait for.
func (w *World) Blocked() []string {
	var out []string
	for _, t := range w.tasks {
		if !t.done && !t.queued && t != w.cur && !t.Proc.Dead {
			out = append(out, fmt.Sprintf("%s: %s at %s", t.label(), t.reason, SiteName(t.site)))
		}
	}
	sort.Strings(out)
	return out
}

// LiveTasks counts the live tasks of a process started by go statements.
func (w *World) LiveTasks(match func(name string) bool) int {
	n := 0
	for _, t := range w.tasks {
		if !t.done && !t.Proc.Dead && match(t.Name) {
			n++
		}
	}
	return n
}

// Tasks counts the live tasks of a process.
func (w *World) Tasks(p *Proc) int {
	n := 0
	for _, t := range w.tasks {
		if !t.done && t.Proc == p {
			n++
		}
	}
	return n
}

var (
	siteNames = map[int32]string{}
	// SiteHits counts visits per site when enabled.
)

// RegisterSites is called by generated code.
func RegisterSites(base int32, names []string) {
	for i, n := range names {
		siteNames[base+int32(i)] = n
	}
}

// SiteName maps a site id to file:line.
func SiteName(s int32) string {
	if n, ok := siteNames[s]; ok {
		return n
	}
	return fmt.Sprintf("site%d", s)
}
