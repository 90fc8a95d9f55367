package rt

import (
	"time"
	"unsafe"
)

// Mutex is a simulated mutual exclusion lock: barging allowed, hand-off to waiters that starve for over 1ms.
type Mutex struct {
	locked bool
	q      []*Task
}

func pruneQ(q []*Task) []*Task {
	out := q[:0]
	for _, t := range q {
		if !t.Proc.Dead && !t.done {
			out = append(out, t)
		}
	}
	return out
}

func (m *Mutex) Lock() {
	w := W
	if dead(w) {
		m.locked = true
		return
	}
	syncYield(w)
	if !m.locked {
		m.locked = true
		return
	}
	me := w.cur
	me.since = w.now
	for {
		me.handed = false
		m.q = append(m.q, me)
		w.Park("mutex lock")
		if me.handed {
			me.handed = false
			return
		}
		if !m.locked {
			m.locked = true
			return
		}
	}
}

func (m *Mutex) TryLock() bool {
	w := W
	if !dead(w) {
		syncYield(w)
	}
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	w := W
	if dead(w) {
		m.locked = false
		return
	}
	if !m.locked {
		Fatal("sync: unlock of unlocked mutex")
		return
	}
	m.q = pruneQ(m.q)
	if len(m.q) == 0 {
		m.locked = false
	} else {
		i := w.Choose("lock", len(m.q))
		t := m.q[i]
		m.q = append(m.q[:i:i], m.q[i+1:]...)
		if w.now-t.since > 1e6 {
			t.handed = true
		} else {
			m.locked = false
		}
		w.ready(t)
	}
	syncYield(w)
}

// RWMutex prefers writers like the Go one: a waiting writer blocks new readers.
type RWMutex struct {
	w       bool
	readers int
	q       []rwWait
}

type rwWait struct {
	t     *Task
	write bool
}

func (m *RWMutex) prune() {
	out := m.q[:0]
	for _, x := range m.q {
		if !x.t.Proc.Dead && !x.t.done {
			out = append(out, x)
		}
	}
	m.q = out
}

func (m *RWMutex) writerWaiting() bool {
	m.prune()
	for _, x := range m.q {
		if x.write {
			return true
		}
	}
	return false
}

func (m *RWMutex) Lock() {
	w := W
	if dead(w) {
		m.w = true
		return
	}
	syncYield(w)
	if !m.w && m.readers == 0 {
		m.w = true
		return
	}
	m.wait(w, true)
}

func (m *RWMutex) wait(w *World, write bool) {
	me := w.cur
	me.handed = false
	m.q = append(m.q, rwWait{me, write})
	reason := "rwmutex rlock"
	if write {
		reason = "rwmutex lock"
	}
	for !me.handed {
		w.Park(reason)
	}
	me.handed = false
}

func (m *RWMutex) TryLock() bool {
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) RLock() {
	w := W
	if dead(w) {
		m.readers++
		return
	}
	syncYield(w)
	if !m.w && !m.writerWaiting() {
		m.readers++
		return
	}
	m.wait(w, false)
}

func (m *RWMutex) TryRLock() bool {
	if m.w || m.writerWaiting() {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) grant(w *World, readersFirst bool) {
	m.prune()
	if m.w {
		return
	}
	if readersFirst {
		any := false
		keep := m.q[:0:0]
		for _, x := range m.q {
			if !x.write {
				m.readers++
				x.t.handed = true
				w.ready(x.t)
				any = true
			} else {
				keep = append(keep, x)
			}
		}
		m.q = keep
		if any {
			return
		}
	}
	if m.readers == 0 {
		for i, x := range m.q {
			if x.write {
				m.q = append(m.q[:i:i], m.q[i+1:]...)
				m.w = true
				x.t.handed = true
				w.ready(x.t)
				return
			}
		}
	}
	if !m.writerWaiting() {
		for _, x := range m.q {
			m.readers++
			x.t.handed = true
			w.ready(x.t)
		}
		m.q = nil
	}
}

func (m *RWMutex) Unlock() {
	w := W
	if dead(w) {
		m.w = false
		return
	}
	if !m.w {
		Fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	m.w = false
	m.grant(w, true)
	syncYield(w)
}

func (m *RWMutex) RUnlock() {
	w := W
	if dead(w) {
		m.readers--
		return
	}
	if m.readers <= 0 {
		Fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	m.readers--
	if m.readers == 0 {
		m.grant(w, false)
	}
	syncYield(w)
}

// Cond, WaitGroup building blocks.

// Block parks the running task on q (for package sync).
func Block(q *WaitQ, reason string) {
	w := W
	if dead(w) {
		if w != nil && w.reaping {
			w.Park("reaped")
		}
		return
	}
	q.Wait(w, reason)
}

// WakeAll and WakeOne wake parked tasks (for package sync).
func WakeAll(q *WaitQ) {
	if w := W; !dead(w) {
		q.WakeAll(w)
		syncYield(w)
	}
}
func WakeOne(q *WaitQ) {
	if w := W; !dead(w) {
		q.WakeOne(w)
		syncYield(w)
	}
}

// Gosched is a plain preemption point.
func Gosched() {
	if w := W; !dead(w) {
		syncYield(w)
	}
}

// CondWait releases l, waits on q and takes l again (sync.Cond).
func CondWait(q *WaitQ, l interface {
	Lock()
	Unlock()
}) {
	w := W
	if dead(w) {
		Block(q, "cond")
		return
	}
	me := w.cur
	q.q = append(q.q, me)
	woken := false
	l.Unlock()
	for !woken {
		woken = true
		for _, t := range q.q {
			if t == me {
				woken = false
			}
		}
		if !woken {
			w.Park("cond wait")
		}
	}
	l.Lock()
}

type timeLayout struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// MonoOf is the simulated monotonic reading of a time made by the simulated clock (or its wall reading without one).
func MonoOf(t time.Time) int64 {
	l := (*timeLayout)(unsafe.Pointer(&t))
	if l.wall&(1<<63) != 0 {
		return l.ext
	}
	off := int64(0)
	if W != nil {
		off = W.wallOff
	}
	return t.UnixNano() - 1717236000*1e9 - off
}
