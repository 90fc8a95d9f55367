package rt

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"unsafe"
)

// Channels keep their Go types; their contents and waiters live in a side table owned by the world.

type waiter struct {
	t   *Task
	g   *group
	idx int
	val any
}

type group struct {
	fired bool
	idx   int
	val   any
	ok    bool
}

type chanState struct {
	keep   any
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

func lookup(w *World, p unsafe.Pointer, c int, keep any) *chanState {
	k := uintptr(p)
	cs := w.chans[k]
	if cs == nil {
		cs = &chanState{keep: keep, cap: c}
		w.chans[k] = cs
	}
	return cs
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if !x.g.fired && !x.t.Proc.Dead && !x.t.done {
			return x
		}
	}
	return nil
}

func (cs *chanState) hasWaiter(q []*waiter) bool {
	for _, x := range q {
		if !x.g.fired && !x.t.Proc.Dead && !x.t.done {
			return true
		}
	}
	return false
}

func (cs *chanState) canSend() bool {
	return cs.closed || len(cs.buf) < cs.cap || cs.hasWaiter(cs.recvq)
}
func (cs *chanState) canRecv() bool {
	return len(cs.buf) > 0 || cs.hasWaiter(cs.sendq) || cs.closed
}

func (cs *chanState) send(w *World, v any) {
	if cs.closed {
		panic(chanError("send on closed channel"))
	}
	if x := popWaiter(&cs.recvq); x != nil {
		x.g.fired, x.g.idx, x.g.val, x.g.ok = true, x.idx, v, true
		w.ready(x.t)
		return
	}
	cs.buf = append(cs.buf, v)
}

func (cs *chanState) recv(w *World) (v any, ok bool) {
	if len(cs.buf) > 0 {
		v = cs.buf[0]
		cs.buf = cs.buf[1:]
		if x := popWaiter(&cs.sendq); x != nil {
			cs.buf = append(cs.buf, x.val)
			x.g.fired, x.g.idx, x.g.ok = true, x.idx, true
			w.ready(x.t)
		}
		return v, true
	}
	if x := popWaiter(&cs.sendq); x != nil {
		x.g.fired, x.g.idx, x.g.ok = true, x.idx, true
		w.ready(x.t)
		return x.val, true
	}
	return nil, false // closed
}

type chanError string

func (e chanError) Error() string { return string(e) }
func (e chanError) RuntimeError() {}

// Case is one case of a select statement.
type Case struct {
	cs   *chanState
	send bool
	val  any
	out  any
	ok   bool
}

// Select performs a select statement and returns the index of the chosen case, -1 for default.
func Select(hasDefault bool, cases ...*Case) int {
	w := W
	if w == nil || w.cur == nil {
		panic(HarnessBug{"channel operation outside of the simulation"})
	}
	if w.reaping {
		w.Park("reaped") // exits
	}
	syncYield(w)
	var ready []int
	for i, c := range cases {
		if c.cs == nil {
			continue
		}
		if c.send && c.cs.canSend() || !c.send && c.cs.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[w.Choose("select", len(ready))]
		}
		c := cases[i]
		if c.send {
			c.cs.send(w, c.val)
		} else {
			c.out, c.ok = c.cs.recv(w)
		}
		return i
	}
	if hasDefault {
		return -1
	}
	g := &group{}
	for i, c := range cases {
		if c.cs == nil {
			continue
		}
		x := &waiter{t: w.cur, g: g, idx: i, val: c.val}
		if c.send {
			c.cs.sendq = append(c.cs.sendq, x)
		} else {
			c.cs.recvq = append(c.cs.recvq, x)
		}
	}
	reason := "select"
	if len(cases) == 1 {
		reason = "chan receive"
		if cases[0].send {
			reason = "chan send"
		}
	}
	for !g.fired {
		w.Park(reason)
	}
	c := cases[g.idx]
	if c.send {
		if !g.ok {
			panic(chanError("send on closed channel"))
		}
	} else {
		c.out, c.ok = g.val, g.ok
	}
	return g.idx
}

// SendH and RecvH are typed handles on a channel.
type SendH[T any] struct{ cs *chanState }
type RecvH[T any] struct{ cs *chanState }

func Snd[T any](ch chan<- T) SendH[T] {
	if ch == nil || W == nil {
		return SendH[T]{}
	}
	return SendH[T]{lookup(W, *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch)}
}

func Rcv[T any](ch <-chan T) RecvH[T] {
	if ch == nil || W == nil {
		return RecvH[T]{}
	}
	return RecvH[T]{lookup(W, *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch)}
}

func (h SendH[T]) Send(v T)         { Select(false, h.Case(v)) }
func (h SendH[T]) Case(v T) *Case   { return &Case{cs: h.cs, send: true, val: any(v)} }
func (h SendH[T]) TrySend(v T) bool { return Select(true, h.Case(v)) == 0 }
func (h RecvH[T]) Case() *Case      { return &Case{cs: h.cs} }
func (h RecvH[T]) Recv() T          { v, _ := h.Recv2(); return v }
func (h RecvH[T]) Recv2() (T, bool) {
	c := h.Case()
	Select(false, c)
	return h.Val2(c)
}

// Val and Val2 extract the received value of a chosen select case.
func (h RecvH[T]) Val(c *Case) T { v, _ := h.Val2(c); return v }
func (h RecvH[T]) Val2(c *Case) (T, bool) {
	v, _ := c.out.(T)
	return v, c.ok
}

// SendNow delivers without blocking from scheduler context (timers). It drops the value if nobody can take it.
func SendNow[T any](w *World, ch chan T, v T) bool {
	cs := lookup(w, *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch)
	if cs.closed || !cs.canSend() {
		return false
	}
	cs.send(w, v)
	return true
}

// SendSideNow is SendNow for the sending side of a channel.
func SendSideNow[T any](w *World, ch chan<- T, v T) bool {
	cs := lookup(w, *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch)
	if cs.closed || !cs.canSend() {
		return false
	}
	cs.send(w, v)
	return true
}

// Drain empties a channel's buffer (timer Stop/Reset).
func Drain[T any](w *World, ch chan T) bool {
	cs := lookup(w, *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch)
	had := len(cs.buf) > 0
	cs.buf = nil
	return had
}

// Close implements close(ch).
func Close[T any](ch chan<- T) {
	w := W
	if w == nil || w.reaping {
		return
	}
	CloseNow(w, ch)
	if w.cur != nil {
		syncYield(w)
	}
}

// CloseNow closes from any context.
func CloseNow[T any](w *World, ch chan<- T) {
	if ch == nil {
		panic(chanError("close of nil channel"))
	}
	cs := lookup(w, *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch)
	if cs.closed {
		panic(chanError("close of closed channel"))
	}
	cs.closed = true
	for {
		x := popWaiter(&cs.recvq)
		if x == nil {
			break
		}
		x.g.fired, x.g.idx, x.g.val, x.g.ok = true, x.idx, nil, false
		w.ready(x.t)
	}
	for {
		x := popWaiter(&cs.sendq)
		if x == nil {
			break
		}
		x.g.fired, x.g.idx, x.g.ok = true, x.idx, false
		w.ready(x.t)
	}
}

// Len implements len(ch).
func Len[T any](ch <-chan T) int {
	if ch == nil || W == nil {
		return 0
	}
	return len(lookup(W, *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch).buf)
}

// LenS is Len for send-only channels.
func LenS[T any](ch chan<- T) int {
	if ch == nil || W == nil {
		return 0
	}
	return len(lookup(W, *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch).buf)
}

// Forever implements select{}.
func Forever() {
	w := W
	if dead(w) {
		if w != nil && w.reaping {
			w.Park("reaped")
		}
		panic(HarnessBug{"select{} outside of the simulation"})
	}
	w.parkForever()
}

// ChanRange implements range over a channel.
func ChanRange[T any](ch <-chan T) func(yield func(T) bool) {
	return func(yield func(T) bool) {
		h := Rcv(ch)
		for {
			v, ok := h.Recv2()
			if !ok || !yield(v) {
				return
			}
		}
	}
}

var addresses = regexp.MustCompile(`0x[0-9a-f]{6,}`)

// MapRange iterates a map in an order decided by the simulation.
func MapRange[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		names := make(map[K]string, len(keys))
		for _, k := range keys {
			names[k] = addresses.ReplaceAllString(fmt.Sprintf("%v|%v", k, m[k]), "0x")
		}
		sort.SliceStable(keys, func(i, j int) bool {
			a, b := names[keys[i]], names[keys[j]]
			if a == b {
				// variables of the program have fixed addresses
				if va, vb := reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j]); va.Kind() == reflect.Pointer && vb.Kind() == reflect.Pointer {
					return va.Pointer() < vb.Pointer()
				}
			}
			return a < b
		})
		if w := W; w != nil && w.cur != nil && !w.reaping {
			for i := 0; i < len(keys)-1; i++ {
				j := i + w.Choose("maprange", len(keys)-i)
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
		for _, k := range keys {
			if mapBusy(m) {
				Fatal("concurrent map iteration and map write")
			}
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func mapBusy[M ~map[K]V, K comparable, V any](m M) bool {
	w := W
	if dead(w) || len(w.mapBusy) == 0 {
		return false
	}
	_, ok := w.mapBusy[reflect.ValueOf(m).UnsafePointer()]
	return ok
}

// MapW precedes a write to a map: during it, any other access kills the program, as in the real runtime.
func MapW[M ~map[K]V, K comparable, V any](m M, site int32) M {
	w := W
	if dead(w) || m == nil {
		return m
	}
	if mapBusy(m) {
		Fatal("concurrent map writes")
	}
	p := reflect.ValueOf(m).UnsafePointer()
	if w.mapBusy == nil {
		w.mapBusy = map[unsafe.Pointer]any{}
	}
	w.mapBusy[p] = m
	Yield(site)
	delete(w.mapBusy, p)
	return m
}

// MapR precedes a read of a map.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if mapBusy(m) {
		Fatal("concurrent map read and map write")
	}
	return m
}

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Tear stores a struct field by field with preemption points in between, as the memory model allows for
// unsynchronised readers.
func Tear[T any](dst *T, src T, site int32) {
	w := W
	if dead(w) {
		*dst = src
		return
	}
	tear(reflect.ValueOf(dst).Elem(), reflect.ValueOf(&src).Elem(), site)
}

func tear(d, s reflect.Value, site int32) {
	t := d.Type()
	if t.Kind() != reflect.Struct || t.NumField() == 0 || t.PkgPath() == "time" || strings.Contains(t.PkgPath(), "/zsim/") || t.PkgPath() == "reflect" {
		d.Set(s)
		return
	}
	for i := 0; i < t.NumField(); i++ {
		df := reflect.NewAt(t.Field(i).Type, unsafe.Pointer(d.Field(i).UnsafeAddr())).Elem()
		sf := reflect.NewAt(t.Field(i).Type, unsafe.Pointer(s.Field(i).UnsafeAddr())).Elem()
		df.Set(sf)
		Yield(site)
	}
}
