// Package fx exercises the language and library features that the simulator rewrites. Each function in Same has one
// possible result; each in Races has the listed results under some schedule.
package fx

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type pair struct{ a, b int }

type big struct {
	pair
	arr  [3]int
	m    map[string]int
	next *big
	f    func(int) int
}

type counter struct {
	sync.Mutex
	n int
}

func (c *counter) inc() int { c.Lock(); defer c.Unlock(); c.n++; return c.n }

type shape interface{ Area() int }
type sq struct{ s int }

func (s sq) Area() int { return s.s * s.s }

func gmap[K comparable, V any](m map[K]V, f func(K, V) bool) int {
	n := 0
	for k, v := range m {
		if f(k, v) {
			n++
		}
	}
	return n
}

type stack[T any] struct{ s []T }

func (s *stack[T]) push(v T) { s.s = append(s.s, v) }
func (s *stack[T]) pop() (v T, ok bool) {
	if len(s.s) == 0 {
		return v, false
	}
	v = s.s[len(s.s)-1]
	s.s = s.s[:len(s.s)-1]
	return v, true
}

func seq(n int) func(func(int) bool) {
	return func(yield func(int) bool) {
		for i := 0; i < n; i++ {
			if !yield(i) {
				return
			}
		}
	}
}

var (
	pkgA = pkgB + 1
	pkgB = func() int { return 41 }()
	once sync.Once
	hits int
	tbl  = map[string]func(int) int{"dbl": func(x int) int { return 2 * x }}
)

func init() { hits = 7 }

// Same lists the functions with one possible result.
var Same = map[string]func() string{
	"init": func() string { return fmt.Sprint(pkgA, pkgB, hits, tbl["dbl"](4)) },
	"unbuffered": func() string {
		c := make(chan int)
		go func() {
			defer close(c)
			for i := range 5 {
				c <- i
			}
		}()
		s := 0
		for v := range c {
			s = s*10 + v
		}
		v, ok := <-c
		return fmt.Sprint(s, v, ok)
	},
	"buffered": func() string {
		c := make(chan string, 3)
		c <- "a"
		c <- "b"
		n, k := len(c), cap(c)
		x, y := <-c, <-c
		return fmt.Sprint(n, k, x, y)
	},
	"select": func() string {
		a, b, never := make(chan int, 1), make(chan int), make(chan int)
		var none chan int
		out := ""
		select {
		case v := <-b:
			out += fmt.Sprint("b", v)
		default:
			out += "d"
		}
		a <- 3
		select {
		case v, ok := <-a:
			out += fmt.Sprint("a", v, ok)
		case <-never:
			out += "never"
		case none <- 1:
			out += "none"
		}
		go func() { b <- 9 }()
		arr := []int{0, 0}
	loop:
		for i := 0; ; i++ {
			select {
			case arr[1] = <-b:
				out += fmt.Sprint("b", arr)
				continue loop
			case <-time.After(50 * time.Millisecond):
				out += "t"
				break loop
			}
		}
		return out
	},
	"closed": func() (s string) {
		defer func() { s += fmt.Sprint(recover()) }()
		c := make(chan int)
		close(c)
		select {
		case v, ok := <-c:
			s = fmt.Sprint(v, ok, " ")
		}
		c <- 1
		return "unreachable"
	},
	"nilclose": func() (s string) {
		defer func() { s = fmt.Sprint(recover()) }()
		var c chan int
		close(c)
		return
	},
	"mutex": func() string {
		var c counter
		var wg sync.WaitGroup
		for range 10 {
			wg.Add(1)
			go func() { defer wg.Done(); c.inc() }()
		}
		wg.Wait()
		return fmt.Sprint(c.n, c.TryLock(), c.TryLock())
	},
	"rwmutex": func() string {
		var mu sync.RWMutex
		n, wg := 0, sync.WaitGroup{}
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				if i%2 == 0 {
					mu.Lock()
					t := n
					n = t + 1
					mu.Unlock()
				} else {
					mu.RLock()
					_ = n
					mu.RUnlock()
				}
			}(i)
		}
		wg.Wait()
		return fmt.Sprint(n)
	},
	"cond": func() string {
		var mu sync.Mutex
		cd := sync.NewCond(&mu)
		ready := 0
		done := make(chan bool)
		for range 3 {
			go func() {
				mu.Lock()
				for ready == 0 {
					cd.Wait()
				}
				ready++
				mu.Unlock()
				done <- true
			}()
		}
		mu.Lock()
		ready = 1
		mu.Unlock()
		cd.Broadcast()
		for range 3 {
			<-done
		}
		return fmt.Sprint(ready)
	},
	"once": func() string {
		n := 0
		f := sync.OnceValue(func() int { n++; return n })
		var o sync.Once
		for range 3 {
			o.Do(func() { n += 10 })
			f()
		}
		return fmt.Sprint(n, f())
	},
	"syncmap": func() string {
		var m sync.Map
		m.Store("x", 1)
		v, l := m.LoadOrStore("x", 2)
		_, ok := m.Load("y")
		return fmt.Sprint(v, l, ok)
	},
	"pool": func() string {
		p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
		b := p.Get().(*bytes.Buffer)
		b.WriteString("z")
		return b.String()
	},
	"atomic": func() string {
		var n atomic.Int64
		var wg sync.WaitGroup
		for range 8 {
			wg.Add(1)
			go func() { n.Add(2); wg.Done() }()
		}
		wg.Wait()
		var p atomic.Pointer[pair]
		p.Store(&pair{1, 2})
		return fmt.Sprint(n.Load(), *p.Load())
	},
	"timer": func() string {
		t0 := time.Now()
		t := time.NewTimer(time.Hour)
		out := fmt.Sprint(t.Stop(), t.Reset(20*time.Millisecond))
		<-t.C
		el := time.Since(t0)
		out += fmt.Sprint(el >= 20*time.Millisecond && el < 10*time.Second, t.Stop())
		ch := make(chan int, 1)
		time.AfterFunc(time.Millisecond, func() { ch <- 5 })
		out += fmt.Sprint(<-ch)
		tk := time.NewTicker(3 * time.Millisecond)
		for range 3 {
			<-tk.C
		}
		tk.Stop()
		return out
	},
	"context": func() string {
		type key struct{}
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, "v"))
		c2, cancel2 := context.WithTimeout(ctx, time.Hour)
		defer cancel2()
		go cancel()
		<-c2.Done()
		out := fmt.Sprint(c2.Err(), ctx.Err(), c2.Value(key{}))
		c3, cancel3 := context.WithTimeout(context.Background(), 5*time.Millisecond)
		defer cancel3()
		<-c3.Done()
		out += fmt.Sprint(errors.Is(c3.Err(), context.DeadlineExceeded))
		c4, cancel4 := context.WithCancelCause(context.Background())
		cancel4(io.EOF)
		return out + fmt.Sprint(context.Cause(c4))
	},
	"defer": func() string {
		out := ""
		func() {
			for i := 0; i < 3; i++ {
				defer func(k int) { out += fmt.Sprint(k, i) }(i)
			}
			defer func() {
				if r := recover(); r != nil {
					out += fmt.Sprint("r", r)
				}
			}()
			var m map[string]int
			m["x"] = 1
		}()
		return out
	},
	"order": func() string {
		// left to right evaluation of calls, and of the operands of an assignment
		out := ""
		f := func(s string, v int) int { out += s; return v }
		x := []int{0, 0, 0}
		x[f("a", 0)], x[f("b", 1)] = f("c", 5), f("d", 6)
		i := 0
		i, x[i] = 2, 9
		p := &pair{1, 2}
		p.a, p.b = p.b, p.a
		a := f("e", 1) + f("f", 2)*f("g", 3)
		return fmt.Sprint(out, x, i, *p, a, f("h", 0) == 1 && f("i", 1) == 1, f("j", 1) == 1 || f("k", 1) == 1)
	},
	"late loads": func() string {
		// variables are loaded after the calls of the statement
		n, c := 1, make(chan int)
		f := func() int { n++; return n }
		x := []int{n, f()}
		n += f()
		go func() { n = 100; c <- 1 }()
		n += <-c
		g := func() (int, int) { n := 0; h := func() int { n = 7; return 1 }; return n, h() }
		y, z := g()
		return fmt.Sprint(x, n, y, z)
	},
	"structs": func() string {
		b := big{pair: pair{1, 2}, m: map[string]int{"q": 1}, f: func(x int) int { return x + 1 }}
		c := b
		c.a = 5
		c.arr[1] = 7
		c.m["q"]++
		pb := &b
		*pb = big{pair: pair{3, 4}, next: &c}
		pb.next.pair = pair{8, 9}
		pp := &pb.pair.b
		*pp += 10
		s := []big{b, c}
		s[0].pair = pair{a: 1}
		for i := range s {
			s[i].arr[0] += i
		}
		return fmt.Sprint(b.a, b.b, c.pair, c.arr, c.m, s[0].pair, s[1].arr, c.f(1))
	},
	"generics": func() string {
		var s stack[string]
		s.push("a")
		s.push("b")
		v, ok := s.pop()
		n := gmap(map[int]string{1: "x", 2: "y", 3: "zz"}, func(k int, v string) bool { return len(v) == 1 })
		return fmt.Sprint(v, ok, n, min(3, 2), max(1, 2))
	},
	"iterators": func() string {
		t := 0
		for i := range seq(10) {
			if i == 2 {
				continue
			}
			if i == 6 {
				break
			}
			t += i
		}
		return fmt.Sprint(t)
	},
	"maps": func() string {
		m := map[string]int{"a": 1, "b": 2, "c": 3}
		var ks []string
		for k := range m {
			ks = append(ks, k)
			if k == "b" {
				delete(m, "b")
			}
		}
		sort.Strings(ks)
		v, ok := m["b"]
		m["a"]++
		clear(m)
		return fmt.Sprint(ks, v, ok, len(m))
	},
	"switch": func() string {
		out := ""
		for _, v := range []any{1, "s", nil, sq{3}, 2.5, errors.New("e"), []int{1}} {
			switch x := v.(type) {
			case int:
				out += fmt.Sprint("i", x)
			case string:
				out += "s" + x
			case shape:
				out += fmt.Sprint("sh", x.Area())
			case error:
				out += x.Error()
			case nil:
				out += "nil"
			default:
				out += "?"
			}
		}
		switch i := 1; {
		case i > 0:
			out += "+"
			fallthrough
		case i > 5:
			out += "ft"
		default:
			out += "no"
		}
		return out
	},
	"labels": func() string {
		out := ""
	outer:
		for i := 0; i < 4; i++ {
			for j := 0; ; j++ {
				if j > i {
					continue outer
				}
				if i == 3 {
					break outer
				}
				out += fmt.Sprint(i, j, ";")
			}
		}
		k := 0
	again:
		k++
		if k < 3 {
			goto again
		}
		return fmt.Sprint(out, k)
	},
	"closures": func() string {
		var fs []func() int
		for i := 0; i < 3; i++ {
			fs = append(fs, func() int { i += 10; return i })
		}
		out := ""
		for _, f := range fs {
			out += fmt.Sprint(f(), f(), " ")
		}
		c := &counter{}
		g := c.inc
		h := (*counter).inc
		g()
		return out + fmt.Sprint(h(c))
	},
	"methodgo": func() string {
		c := &counter{}
		done := make(chan struct{})
		go c.inc()
		go func() {
			for {
				c.Lock()
				n := c.n
				c.Unlock()
				if n == 1 {
					close(done)
					return
				}
				time.Sleep(time.Millisecond)
			}
		}()
		<-done
		return "ok"
	},
	"pipe": func() string {
		r, w := io.Pipe()
		go func() {
			fmt.Fprint(w, "hello ")
			w.Write([]byte("world"))
			w.CloseWithError(io.ErrUnexpectedEOF)
		}()
		b, err := io.ReadAll(r)
		return fmt.Sprint(string(b), err)
	},
	"errors": func() string {
		e := fmt.Errorf("w: %w", io.EOF)
		j := errors.Join(e, nil, errors.New("x"))
		return strings.ReplaceAll(fmt.Sprint(errors.Is(j, io.EOF), j), "\n", "|")
	},
	"chanofchan": func() string {
		req := make(chan chan int)
		go func() {
			for r := range req {
				r <- 4
			}
		}()
		r := make(chan int)
		req <- r
		v := <-r
		close(req)
		return fmt.Sprint(v)
	},
	"sem": func() string {
		sem, wg := make(chan struct{}, 2), sync.WaitGroup{}
		var cur, top atomic.Int32
		for range 6 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				n := cur.Add(1)
				for {
					t := top.Load()
					if n <= t || top.CompareAndSwap(t, n) {
						break
					}
				}
				time.Sleep(time.Millisecond)
				cur.Add(-1)
			}()
		}
		wg.Wait()
		return fmt.Sprint(top.Load())
	},
}

// Race is a function whose result depends on the schedule.
type Race struct {
	F    func() string
	Want []string // every one of these must be found
}

// Races lists them; nothing outside Want may be found.
var Races = map[string]Race{
	"lost update": {func() string {
		n, wg := 0, sync.WaitGroup{}
		for range 2 {
			wg.Add(1)
			go func() { defer wg.Done(); n = n + 1 }()
		}
		wg.Wait()
		return fmt.Sprint(n)
	}, []string{"1", "2"}},
	"torn struct": {func() string {
		type v struct{ a, b int }
		s := &struct{ v }{v{0, 0}}
		done := make(chan v)
		go func() { s.v = v{1, 1}; done <- v{} }()
		go func() { x := s.v; done <- x }()
		x, y := <-done, <-done
		return fmt.Sprint(x.a+y.a, x.b+y.b)
	}, []string{"0 0", "1 0", "1 1"}},
	"select choice": {func() string {
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 2
		select {
		case v := <-a:
			return fmt.Sprint(v)
		case v := <-b:
			return fmt.Sprint(v)
		}
	}, []string{"1", "2"}},
	"map order": {func() string {
		for k := range map[string]int{"a": 1, "b": 2} {
			return k
		}
		return ""
	}, []string{"a", "b"}},
	"lock order": {func() string {
		var p, q sync.Mutex
		c := make(chan int, 2)
		go func() { p.Lock(); q.Lock(); q.Unlock(); p.Unlock(); c <- 1 }()
		go func() { q.Lock(); p.Lock(); p.Unlock(); q.Unlock(); c <- 1 }()
		<-c
		<-c
		return "ok"
	}, []string{"ok", "deadlock"}},
	"publication": {func() string {
		ready, v := false, 0
		go func() { v = 1; ready = true }()
		time.Sleep(time.Millisecond)
		r := ready
		return fmt.Sprint(r, v)
	}, []string{"true 1"}},
	"spin": {func() string {
		var f atomic.Bool
		go f.Store(true)
		for !f.Load() {
			time.Sleep(time.Microsecond)
		}
		return "ok"
	}, []string{"ok"}},
	"rw torn": {func() string {
		var mu sync.RWMutex
		x, y := 0, 0
		c := make(chan string, 2)
		go func() { mu.RLock(); x++; y++; mu.RUnlock(); c <- "" }()
		go func() { mu.RLock(); a, b := x, y; mu.RUnlock(); c <- fmt.Sprint(a, b) }()
		return <-c + <-c
	}, []string{"0 0", "0 1", "1 0", "1 1"}},
	"check then act": {func() string {
		m, mu, n := map[string]int{}, sync.Mutex{}, atomic.Int32{}
		wg := sync.WaitGroup{}
		for range 2 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mu.Lock()
				_, ok := m["k"]
				mu.Unlock()
				if !ok {
					n.Add(1)
					mu.Lock()
					m["k"] = 1
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		return fmt.Sprint(n.Load())
	}, []string{"1", "2"}},
	"unrecovered": {func() string {
		c := make(chan int)
		go func() { defer close(c); panic("boom") }()
		<-c
		time.Sleep(time.Millisecond)
		return "ok"
	}, []string{"crash"}},
}
