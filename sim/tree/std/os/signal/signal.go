// Package signal delivers the signals that the simulation sends to a process.
package signal

import (
	gocontext "context"
	"os"

	"github.com/ti-mo/comfo/zsim/rt"
	simcontext "github.com/ti-mo/comfo/zsim/std/context"
)

type reg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

func (g *reg) wants(sig os.Signal) bool {
	for _, s := range g.sigs {
		if s == sig {
			return true
		}
	}
	return len(g.sigs) == 0
}

type regs struct {
	list    []*reg
	ignored []os.Signal
}

func of(p *rt.Proc) *regs {
	g, _ := p.Signals.(*regs)
	if g == nil {
		g = &regs{}
		p.Signals = g
	}
	return g
}

// Deliver sends a signal to a process and reports whether the process catches or ignores it.
func Deliver(w *rt.World, p *rt.Proc, sig os.Signal) bool {
	caught := false
	g := of(p)
	for _, s := range g.ignored {
		caught = caught || s == sig
	}
	for _, r := range g.list {
		if r.wants(sig) {
			caught = true
			rt.SendSideNow(w, r.c, sig)
		}
	}
	return caught
}

// Catches says whether the process has a use for the signal.
func Catches(p *rt.Proc, sig os.Signal) bool {
	g := of(p)
	for _, r := range g.list {
		if r.wants(sig) {
			return true
		}
	}
	return false
}

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	if rt.W == nil {
		return
	}
	g := of(rt.W.CurProc())
	g.list = append(g.list, &reg{c, append([]os.Signal(nil), sig...)})
}

func Stop(c chan<- os.Signal) {
	if rt.W == nil {
		return
	}
	rt.Gosched()
	g := of(rt.W.CurProc())
	keep := g.list[:0]
	for _, r := range g.list {
		if r.c != c {
			keep = append(keep, r)
		}
	}
	g.list = keep
}

func Ignore(sig ...os.Signal) {
	if rt.W == nil {
		return
	}
	g := of(rt.W.CurProc())
	g.ignored = append(g.ignored, sig...)
}

func Ignored(sig os.Signal) bool {
	if rt.W == nil {
		return false
	}
	for _, s := range of(rt.W.CurProc()).ignored {
		if s == sig {
			return true
		}
	}
	return false
}

func Reset(sig ...os.Signal) {
	if rt.W == nil {
		return
	}
	rt.W.CurProc().Signals = nil
}

func NotifyContext(parent gocontext.Context, sigs ...os.Signal) (ctx gocontext.Context, stop gocontext.CancelFunc) {
	ctx, cancel := simcontext.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sigs...)
	rt.Go(func() {
		rt.Select(false, rt.Rcv[os.Signal](ch).Case(), rt.Rcv(ctx.Done()).Case())
		cancel()
	})
	return ctx, func() {
		cancel()
		Stop(ch)
	}
}
