// The simulator's self-test: the fixture's functions give the same results in simulation as natively, under every
// schedule; racy ones give exactly the expected sets of results; one seed gives one execution.
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/ti-mo/comfo/fx"
	"github.com/ti-mo/comfo/zsim/rt"
)

func run(seed uint64, rep *rt.Choices, f func() string) (string, uint64, *rt.Choices) {
	w := rt.NewWorld(seed, rep, false)
	res := ""
	p := w.NewProc("fx")
	out := w.Run(func() {
		s := rt.Strategy{RandRun: true}
		switch w.Choose("s", 4) {
		case 0:
			s.Preempt = 0.3
		case 1:
			s.Preempt = 0.05
		case 2:
			s.PCT, s.PCTLen = 2, 60
		case 3:
			s.Preempt, s.StallP, s.StallMx = 0.1, 0.02, 100_000
			p.Stalls = true
		}
		w.SetStrategy(s)
		done := false
		var q rt.WaitQ
		w.Spawn(p, "fx", func() { res = f(); done = true; q.WakeAll(w) })
		if !done {
			q.WaitUntil(w, "result", w.Now()+60e9)
		}
		if !done {
			res = "deadlock"
		}
	})
	if len(w.Crashes) > 0 {
		res = "crash"
	} else if out != rt.Finished {
		res = out.String()
	}
	return res, w.Hash, w.Recorded()
}

func main() {
	bad := 0
	fail := func(f string, a ...any) { bad++; fmt.Printf(f+"\n", a...) }
	fx.ZsimZero()
	fx.ZsimInit()
	native := map[string]string{}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		k, v, _ := strings.Cut(l, "\t")
		native[k] = v
	}
	names := func() (l []string) {
		for k := range fx.Same {
			l = append(l, k)
		}
		sort.Strings(l)
		return
	}
	runs := 0
	for _, k := range names() {
		for s := uint64(0); s < 400; s++ {
			fx.ZsimZero()
			fx.ZsimInit()
			got, h, rec := run(rt.Mix(s, k), nil, fx.Same[k])
			runs++
			if got != native[k] {
				fail("%s: simulated %q, natively %q (seed %d)", k, got, native[k], s)
				break
			}
			if s < 20 {
				fx.ZsimZero()
				fx.ZsimInit()
				if g2, h2, _ := run(rt.Mix(s, k), nil, fx.Same[k]); g2 != got || h2 != h {
					fail("%s: seed %d is not repeatable", k, s)
				}
				fx.ZsimZero()
				fx.ZsimInit()
				if g2, h2, _ := run(rt.Mix(s, k), rec, fx.Same[k]); g2 != got || h2 != h {
					fail("%s: the replay of seed %d differs", k, s)
				}
			}
		}
	}
	var rn []string
	for k := range fx.Races {
		rn = append(rn, k)
	}
	sort.Strings(rn)
	for _, k := range rn {
		r := fx.Races[k]
		seen := map[string]int{}
		for s := uint64(0); s < 3000; s++ {
			fx.ZsimZero()
			fx.ZsimInit()
			got, _, _ := run(rt.Mix(s, k), nil, fx.Races[k].F)
			runs++
			seen[got]++
		}
		ok := len(seen) == len(r.Want)
		for _, x := range r.Want {
			ok = ok && seen[x] > 0
		}
		if !ok {
			fail("%s: found %v, expected %v", k, seen, r.Want)
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
	fmt.Printf("selftest: %d functions, %d races, %d runs: ok\n", len(fx.Same), len(fx.Races), runs)
}
