package harness

var (
	libReal = []string{"libcomfo (all of it, instrumented)", "bufio, encoding, errors and the rest of the Go standard library not listed as stub"}
	libStub = []string{"goroutine scheduler, channels, select", "sync, time, context", "the byte line to the unit", "the ventilation unit"}
)

const libRule = "one evaluation is one simulated run: seeded application tasks call the library on simulated lines under one seeded schedule and fault sequence; " +
	"it is non-trivial if the oracle judged at least one operation in it, and distinct by the hash over all its events, bytes and choices"

func (r *Run) lib(cfg LibCfg, oracle func(lw *LibWorld)) {
	var lw *LibWorld
	if stallsIn[r.Check.ID] && r.W.Chance("cfg", 0.25) {
		cfg.Stalls = "client"
	}
	if cfg.Clients > 1 && r.W.Chance("cfg", 0.1) {
		// many concurrent calls of one kind, close together
		cfg.Focus, cfg.Think = true, r.W.LogRange("cfg", 1, 200*ms)
		cfg.Clients, cfg.Ops = 2+r.W.Choose("cfg", 3), 5+r.W.Choose("cfg", 8)
		if r.W.Chance("cfg", 0.7) {
			cfg.FaultP = 0.05
		}
	}
	if !r.Simulate(func() { lw = r.runLib(cfg) }) || lw == nil {
		if lw != nil {
			r.sampleLib(lw)
		}
		return
	}
	r.sampleLib(lw)
	oracle(lw)
}

func (r *Run) sampleLib(lw *LibWorld) {
	for i, o := range lw.ops {
		if i == 8 {
			r.Sample += "...\n"
			break
		}
		r.Sample += o.String() + "\n"
	}
}

// stallsIn names the checks whose calling tasks may also stall inside the library: a call that
// stalls holds up the others, so the checks that time calls leave it out.
var stallsIn = map[string]bool{"C01": true, "C03": true, "C07": true, "C18": true}

func (r *Run) clients(max int) int { return 1 + r.W.Choose("cfg", max) }

func init() {
	base := func(id string, quick int, body func(r *Run)) *Check {
		c := &Check{ID: id, Quick: quick, Thorough: quick * 12, Rule: libRule, Real: libReal, Stub: libStub, Body: body}
		register(c)
		return c
	}
	c := base("C01", 150000, func(r *Run) {
		cfg := LibCfg{Conns: 1, Clients: r.clients(3), Ops: 3 + r.W.Choose("cfg", 6), Faults: r.swarm(allFaults), FaultP: []float64{0.3, 0.6, 0.9}[r.W.Choose("cfg", 3)],
			Mix: "reads", Biased: r.W.Chance("cfg", 0.4), FaultOnly: -1, Think: 3 * sec}
		r.lib(cfg, func(lw *LibWorld) {
			lw.checkC01()
			lw.checkKept()
		})
	})
	c.CrashBad = true
	c = base("C02", 150000, func(r *Run) {
		cfg := LibCfg{Conns: 1, Clients: r.clients(4), Ops: 2 + r.W.Choose("cfg", 6), Biased: r.W.Chance("cfg", 0.7), FaultOnly: -1, Think: 2 * sec}
		cfg.Odd, cfg.Slow = r.W.Chance("cfg", 0.1), r.W.Chance("cfg", 0.1)
		r.lib(cfg, func(lw *LibWorld) {
			lw.checkC02()
			lw.checkKept()
		})
	})
	c.CrashBad, c.StuckBad = true, true
	c = base("C03", 150000, func(r *Run) {
		cfg := LibCfg{Conns: 1, Clients: r.clients(3), Ops: 3 + r.W.Choose("cfg", 6), Faults: r.swarm(allFaults), FaultP: []float64{0.3, 0.6, 0.9}[r.W.Choose("cfg", 3)],
			Mix: "sets", Biased: r.W.Chance("cfg", 0.3), FaultOnly: -1, Think: 3 * sec}
		r.lib(cfg, (*LibWorld).checkC03)
	})
	c.CrashBad = true
	c = base("C04", 150000, func(r *Run) {
		cfg := LibCfg{Conns: 1, Clients: r.clients(4), Ops: 2 + r.W.Choose("cfg", 6), Faults: r.swarm(allFaults), FaultP: []float64{0.3, 0.6, 0.9}[r.W.Choose("cfg", 3)],
			Biased: r.W.Chance("cfg", 0.3), FaultOnly: -1, Think: 2 * sec}
		cfg.Slow = r.W.Chance("cfg", 0.1)
		r.lib(cfg, (*LibWorld).checkC04)
	})
	c.CrashBad, c.StuckBad = true, true
	base("C05", 150000, func(r *Run) {
		cfg := LibCfg{Conns: 1, Clients: 1 + r.clients(3), Ops: 2 + r.W.Choose("cfg", 5), FaultOnly: -1, Think: 1 * sec, Biased: r.W.Chance("cfg", 0.2)}
		if r.W.Chance("cfg", 0.6) {
			cfg.Faults, cfg.FaultP = r.swarm(allFaults), []float64{0.2, 0.5}[r.W.Choose("cfg", 2)]
		}
		r.lib(cfg, (*LibWorld).checkC05)
	})
	c = base("C06", 100000, func(r *Run) {
		var kinds []string
		for _, f := range allFaults {
			switch f {
			case "eof", "read-error", "read-error-sticky":
			default:
				kinds = append(kinds, f)
			}
		}
		cfg := LibCfg{Conns: 1, Clients: r.clients(3), Ops: 2 + r.W.Choose("cfg", 8), Faults: r.swarm(kinds), FaultP: []float64{0.4, 0.9}[r.W.Choose("cfg", 2)],
			Heal: true, Biased: r.W.Chance("cfg", 0.2), FaultOnly: -1, Think: 2 * sec}
		r.lib(cfg, (*LibWorld).checkC06)
	})
	c.CrashBad, c.StuckBad = true, true
	base("C07", 150000, func(r *Run) {
		cfg := LibCfg{Conns: 1, Clients: 2 + r.W.Choose("cfg", 3), Ops: 2 + r.W.Choose("cfg", 4), Mix: "profiles", FaultOnly: -1, Think: 1 * sec}
		if r.W.Chance("cfg", 0.5) {
			cfg.Faults = r.swarm([]string{"silent", "tail-flip", "write-error", "short-write", "request-lost", "request-damaged"})
			cfg.FaultP = 0.25
		}
		if cfg.Faults == nil && r.W.Chance("cfg", 0.5) {
			cfg.Stalls = "client"
		}
		var init State
		var lw *LibWorld
		if !r.Simulate(func() {
			lw = r.runLibInit(cfg, &init)
		}) || lw == nil {
			return
		}
		r.sampleLib(lw)
		lw.checkC07(init)
	})
	c = base("C18", 100000, func(r *Run) {
		n := 2 + r.W.Choose("cfg", 2)
		cfg := LibCfg{Conns: n, Clients: 1 + r.clients(4), Ops: 2 + r.W.Choose("cfg", 6), FaultOnly: r.W.Choose("cfg", n), Think: 1 * sec, Biased: r.W.Chance("cfg", 0.3)}
		cfg.Faults, cfg.FaultP = r.swarm(allFaults), []float64{0.3, 0.8}[r.W.Choose("cfg", 2)]
		r.lib(cfg, (*LibWorld).checkC18)
	})
	c.CrashBad, c.StuckBad = true, true
}
