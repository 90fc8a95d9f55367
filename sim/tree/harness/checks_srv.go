package harness

import rpc "github.com/ti-mo/comfo/rpc/comfo"

var (
	srvReal = []string{"main, router, Twirp service, caches, timers and library (comfo, comfoserver, libcomfo: instrumented)", "generated Twirp server and clients, gorilla/mux, viper, pflag",
		"Go standard library not listed as stub"}
	srvStub = []string{"goroutine scheduler, channels, select", "sync, time, context", "net.Dial, serial port, net/http connection handling (handlers are real)", "os.Exit, os.Args, standard output",
		"the ventilation unit"}
)

const srvRule = "one evaluation is one simulated run of the whole program against a simulated unit with concurrent API clients under one seeded schedule and fault sequence; " +
	"it is non-trivial if the oracle judged at least one request in it, and distinct by the hash over all its events, bytes and choices"

// faults that cannot make an older or forged answer arrive in place of the current one
var srvSafe = []string{"silent", "no-ack", "no-answer", "truncate", "bitflip", "request-lost", "request-damaged", "write-error", "short-write"}

// faults after which a change may or may not have been made, but that never hide an earlier answer
var linFaults = []string{"silent", "tail-flip", "request-lost", "request-damaged", "write-error", "short-write"}

func (r *Run) srv(cfg SrvCfg, oracle func(sw *SrvWorld), partial ...func(sw *SrvWorld)) {
	var sw *SrvWorld
	fin := r.Simulate(func() { sw = r.runSrv(cfg) })
	if sw != nil {
		for i, o := range sw.ops {
			if i == 8 {
				r.Sample += "...\n"
				break
			}
			r.Sample += o.String() + "\n"
		}
	}
	if sw != nil && !fin {
		// what can be said about a run that did not come to its end
		for _, p := range partial {
			p(sw)
		}
	}
	if !fin || sw == nil || len(r.Viols) > 0 {
		return
	}
	oracle(sw)
}

func (r *Run) maybeFaults(cfg *SrvCfg, p float64, kinds []string, fp ...float64) {
	if r.W.Chance("cfg", p) {
		cfg.Faults = r.swarm(kinds)
		cfg.FaultP = fp[r.W.Choose("cfg", len(fp))]
	}
}

func init() {
	base := func(id string, quick int, body func(r *Run)) *Check {
		c := &Check{ID: id, Quick: quick, Thorough: quick * 12, Rule: srvRule, Real: srvReal, Stub: srvStub, Body: body}
		register(c)
		return c
	}
	n := func(r *Run, lo, hi int) int { return lo + r.W.Choose("cfg", hi-lo+1) }

	// crowd makes many clients of a few, now and then
	crowd := func(r *Run, cfg *SrvCfg) {
		if r.W.Chance("cfg", 0.06) {
			cfg.Clients, cfg.Ops = n(r, 6, 14), n(r, 1, 2)
		}
	}
	base("C08", 80000, func(r *Run) {
		cfg := SrvCfg{Clients: n(r, 2, 5), Ops: n(r, 3, 10), Think: 6 * sec, ThinkP: 0.4, Fast: r.W.Chance("cfg", 0.5),
			Mix: map[string]float64{"get": 8, "GetTemps": 1, "GetFans": 1, "GetFanProfiles": 1, "FlushCache": 3, "SetFanSpeed": 0.5, "SetFanProfile": 0.7, "SetComfortTemp": 0.7}, GiveUp: 0.05}
		r.maybeFaults(&cfg, 0.5, append([]string{"late", "read-error", "trickle", "garbage"}, srvSafe...), 0.2, 0.5)
		if r.W.Chance("cfg", 0.2) {
			cfg.Outages, cfg.OutMax = 1, 20*sec
		}
		cfg.Stalls = r.W.Chance("cfg", 0.3)
		if r.W.Chance("cfg", 0.5) {
			// one kind only, refreshed by as many requests at once as possible
			cfg.Think, cfg.ThinkP, cfg.Stalls = 300*ms, 0.3, r.W.Chance("cfg", 0.8)
			all := int32(rpc.FlushCacheRequest_All)
			switch r.W.Pick("cfg", 3, 3, 3, 2, 2, 1) {
			case 0:
				cfg.Mix, cfg.Flush = map[string]float64{"GetTemps": 5, "FlushCache": 3, "SetComfortTemp": 3}, []int32{int32(rpc.FlushCacheRequest_Temps), all}
			case 1:
				cfg.Mix, cfg.Flush = map[string]float64{"GetFans": 5, "FlushCache": 3, "SetFanSpeed": 3}, []int32{int32(rpc.FlushCacheRequest_Fans), all}
			case 2:
				cfg.Mix, cfg.Flush = map[string]float64{"GetFanProfiles": 5, "FlushCache": 3, "SetFanProfile": 3, "SetFanSpeed": 1}, []int32{int32(rpc.FlushCacheRequest_Profiles), all}
			case 3:
				cfg.Mix, cfg.Flush = map[string]float64{"GetBypass": 5, "FlushCache": 5}, []int32{int32(rpc.FlushCacheRequest_Bypass)}
			case 4:
				cfg.Mix, cfg.Flush = map[string]float64{"GetBootInfo": 5, "FlushCache": 5}, []int32{int32(rpc.FlushCacheRequest_BootInfo)}
			case 5:
				cfg.Mix, cfg.Flush = map[string]float64{"GetErrors": 5, "FlushCache": 5}, []int32{all}
			}
		}
		crowd(r, &cfg)
		r.srv(cfg, (*SrvWorld).checkC08)
	})
	base("C09", 40000, func(r *Run) {
		cfg := SrvCfg{Clients: n(r, 1, 3), Fast: true, ThinkP: 1,
			Mix: map[string]float64{"get": 8, "GetTemps": 3, "GetFans": 3, "GetFanProfiles": 2, "FlushCache": 1, "SetFanSpeed": 0.3, "SetFanProfile": 0.3, "SetComfortTemp": 0.3}}
		switch r.W.Pick("cfg", 20, 6, 1) {
		case 0:
			cfg.Ops, cfg.Think = n(r, 4, 12), 20*sec
		case 1:
			cfg.Ops, cfg.Think = n(r, 4, 12), 600*sec
		case 2:
			cfg.Ops, cfg.Think = n(r, 3, 6), 5400*sec
		}
		if r.W.Chance("cfg", 0.4) {
			cfg.Outages, cfg.OutMax = n(r, 1, 2), 40*sec
		}
		r.maybeFaults(&cfg, 0.2, srvSafe, 0.05)
		cfg.Jumps = r.W.Choose("cfg", 3)
		if r.W.Chance("cfg", 0.15) {
			// the unit does not answer one kind of query for a while, or at all
			cfg.Mute = getKinds[r.W.Choose("cfg", len(getKinds))]
			cfg.MuteTo = []int64{1 << 62, r.W.LogRange("cfg", 10*sec, 1000*sec)}[r.W.Choose("cfg", 2)]
			cfg.Setup = muteKind((*SrvWorld).Inject) // the other kinds are answered all the time
		}
		if r.W.Chance("cfg", 0.15) {
			cfg.Pester = true
			cfg.Mix["FlushCache"], cfg.Mix["SetFanSpeed"], cfg.Mix["SetFanProfile"], cfg.Mix["SetComfortTemp"] = 4, 2, 2, 2
			cfg.Mix["bad"], cfg.Mix["badflush"], cfg.Mix["raw"] = 1, 1, 1
		}
		cfg.After = func(sw *SrvWorld) {
			// look again once every kind is due
			for _, d := range []int64{0, 1 * sec, 4*sec + 700*ms} {
				sw.sleep(d)
				for _, k := range getKinds {
					sw.do(&SrvOp{Client: 98, Kind: k})
				}
			}
			if sw.W.Chance("cfg", 0.5) {
				sw.sleep(20 * sec)
				for _, k := range getKinds {
					sw.do(&SrvOp{Client: 98, Kind: k})
				}
			}
		}
		r.srv(cfg, (*SrvWorld).checkC09)
	})
	base("C10", 120000, func(r *Run) {
		if r.W.Chance("cfg", 0.3) {
			// only flushes, all before the first periodic refresh
			cfg := SrvCfg{Clients: n(r, 1, 4), Ops: n(r, 1, 3), Fast: true, Mix: map[string]float64{"FlushCache": 5, "badflush": 1}, Think: 100 * ms, ThinkP: 0.3}
			r.maybeFaults(&cfg, 0.3, []string{"truncate", "bitflip", "write-error"}, 0.2)
			r.srv(cfg, func(sw *SrvWorld) {
				sw.checkC10()
				if len(sw.Viols) == 0 {
					sw.checkC10kinds()
				}
			})
			return
		}
		cfg := SrvCfg{Clients: n(r, 1, 4), Ops: n(r, 3, 8), Fast: r.W.Chance("cfg", 0.5), Think: 5 * sec, ThinkP: 0.4, GiveUp: 0.05,
			Mix: map[string]float64{"get": 6, "FlushCache": 6, "badflush": 0.7, "SetFanSpeed": 0.3, "SetFanProfile": 0.4, "SetComfortTemp": 0.4}}
		r.maybeFaults(&cfg, 0.5, srvSafe, 0.2, 0.5)
		if r.W.Chance("cfg", 0.3) {
			cfg.Outages, cfg.OutMax = n(r, 1, 2), 10*sec
		}
		if len(cfg.Faults) == 0 && r.W.Chance("cfg", 0.5) {
			// the unit does not answer one kind of query
			cfg.Mute, cfg.MuteTo, cfg.Setup = getKinds[r.W.Choose("cfg", len(getKinds))], 1<<62, muteKind((*SrvWorld).Fault)
		}
		r.srv(cfg, (*SrvWorld).checkC10)
	})
	setMix := func(r *Run, main string) SrvCfg {
		mix := map[string]float64{"get": 1, "FlushCache": 0.5, "SetFanSpeed": 0.7, "SetFanProfile": 0.7, "SetComfortTemp": 0.7, "bad": 0.3}
		mix[main] = 6
		switch main {
		case "SetFanSpeed":
			mix["GetFanProfiles"], mix["GetFans"] = 1.5, 1
		case "SetFanProfile":
			mix["GetFanProfiles"] = 3
		case "SetComfortTemp":
			mix["GetTemps"] = 3
		}
		cfg := SrvCfg{Clients: n(r, 1, 4), Ops: n(r, 2, 6), Fast: r.W.Chance("cfg", 0.6), Think: 4 * sec, ThinkP: 0.4, Mix: mix, SetLo: r.W.Chance("cfg", 0.7), GiveUp: 0.04}
		r.maybeFaults(&cfg, 0.45, linFaults, 0.1, 0.3)
		if r.W.Chance("cfg", 0.2) {
			cfg.Outages, cfg.OutMax = 1, 8*sec
		}
		if r.W.Chance("cfg", 0.4) {
			cfg.Panel = n(r, 1, 4)
		}
		if r.W.Chance("cfg", 0.3) {
			cfg.PanelMid = n(r, 1, 3)
		}
		cfg.Ramp, cfg.SlowRmp = r.W.Chance("cfg", 0.4), true
		crowd(r, &cfg)
		return cfg
	}
	base("C11", 80000, func(r *Run) { r.srv(setMix(r, "SetFanSpeed"), (*SrvWorld).checkC11) })
	base("C12", 80000, func(r *Run) { r.srv(setMix(r, "SetFanProfile"), (*SrvWorld).checkC12) })
	base("C13", 80000, func(r *Run) { r.srv(setMix(r, "SetComfortTemp"), (*SrvWorld).checkC13) })
	base("C14", 120000, func(r *Run) {
		cfg := SrvCfg{Clients: n(r, 1, 3), Ops: n(r, 3, 8), Fast: true, Think: 2 * sec, ThinkP: 0.3, SetLo: r.W.Chance("cfg", 0.3), Upload: []float64{0, 0.2}[r.W.Choose("cfg", 2)],
			Mix: map[string]float64{"bad": 8, "raw": 4, "badflush": 1, "get": 0.5, "SetFanSpeed": 1, "SetFanProfile": 1, "SetComfortTemp": 1}}
		r.maybeFaults(&cfg, 0.15, linFaults, 0.1)
		r.srv(cfg, (*SrvWorld).checkC14, (*SrvWorld).refused)
	})
	c := base("C15", 80000, func(r *Run) {
		cfg := SrvCfg{Clients: n(r, 1, 6), Ops: n(r, 2, 8), Fast: r.W.Chance("cfg", 0.4), Think: 8 * sec, ThinkP: 0.4, GiveUp: []float64{0, 0.15}[r.W.Choose("cfg", 2)], Heal: true, Upload: []float64{0, 0, 0.2}[r.W.Choose("cfg", 3)],
			Mix: map[string]float64{"get": 3, "FlushCache": 2, "badflush": 0.5, "SetFanSpeed": 2, "SetFanProfile": 2, "SetComfortTemp": 2, "bad": 0.6, "raw": 0.4}}
		if r.W.Chance("cfg", 0.4) {
			cfg.Clients = 1
		}
		kinds := allFaults
		if r.W.Chance("cfg", 0.8) {
			kinds = nil
			for _, f := range allFaults {
				if f != "eof" && f != "read-error-sticky" && f != "tiny-frame" {
					kinds = append(kinds, f)
				}
			}
		}
		r.maybeFaults(&cfg, 0.7, kinds, 0.2, 0.5, 0.9)
		if r.W.Chance("cfg", 0.4) {
			cfg.Outages, cfg.OutMax = n(r, 1, 2), 60*sec
		}
		cfg.Ramp, cfg.SlowRmp = r.W.Chance("cfg", 0.5), true
		if r.W.Chance("cfg", 0.3) {
			cfg.Panel = n(r, 1, 4)
		}
		if r.W.Chance("cfg", 0.3) {
			cfg.PanelMid = n(r, 1, 3)
		}
		if r.W.Chance("cfg", 0.06) {
			// clients that hardly ever wait for an answer: nothing may be left behind for them
			cfg.Clients, cfg.Ops, cfg.GiveUp, cfg.Think, cfg.PanelMid, cfg.Outages = n(r, 2, 4), n(r, 8, 12), 0.85, 2*sec, 0, 0
			cfg.FaultP *= 0.3
			for _, k := range []string{"FlushCache", "SetFanSpeed", "SetFanProfile", "SetComfortTemp", "get"} {
				cfg.Mix[k] *= float64([]int{1, 1, 6}[r.W.Choose("cfg", 3)])
			}
		}
		cfg.After = (*SrvWorld).finalProbe
		r.srv(cfg, (*SrvWorld).checkC15)
	})
	c.CrashBad, c.StuckBad = true, true
	c = base("C16", 60000, c16)
	c.CrashBad, c.StuckBad = true, true
	base("C17", 90000, func(r *Run) {
		cfg := SrvCfg{Clients: n(r, 1, 4), Ops: n(r, 2, 7), Fast: r.W.Chance("cfg", 0.5), Think: 3 * sec, ThinkP: 0.4, Heal: true, SetLo: r.W.Chance("cfg", 0.4), GiveUp: 0.08, Upload: []float64{0, 0, 0.2}[r.W.Choose("cfg", 3)],
			Mix: map[string]float64{"get": 2, "FlushCache": 0.7, "SetFanSpeed": 2, "SetFanProfile": 2, "SetComfortTemp": 2, "bad": 0.7, "raw": 0.3}}
		if cfg.Late = r.W.Chance("cfg", 0.4); cfg.Late {
			r.maybeFaults(&cfg, 0.8, append([]string{"no-ack", "no-answer", "truncate", "bitflip"}, linFaults...), 0.1, 0.4)
		} else {
			r.maybeFaults(&cfg, 0.4, linFaults, 0.1, 0.4)
		}
		if r.W.Chance("cfg", 0.6) {
			cfg.Crashes = n(r, 1, 3)
		}
		if r.W.Chance("cfg", 0.2) {
			cfg.Outages, cfg.OutMax = 1, 8*sec
		}
		cfg.Ramp = r.W.Chance("cfg", 0.3)
		cfg.After = (*SrvWorld).finalState
		r.srv(cfg, func(sw *SrvWorld) {
			sw.checkExecs()
			if len(sw.Viols) == 0 {
				sw.checkRestarts()
			}
		})
	})
	base("C21", 30000, func(r *Run) {
		c21(r, func(r *Run) SrvCfg {
			cfg := SrvCfg{Clients: n(r, 1, 4), Ops: n(r, 2, 8), Fast: r.W.Chance("cfg", 0.7), Think: 3 * sec, ThinkP: 0.4, SetLo: r.W.Chance("cfg", 0.4), GiveUp: 0.05,
				Mix: map[string]float64{"get": 6, "FlushCache": 1.5, "badflush": 0.7, "SetFanSpeed": 2, "SetFanProfile": 2, "SetComfortTemp": 2, "bad": 1.5}}
			r.maybeFaults(&cfg, 0.5, allFaults, 0.1, 0.4)
			if r.W.Chance("cfg", 0.2) {
				cfg.Crashes = 1
			}
			if r.W.Chance("cfg", 0.2) {
				cfg.Outages, cfg.OutMax = 1, 8*sec
			}
			cfg.Ramp = r.W.Chance("cfg", 0.3)
			cfg.Stalls = r.W.Chance("cfg", 0.3)
			return cfg
		})
	})
	c = base("C22", 40000, c22)
	c.CrashBad, c.StuckBad = true, true
}

// muteKind makes the unit leave one kind of query unanswered until cfg.MuteTo.
func muteKind(note func(*SrvWorld, string)) func(*SrvWorld) {
	return func(sw *SrvWorld) {
		plan, mute := sw.unit.Plan, kindCmd[sw.cfg.Mute]
		sw.unit.Plan = func(u *Unit, cmd byte, data, msg []byte) {
			if cmd == mute && sw.W.Now() < sw.cfg.MuteTo {
				note(sw, "one kind unanswered")
				u.Answers = u.Answers[:len(u.Answers)-1]
				return
			}
			plan(u, cmd, data, msg)
		}
	}
}
