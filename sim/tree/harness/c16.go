package harness

import (
	"bytes"
	"errors"
	"os"

	"github.com/ti-mo/comfo/zsim/rt"
	simhttp "github.com/ti-mo/comfo/zsim/std/net/http"
)

func (sw *SrvWorld) sleep(d int64) {
	if d > 0 {
		rt.Sleep(d)
	}
}

// c16 starts the program in a healthy or hostile environment.
func c16(r *Run) {
	w := r.W
	variant := w.Pick("cfg", 4, 3, 2, 2, 1)
	cfg := SrvCfg{NoStart: true, Fast: w.Chance("cfg", 0.3)}
	long := false
	switch variant {
	case 1: // the unit does not answer at first
		cfg.Setup = func(sw *SrvWorld) { sw.unit.Off = true; sw.Fault("unit off") }
		long = w.Chance("cfg", 0.05)
	case 2: // some answers are lost or damaged
		cfg.Faults, cfg.FaultP = r.swarm(append([]string{"odd-values"}, srvSafe...)), []float64{0.2, 0.6}[w.Choose("cfg", 2)]
	case 3: // the connection cannot be opened
		kind := w.Choose("cfg", 3)
		cfg.Setup = func(sw *SrvWorld) {
			sw.Fault("cannot connect")
			switch kind {
			case 0:
				sw.dialErr = errors.New("connection refused")
			case 1:
				os.Setenv("COMFO_TARGET", "no.such.unit:1")
			case 2:
				os.Setenv("COMFO_MODE", []string{"udp", "modbus", "TCP"}[w.Choose("cfg", 3)])
			}
		}
	case 4: // the address cannot be used
		cfg.Setup = func(sw *SrvWorld) { sw.Fault("cannot listen"); sw.listenErr = errors.New("address already in use") }
	}
	cfg.After = func(sw *SrvWorld) {
		cl := sw.cl
		if variant == 3 || variant == 4 {
			served := sw.awaitListening(20 * sec)
			r.Judge("failed start")
			switch {
			case served:
				r.Violate("served", "the server listens although its start failed")
			case !sw.proc.Dead:
				r.Violate("hung", "the server neither exits nor listens: %v", w.Blocked())
			case len(w.Crashes) > 0:
			case sw.proc.Code == 0:
				r.Violate("status", "the process exits with status 0 although it could not start")
			}
			return
		}
		// requests hammer the server while it starts
		early := w.Choose("cfg", 3)
		for i := 0; i < early; i++ {
			w.Spawn(cl, "early", func() {
				for k := 0; k < 40 && !sw.proc.Dead; k++ {
					o := &SrvOp{Client: i, Kind: getKinds[w.Choose("op", len(getKinds))]}
					sw.do(o)
					if !o.Refused {
						break
					}
					rt.Sleep(1 + w.LogRange("think", 0, 500*ms))
				}
			})
		}
		ok := sw.awaitListening(20 * sec)
		if !ok {
			if sw.proc.Dead && len(w.Crashes) == 0 {
				r.Violate("exit", "the process exits with status %d although nothing prevents its start", sw.proc.Code)
			} else if !sw.proc.Dead {
				r.Stuck("the server does not listen 20s after its start: %v", w.Blocked())
			}
			return
		}
		st := sw.starts[0]
		r.Judge("start")
		if d := st.ListenT - st.BeginT; d > 10*sec {
			r.Violate("slow", "the server took %.1fs to start", float64(d)/1e9)
			return
		}
		// one attempt per kind must be over
		for _, k := range getKinds {
			n := 0
			for _, e := range sw.conns[0].Log {
				if e.Kind == 'b' && bytes.Contains(e.Data, frame(kindCmd[k], nil)) && e.Seq < st.ListenSeq {
					n++
				}
			}
			if n == 0 {
				r.Violate("unpopulated", "the server listens before it asked the unit for %s", k)
				return
			}
		}
		left := len(getKinds)
		var q rt.WaitQ
		first := make([]*SrvOp, len(getKinds))
		for i, k := range getKinds {
			first[i] = &SrvOp{Client: 10 + i, Kind: k, JSON: i%2 == 0}
			w.Spawn(cl, "first", func() { sw.do(first[i]); left--; q.WakeAll(w) })
		}
		lim := r.deadline(30 * sec)
		for left > 0 {
			if !lim.wait(&q, "first requests") {
				r.Stuck("the first requests are not answered: %v", w.Blocked())
				return
			}
			if sw.proc.Dead {
				return
			}
		}
		sw.checkFirst(variant == 0)
		if len(r.Viols) > 0 || variant == 0 {
			return
		}
		// the unit starts to answer; everything fills in by its refresh interval
		sw.heal()
		waits := []int64{16 * sec}
		if w.Chance("cfg", 0.4) {
			waits = append(waits, 312*sec)
		}
		if long {
			waits = append(waits, 3612*sec)
		}
		heal := w.Now()
		for _, d := range waits {
			sw.sleep(heal + d - w.Now())
			for _, k := range getKinds {
				o := &SrvOp{Client: 99, Kind: k}
				sw.do(o)
				if !o.ok() {
					r.Violate("broken", "%v: fails although the unit answers", o)
					return
				}
				if d < freshBound[k]+4*sec {
					continue
				}
				c := candidates(o, sw.answers(kindCmd[k], 0))
				r.Judge("filled in")
				if len(c) == 0 || c[len(c)-1] == 0 {
					r.Violate("empty", "%v: still no values %.0fs after the unit started to answer", o, float64(w.Now()-heal)/1e9)
					return
				}
			}
		}
	}
	var sw *SrvWorld
	fin := r.Simulate(func() { sw = r.runSrv(cfg) })
	if sw != nil {
		for i, o := range sw.ops {
			if i == 8 {
				break
			}
			r.Sample += o.String() + "\n"
		}
	}
	_ = fin
	_ = simhttp.Serving
}

// checkFirst checks what was served right after the start.
func (sw *SrvWorld) checkFirst(healthy bool) {
	for _, o := range sw.ops {
		if !o.Done || o.Refused {
			continue
		}
		if !o.ok() {
			sw.Violate("first", "%v: one of the first requests fails", o)
			return
		}
		c := candidates(o, sw.answers(kindCmd[o.Kind], 0))
		sw.Judge("first response")
		if len(c) == 0 {
			sw.Violate("first", "%v: these values are no answer of the unit", o)
			return
		}
		// GetErrors has only one bit: an empty value looks like an answer
		if healthy && c[len(c)-1] == 0 {
			sw.Violate("first", "%v: the first response is empty although the unit answers", o)
			return
		}
	}
}
