package harness

import (
	"bytes"
	"fmt"
	"io"
	"sort"

	"github.com/ti-mo/comfo/libcomfo"
	"github.com/ti-mo/comfo/zsim/link"
	"github.com/ti-mo/comfo/zsim/rt"
)

// The library world: application tasks call libcomfo directly on simulated lines.

// LibOp is one library call and its outcome.
type LibOp struct {
	Kind   string
	Cmd    byte // request command, 0 for composite operations
	Args   []int
	Data   []byte
	Expect bool
	Conn   int
	Task   int

	InvSeq, RetSeq uint64
	InvT, RetT     int64
	Done           bool
	Err            error
	Panic          string
	Vec            []int64
	Str            string
	Out            []byte
	OutCmd         byte
	Phase          int // 0 faults may happen, 1 healed
}

func (o *LibOp) String() string {
	st := "pending"
	if o.Done {
		st = fmt.Sprintf("returned at %.3fs", float64(o.RetT)/1e9)
		if o.Err != nil {
			st += " error: " + o.Err.Error()
		} else {
			st += fmt.Sprintf(" ok %v %q %x", o.Vec, o.Str, o.Out)
		}
	}
	return fmt.Sprintf("%s%v on line %d, called at %.3fs, %s", o.Kind, o.Args, o.Conn, float64(o.InvT)/1e9, st)
}

// LibCfg configures a library run.
type LibCfg struct {
	Conns     int
	Clients   int
	Ops       int
	Faults    []string // enabled fault kinds
	FaultP    float64
	Mix       string // which operations
	Heal      bool   // end with a healthy phase
	Biased    bool
	FaultOnly int // with several lines: index of the only faulty line, -1 all
	Healthy   bool
	Think     int64
	NoStrat   bool
	Focus     bool   // every task makes the same kind of call over and over
	Slow      bool   // writing a request may take a while
	Odd       bool   // connections cannot be compared
	Stalls    string // tasks that may stall: "" none, "client" the calling tasks, "any" the library's own as well
}

// LibWorld is a finished library run.
type LibWorld struct {
	kept []kept
	*Run
	cfg   LibCfg
	conns []*link.Conn
	units []*Unit
	ops   []*LibOp
	app   *rt.Proc
	quiet bool // faults switched off
	focus string
	focIx int
	// ServedHealthy counts exchanges
	healSeq uint64
	dead    []bool // line hit end of stream
	readErr []bool
	// planned deliveries
}

type plainConn struct{ c *link.Conn }

// oddConn cannot be compared.
type oddConn struct {
	*link.Conn
	id []int
}

func (p plainConn) Read(b []byte) (int, error)  { return p.c.Read(b) }
func (p plainConn) Write(b []byte) (int, error) { return p.c.Write(b) }

func (lw *LibWorld) setup() {
	w := lw.W
	link.Reset()
	resetLibrary()
	lw.app = w.NewProc("app")
	for i := 0; i < lw.cfg.Conns; i++ {
		c := &link.Conn{W: w, Name: fmt.Sprintf("line%d", i)}
		u := NewUnit(w, fmt.Sprintf("unit%d", i))
		u.Biased = lw.cfg.Biased
		u.Echo = true
		u.Attach(c)
		lw.conns = append(lw.conns, c)
		lw.units = append(lw.units, u)
		lw.dead = append(lw.dead, false)
		lw.readErr = append(lw.readErr, false)
		// vary the initial state
		for k := range u.In {
			u.In[k], u.Out[k] = byte(15+w.Choose("init", 86)), byte(15+w.Choose("init", 86))
		}
		u.Mode = byte(1 + w.Choose("init", 4))
		u.Comfort = byte(64 + w.Choose("init", 40))
		lat := int64(1 * ms)
		if w.Chance("init", 0.5) {
			lat = w.LogRange("init", 0, 90*ms)
		}
		u.inLat = func(n int) int64 { return lat }
		switch w.Pick("init", 3, 1, 1) {
		case 1:
			c.ReadLimit = func(n int) int { return 1 }
		case 2:
			c.ReadLimit = func(n int) int { return 1 + w.Choose("rlimit", n) }
		}
		if lw.has("flood") {
			c.ReadLimit = nil // rescanning a flood byte by byte takes too many steps
		}
		if w.Chance("init", 0.15) {
			c.EmptyRead = func() bool { return w.Chance("empty", 0.2) }
		}
		faulty := len(lw.cfg.Faults) > 0 && (lw.cfg.FaultOnly < 0 || lw.cfg.FaultOnly == i)
		u.Plan = func(u *Unit, cmd byte, data []byte, msg []byte) {
			if faulty && !lw.quiet && w.Chance("fault?", lw.cfg.FaultP) {
				lw.faultyPlan(i, u, cmd, msg)
				return
			}
			healthyPlan(u, msg, 880*ms)
		}
		if faulty {
			lw.armLine(i, u, c)
		}
		if lw.cfg.Slow {
			fault := c.OnWrite
			c.OnWrite = func(p []byte) (f *link.WriteFault) {
				if fault != nil {
					f = fault(p)
				}
				if f == nil && bytes.Contains(p, []byte{esc, cSTART}) && w.Chance("slow?", 0.4) {
					lw.Fault("slow write")
					f = &link.WriteFault{N: len(p), Stall: w.LogRange("slow", 1*ms, 950*ms)}
				}
				return f
			}
		}
	}
}

func (lw *LibWorld) has(f string) bool {
	for _, x := range lw.cfg.Faults {
		if x == f {
			return true
		}
	}
	return false
}

// armLine installs the faults that are not part of an answer.
func (lw *LibWorld) armLine(i int, u *Unit, c *link.Conn) {
	w := lw.W
	c.OnWrite = func(p []byte) *link.WriteFault {
		if lw.quiet || !w.Chance("wfault?", lw.cfg.FaultP/3) {
			return nil
		}
		var opts []string
		for _, f := range []string{"write-error", "short-write", "request-lost", "request-damaged"} {
			if lw.has(f) {
				opts = append(opts, f)
			}
		}
		if len(opts) == 0 {
			return nil
		}
		f := opts[w.Choose("wfault", len(opts))]
		lw.Fault(f)
		switch f {
		case "write-error":
			return &link.WriteFault{N: 0, Err: errWrite}
		case "short-write":
			return &link.WriteFault{N: int(w.Range("wfault", 0, int64(len(p)-1))), Err: []error{errWrite, io.ErrShortWrite}[w.Choose("wfault", 2)]}
		case "request-lost":
			u.Damage = func(d []byte) []byte { u.Damage = nil; return nil }
		case "request-damaged":
			k, bit := int(w.Range("wfault", 0, int64(len(p)-1))), w.Choose("wfault", 8)
			u.Damage = func(d []byte) []byte {
				u.Damage = nil
				d = append([]byte(nil), d...)
				if k < len(d) {
					d[k] ^= 1 << bit
				}
				return d
			}
		}
		return nil
	}
	if lw.has("noise") {
		n := int(w.Range("noise", 0, 3))
		for k := 0; k < n; k++ {
			at := w.Range("noise", 0, int64(lw.cfg.Ops)*600*ms)
			w.After(at, func() {
				if lw.quiet || c.Closed() {
					return
				}
				lw.Fault("noise")
				var b []byte
				if old := len(u.Answers); old > 0 && w.Chance("noise", 0.4) {
					a := u.Answers[w.Choose("noise", old)]
					b = append([]byte{esc, cACK}, frame(a.Cmd+1, a.Payload)...)
				} else {
					b = u.rndBytes(1 + w.Choose("noise", 20))
				}
				u.Send(b, 0)
			})
		}
	}
}

// faultyPlan answers one request in a way a broken line or unit might.
func (lw *LibWorld) faultyPlan(ci int, u *Unit, cmd byte, msg []byte) {
	w := lw.W
	var opts []string
	for _, f := range lw.cfg.Faults {
		switch f {
		case "write-error", "short-write", "request-lost", "request-damaged", "noise":
		default:
			opts = append(opts, f)
		}
	}
	if len(opts) == 0 {
		healthyPlan(u, msg, 880*ms)
		return
	}
	f := opts[w.Choose("fault", len(opts))]
	if f == "flood" && w.Chance("fault", 0.8) {
		f = "garbage"
	}
	lw.Fault(f)
	w.Event("fault", "%s answers with fault %q", u.Name, f)
	pos := func(n int) int { return w.Choose("fpos", n) }
	insert := func(m []byte, at int, x []byte) []byte {
		return append(append(append([]byte(nil), m[:at]...), x...), m[at:]...)
	}
	deliver := func(m []byte) {
		if len(m) > 0 {
			healthyPlan(u, m, 880*ms)
		}
	}
	m := append([]byte(nil), msg...)
	ack, rest := m[:2], m[2:]
	switch f {
	case "silent":
	case "no-ack":
		deliver(rest)
	case "no-answer":
		deliver(ack)
	case "truncate":
		deliver(m[:pos(len(m))])
	case "lose-bytes":
		a := pos(len(m))
		n := 1 + w.Choose("fpos", 3)
		if a+n > len(m) {
			n = len(m) - a
		}
		deliver(append(append([]byte(nil), m[:a]...), m[a+n:]...))
	case "corrupt":
		m[pos(len(m))] ^= byte(1 + w.Choose("fpos", 255))
		deliver(m)
	case "bitflip":
		m[pos(len(m))] ^= 1 << w.Choose("fpos", 8)
		deliver(m)
	case "tail-flip": // damage that shows only when the answer is complete
		k := len(m) - 3
		if len(m) == 2 {
			k = 1
		}
		m[k] ^= 1 << w.Choose("fpos", 8)
		u.Send(m, w.LogRange("pace", 1*ms, 800*ms))
	case "control":
		// another control sequence in place of one of the answer's
		var at []int
		for i := 0; i+1 < len(m); i++ {
			if m[i] == esc && (m[i+1] == cACK || m[i+1] == cSTART || m[i+1] == cEND) {
				at = append(at, i+1)
			}
		}
		m[at[pos(len(at))]] = []byte{cACK, cSTART, cEND, 0x00, esc}[w.Choose("fpos", 5)]
		deliver(m)
	case "dup-byte":
		a := pos(len(m))
		deliver(insert(m, a, []byte{m[a]}))
	case "dup-all":
		deliver(append(m, msg...))
	case "dup-later":
		deliver(m)
		u.Send(msg, w.LogRange("fpos", 1*ms, 3*sec))
	case "garbage":
		deliver(insert(m, pos(len(m)+1), u.rndBytes(1+w.Choose("fpos", 12))))
	case "late":
		u.Send(m, 1*sec+w.LogRange("fpos", 0, 3*sec))
	case "split-late":
		a := pos(len(m) + 1)
		if a > 0 {
			u.Send(m[:a], w.LogRange("pace", 0, 800*ms))
		}
		if a < len(m) {
			u.Send(m[a:], 1*sec+w.LogRange("fpos", 0, 2*sec))
		}
	case "trickle":
		gap := w.LogRange("fpos", 1*ms, 400*ms)
		for i := range m {
			u.Send(m[i:i+1], gap*int64(i+1))
		}
	case "babble":
		n := 5 + w.Choose("fpos", 60)
		gap := w.LogRange("fpos", 1*ms, 600*ms)
		if w.Chance("fpos", 0.3) {
			deliver(ack)
		}
		for i := 0; i < n; i++ {
			u.Send(u.rndBytes(1+w.Choose("fpos", 3)), gap*int64(i+1))
		}
	case "flood":
		b := make([]byte, []int{5000, 70000}[w.Pick("fpos", 4, 1)])
		x := u.rndByte()
		for i := range b {
			b[i] = x
		}
		if x == esc {
			b[0] = 1
		}
		k := pos(len(m) + 1)
		u.Send(insert(m, k, b), w.LogRange("pace", 1*ms, 800*ms))
	case "eof":
		deliver(m[:pos(len(m)+1)])
		u.SendErr(errEOF, true, 0)
		lw.dead[ci] = true
	case "read-error":
		a := pos(len(m) + 1)
		deliver(m[:a])
		u.SendErr(errLine, false, 0)
		lw.readErr[ci] = true
		if a < len(m) && w.Chance("fpos", 0.5) {
			u.Send(m[a:], w.LogRange("fpos", 0, 100*ms))
		}
	case "read-error-sticky":
		deliver(m[:pos(len(m)+1)])
		u.SendErr(errLine, true, 0)
		lw.dead[ci] = true
	case "wrong-answer":
		other := []byte{cmdFans, cmdTemps, cmdBypass, cmdFanProfiles, cmdErrors, cmdHours, cmdBootloader, 0x42}[w.Choose("fpos", 8)]
		var p []byte
		if readCmd(other) {
			p = u.answer(other)
		} else {
			p = u.rndBytes(w.Choose("fpos", 10))
		}
		mm := append(append([]byte(nil), ack...), frame(other+1, p)...)
		if w.Chance("fpos", 0.4) {
			mm = append(mm, rest...)
		}
		deliver(mm)
	case "answer-first":
		deliver(append(append([]byte(nil), rest...), ack...))
	case "wrong-length":
		if len(m) > 8 {
			m[6] += byte(1 + w.Choose("fpos", 254))
		}
		deliver(m)
	case "wrong-type-len":
		// a valid frame of the right type with an unexpected size
		deliver(append(append([]byte(nil), ack...), frame(cmd+1, u.rndBytes(w.Choose("fpos", 24)))...))
	case "odd-values":
		// a well-formed answer with values a unit reports when something is off
		if !readCmd(cmd) || len(rest) == 0 {
			deliver(m)
			return
		}
		a := u.Answers[len(u.Answers)-1]
		p := append([]byte(nil), a.Payload...)
		switch k := w.Choose("fpos", 4); k {
		case 0, 1:
			for i := range p {
				p[i] = byte(0 - k) // all zero, all ones
			}
		case 2:
			// some fields are zero
			for n := 1 + w.Choose("fpos", 3); n > 0; n-- {
				i := pos(len(p)) &^ 1
				p[i] = 0
				if i+1 < len(p) {
					p[i+1] = 0
				}
			}
		case 3:
			for i := range p {
				p[i] = byte(w.Choose("fpos", 256))
			}
		}
		a.Payload = p
		var ok bool
		if a.Vec, a.Str, ok = decode(cmd, p); !ok {
			u.Answers = u.Answers[:len(u.Answers)-1]
		}
		deliver(append(append([]byte(nil), ack...), frame(cmd+1, p)...))
	case "tiny-frame":
		// start and end with next to nothing in between
		m := append(append([]byte(nil), ack...), esc, cSTART)
		m = append(m, u.rndBytes(w.Pick("fpos", 4, 1, 1, 1, 1))...)
		deliver(append(m, esc, cEND))
		if w.Chance("fpos", 0.3) {
			u.SendErr(errEOF, true, 0)
			lw.dead[ci] = true
		}
	default:
		panic(rt.HarnessBug{Msg: "unknown fault " + f})
	}
}

var allFaults = []string{"silent", "no-ack", "no-answer", "truncate", "lose-bytes", "corrupt", "bitflip", "control", "dup-byte", "dup-all", "dup-later",
	"garbage", "late", "split-late", "trickle", "babble", "flood", "eof", "read-error", "read-error-sticky", "wrong-answer", "answer-first", "wrong-length",
	"wrong-type-len", "odd-values", "tiny-frame", "write-error", "short-write", "request-lost", "request-damaged", "noise"}

// swarm picks a random subset of fault kinds for this run.
func (r *Run) swarm(kinds []string) []string {
	var out []string
	p := []float64{1, 0.5, 0.2}[r.W.Pick("swarm", 2, 3, 3)]
	for _, k := range kinds {
		if r.W.Chance("swarm", p) {
			out = append(out, k)
		}
	}
	if len(out) == 0 {
		out = append(out, kinds[r.W.Choose("swarm", len(kinds))])
	}
	sort.Strings(out)
	return out
}

// next draws an operation.
func (lw *LibWorld) next(ci int) *LibOp {
	w := lw.W
	o := &LibOp{Conn: ci}
	reads := []struct {
		n string
		c byte
	}{{"GetTemperatures", cmdTemps}, {"GetFans", cmdFans}, {"GetFanProfiles", cmdFanProfiles}, {"GetBypass", cmdBypass}, {"GetHours", cmdHours},
		{"GetBootloader", cmdBootloader}, {"GetFirmware", cmdFirmware}, {"GetErrors", cmdErrors}}
	kind := ""
	switch lw.cfg.Mix {
	case "profiles":
		kind = []string{"GetFanProfiles", "SetFanProfile", "SetFanProfiles"}[w.Pick("op", 3, 5, 2)]
	case "sets":
		kind = []string{"SetSpeed", "SetComfort", "SetFanProfile", "SetFanProfiles", "read", "badarg"}[w.Pick("op", 4, 4, 3, 3, 1, 2)]
	case "reads":
		kind = []string{"read", "query"}[w.Pick("op", 3, 1)]
	default:
		kind = []string{"read", "query", "SetSpeed", "SetComfort", "SetFanProfile", "SetFanProfiles", "notify", "badarg"}[w.Pick("op", 8, 3, 1, 1, 1, 1, 1, 0.5)]
	}
	ix := w.Choose("op", len(reads))
	if lw.cfg.Focus {
		if lw.focus == "" {
			lw.focus, lw.focIx = kind, ix
		}
		kind, ix = lw.focus, lw.focIx
	}
	switch kind {
	case "read":
		r := reads[ix]
		o.Kind, o.Cmd = r.n, r.c
	case "GetFanProfiles":
		o.Kind, o.Cmd = kind, cmdFanProfiles
	case "query", "notify":
		o.Kind = "QueryPacket"
		o.Expect = kind == "query"
		if o.Expect {
			// any command the unit does not know is echoed
			o.Cmd = byte(w.Choose("op", 256))
			if w.Chance("op", 0.15) {
				o.Cmd = []byte{0xff, 0xfe, 0, 6, 7, 0xf, 0xf0, 0xf3}[w.Choose("op", 8)]
			}
			for ; knownCmd(o.Cmd) || mutedCmd(o.Cmd); o.Cmd++ {
			}
		} else {
			o.Cmd = 0x30 + byte(w.Choose("op", 16))
		}
		n := 0
		switch w.Pick("op", 3, 3, 1) {
		case 0:
			n = w.Choose("op", 12)
		case 1:
			n = int(w.LogRange("op", 0, 80))
		case 2:
			n = 255 - w.Choose("op", 6)
		}
		o.Data = lw.units[ci].rndBytes(n)
		if w.Chance("op", 0.1) {
			// one value throughout, apart from the ends: the longest and the most repetitive frames
			v := []byte{7, 7, 7, 0, 0xff, 0x0f, 0xf0, 0xf3}[w.Choose("op", 8)]
			for i := range o.Data {
				if i > 0 && i < n-1 || w.Chance("op", 0.7) {
					o.Data[i] = v
				}
			}
		}
	case "SetSpeed":
		o.Kind, o.Cmd, o.Args = kind, cmdSetSpeed, []int{w.Choose("op", 5)}
	case "SetComfort":
		o.Kind, o.Cmd, o.Args = kind, cmdSetComfort, []int{w.Choose("op", 108)}
	case "SetFanProfile":
		o.Kind, o.Args = kind, []int{w.Choose("op", 4), w.Choose("op", 101)}
	case "SetFanProfiles":
		o.Kind, o.Cmd = kind, cmdSetProfiles
		for i := 0; i < 8; i++ {
			if lw.cfg.Mix == "profiles" || w.Chance("op", 0.5) {
				o.Args = append(o.Args, w.Choose("op", 101))
			} else {
				o.Args = append(o.Args, int(lw.units[ci].rndByte()))
			}
		}
	case "badarg":
		// from lo up to 255, often at the edge
		above := func(lo int) int {
			if w.Chance("op", 0.4) {
				return lo + w.Choose("op", 2)
			}
			return lo + w.Choose("op", 256-lo)
		}
		switch w.Choose("op", 4) {
		case 0:
			o.Kind, o.Cmd, o.Args = "SetSpeed", cmdSetSpeed, []int{above(5)}
		case 1:
			o.Kind, o.Cmd, o.Args = "SetComfort", cmdSetComfort, []int{above(108)}
		case 2:
			o.Kind, o.Args = "SetFanProfile", []int{above(4), w.Choose("op", 256)}
		case 3:
			o.Kind, o.Args = "SetFanProfile", []int{w.Choose("op", 4), above(101)}
		}
	}
	return o
}

func (o *LibOp) bad() bool {
	switch o.Kind {
	case "SetSpeed":
		return o.Args[0] > 4
	case "SetComfort":
		return o.Args[0] > 107
	case "SetFanProfile":
		return o.Args[0] > 3 || o.Args[1] > 100
	}
	return false
}

// do performs an operation and records it.
func (lw *LibWorld) do(o *LibOp) {
	w := lw.W
	o.Task = w.CurTaskID()
	var conn io.ReadWriter = plainConn{lw.conns[o.Conn]}
	if lw.connPtr() {
		conn = lw.conns[o.Conn]
	}
	if lw.cfg.Odd {
		conn = oddConn{lw.conns[o.Conn], []int{o.Conn}}
	}
	if lw.quiet {
		o.Phase = 1
	}
	o.InvSeq, o.InvT = w.Event("call", "%s%v data=%x on line%d", o.Kind, o.Args, o.Data, o.Conn), w.Now()
	lw.ops = append(lw.ops, o)
	defer func() {
		if w.Reaping() {
			return
		}
		if r := recover(); r != nil {
			if hb, ok := r.(rt.HarnessBug); ok {
				panic(hb)
			}
			o.Panic = fmt.Sprint(r)
			lw.Crash("panic in %s: %v", o.Kind, r)
		}
		o.Done = true
		o.RetSeq, o.RetT = w.Event("return", "%s%v err=%v vec=%v str=%q out=%x", o.Kind, o.Args, o.Err, o.Vec, o.Str, o.Out), w.Now()
		lw.Ops++
	}()
	switch o.Kind {
	case "GetTemperatures":
		var v libcomfo.Temps
		v, o.Err = libcomfo.GetTemperatures(conn)
		o.Vec = vecTemps(v)
	case "GetFans":
		var v libcomfo.Fans
		v, o.Err = libcomfo.GetFans(conn)
		o.Vec = vecFans(v)
	case "GetFanProfiles":
		var v libcomfo.FanProfiles
		v, o.Err = libcomfo.GetFanProfiles(conn)
		o.Vec = vecProfiles(v)
	case "GetBypass":
		var v libcomfo.Bypass
		v, o.Err = libcomfo.GetBypass(conn)
		o.Vec = vecBypass(v)
	case "GetHours":
		var v libcomfo.Hours
		v, o.Err = libcomfo.GetHours(conn)
		o.Vec = vecHours(v)
	case "GetBootloader":
		var v libcomfo.BootInfo
		v, o.Err = libcomfo.GetBootloader(conn)
		o.Vec, o.Str = vecBoot(v)
	case "GetFirmware":
		var v libcomfo.BootInfo
		v, o.Err = libcomfo.GetFirmware(conn)
		o.Vec, o.Str = vecBoot(v)
	case "GetErrors":
		var v libcomfo.Errors
		v, o.Err = libcomfo.GetErrors(conn)
		o.Vec = vecErrors(v)
	case "QueryPacket":
		var p libcomfo.Packet
		arg := append(make([]byte, 0, len(o.Data)+16), o.Data...)
		p, o.Err = libcomfo.QueryPacket(libcomfo.Packet{Command: o.Cmd, Data: arg, Expect: o.Expect}, conn)
		o.Out, o.OutCmd = bytes.Clone(p.Data), p.Command
		// both payloads are the caller's now
		if w.Chance("op", 0.5) {
			lw.kept = append(lw.kept, kept{o, arg, p.Data})
		} else {
			scribble(arg)
			scribble(p.Data)
		}
	case "SetSpeed":
		o.Err = libcomfo.SetSpeed(uint8(o.Args[0]), conn)
	case "SetComfort":
		o.Err = libcomfo.SetComfort(uint8(o.Args[0]), conn)
	case "SetFanProfile":
		o.Err = libcomfo.SetFanProfile(uint8(o.Args[0]), uint8(o.Args[1]), conn)
	case "SetFanProfiles":
		a := o.Args
		b := func(i int) uint8 { return uint8(a[i]) }
		o.Err = libcomfo.SetFanProfiles(&libcomfo.FanProfiles{OutAway: b(0), OutLow: b(1), OutMid: b(2), OutHigh: b(3), InAway: b(4), InLow: b(5), InMid: b(6), InHigh: b(7)}, conn)
	default:
		panic(rt.HarnessBug{Msg: "unknown op " + o.Kind})
	}
}

// kept are the payloads of a packet query, which nobody may change after the call.
type kept struct {
	o        *LibOp
	arg, out []byte
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xAA
	}
}

// checkKept compares the payloads with what they were when the calls returned.
func (lw *LibWorld) checkKept() {
	for _, k := range lw.kept {
		if !bytes.Equal(k.arg, k.o.Data) {
			lw.Violate("argument-changed", "%v: the caller's payload %x was changed to %x", k.o, k.o.Data, k.arg)
		}
		if !bytes.Equal(k.out, k.o.Out) {
			lw.Violate("result-changed", "%v: the returned payload changed later to %x", k.o, k.out)
		}
	}
}

// leftBehind counts the tasks that are still alive some time after the last call returned.
func (lw *LibWorld) leftBehind() {
	rt.Sleep(3 * sec)
	n, max := lw.W.Tasks(lw.app), 4+2*len(lw.conns)
	lw.Judge("tasks")
	if n > max {
		lw.Violate("tasks", "%d tasks of the library are alive after the last call returned: %v", n, lw.W.Blocked())
	}
}

// connPtr: all calls of a run pass the same kind of connection value.
func (lw *LibWorld) connPtr() bool { return lw.Seed&1 == 0 }

// expectSet is the set frame an operation must write (nil if it depends on what was read).
func (o *LibOp) setFrame() (cmd byte, data []byte) {
	switch o.Kind {
	case "SetSpeed":
		return cmdSetSpeed, []byte{byte(o.Args[0])}
	case "SetComfort":
		return cmdSetComfort, []byte{byte((o.Args[0] + 20) * 2)}
	case "SetFanProfiles":
		a := o.Args
		return cmdSetProfiles, []byte{byte(a[0]), byte(a[1]), byte(a[2]), byte(a[4]), byte(a[5]), byte(a[6]), byte(a[3]), byte(a[7])}
	}
	return 0, nil
}

// runLib executes one library run.
func (r *Run) runLib(cfg LibCfg) *LibWorld { return r.runLibInit(cfg, nil) }

func (r *Run) runLibInit(cfg LibCfg, init *State) *LibWorld {
	lw := &LibWorld{Run: r, cfg: cfg}
	w := r.W
	if !cfg.NoStrat {
		r.strategy(cfg.Stalls != "", cfg.Stalls == "any", "")
	}
	lw.setup()
	if cfg.Stalls != "" {
		lw.app.Stalls = true
		if cfg.Stalls != "any" {
			lw.app.StallName = cfg.Stalls
		}
	}
	if init != nil {
		*init = lw.units[0].State
	}
	running := cfg.Clients
	var done rt.WaitQ
	for i := 0; i < cfg.Clients; i++ {
		w.Spawn(lw.app, fmt.Sprintf("client%d", i), func() {
			for k := 0; k < cfg.Ops; k++ {
				ci := 0
				if cfg.Conns > 1 {
					ci = w.Choose("conn", cfg.Conns)
				}
				o := lw.next(ci)
				if cfg.Think > 0 {
					switch w.Pick("think", 2, 1) {
					case 1:
						rt.Sleep(w.LogRange("think", 0, cfg.Think))
					}
				}
				lw.do(o)
			}
			running--
			done.WakeAll(w)
		})
	}
	lw.app.OnExit = func(int) { done.WakeAll(w) }
	lim := r.deadline(int64(cfg.Ops*cfg.Clients)*4*sec + 60*sec)
	for running > 0 && !lw.app.Dead {
		if !lim.wait(&done, "clients") {
			lw.Stuck("library calls still pending after %ds of simulated time: %v", (w.Now())/sec, w.Blocked())
			return lw
		}
	}
	if lw.app.Dead {
		return lw
	}
	if cfg.Heal {
		// the line becomes healthy; stray bytes finish arriving
		lw.quiet = true
		lw.healSeq = w.Event("heal", "line is healthy from here on")
		for _, u := range lw.units {
			u.Damage = nil
		}
		for {
			q := true
			for _, u := range lw.units {
				if !u.Quiet() {
					q = false
				}
			}
			if q {
				break
			}
			rt.Sleep(100 * ms)
		}
		rt.Sleep(500*ms + w.LogRange("heal", 0, 2*sec))
		fin := 1 + w.Pick("heal", 5, 2, 1, 1)
		for i := fin; i > 0; i-- {
			w.Spawn(lw.app, fmt.Sprintf("healed client%d", i), func() {
				for k := 0; k < 4; k++ {
					for ci := range lw.conns {
						if !lw.dead[ci] {
							lw.do(lw.next(ci))
						}
					}
				}
				fin--
				done.WakeAll(w)
			})
		}
		lim := r.deadline(60 * sec)
		for fin > 0 && !lw.app.Dead {
			if !lim.wait(&done, "healed client") {
				lw.Stuck("library calls still pending after the line healed: %v", w.Blocked())
				return lw
			}
		}
		if !lw.app.Dead {
			lw.leftBehind()
		}
	}
	return lw
}
